"""Queries of the real-arithmetic symbolic executor: harness + real sources -> LLVM IR -> vlib/lsx.py -> verdict."""
import concurrent.futures as cf
import json
import os
import resource
import subprocess
import time

from . import common as C
from . import cbmcq

PY = next((p for p in ('/opt/veriftools/pyvenv/bin/python', '/opt/veriftools/pyvenv/bin/python3') if os.path.exists(p)), 'python3-vt')


def _limits(timeout):
    def f():  # no address space limit: it would break the sanitised replay; Z3 has its own memory limit
        resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 30, int(timeout) + 30))
        os.setsid()
    return f


class LQuery:
    """weak: library functions which the harness (or a stub) defines instead, inside the same source file too."""
    def __init__(self, name, file, srcs, drop=(), stubs=(), defs=(), src_defs=(), timeout=200, tiers=('quick', 'thorough'), bounds='', channels=None,
                 geoid=False, weight=1, flags=(), passes='sroa,early-cse,simplifycfg', opts=None, weak=()):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def flags_extra(self):
        return [f for f in self.flags if not f.startswith('-')]


def _ir(src, defs, inc, passes):
    key = ('ll', src, tuple(defs), tuple(inc), passes)

    def build():
        base = os.path.join(C.scratch(), 'i_%s_%s' % (os.path.basename(src), C.digest(key)))
        C.must(['/usr/bin/clang-18', '-std=gnu99', '-D_GNU_SOURCE', '-DVP_LSX', '-UNDEBUG', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-builtin', '-w', '-S', '-emit-llvm',
                src, '-o', base + '.0.ll'] + inc + ['-D' + d for d in defs], timeout=300)
        C.must(['/usr/bin/opt-18', '-S', '-passes=' + passes, base + '.0.ll', '-o', base + '.ll'], timeout=300)
        return base + '.ll'
    return cbmcq.once(key, build)


def _link(q):
    inc = cbmcq.BASE_INC + ['-I' + C.gen_include(q.channels)]
    objs = [_ir(s, list(q.src_defs), inc + cbmcq.weak_include(q), q.passes) for s in cbmcq._sources(q)]
    stubs = list(q.stubs)
    if 'keep_logging' not in q.flags_extra():
        stubs.append('stub_logging.c')
    objs += [_ir(os.path.join(C.HARNESS, s), list(q.defs), inc, q.passes) for s in stubs + ['lsx_libc.c', q.file]]
    out = os.path.join(C.scratch(), 'x_%s.ll' % q.name)
    C.must(['/usr/bin/llvm-link-18', '-S'] + objs + ['-o', out], timeout=300)
    return out


def run_query(q, tier, pid):
    r = dict(name=q.name, harness=q.file, bounds=q.bounds, verdict='error', runs=0, solver_s=0.0, steps=0, vccs=0, vccs_nontrivial=0, clauses=0, variables=0,
             properties=0, witnesses=[], violation=None, note='', solver='z3 (reals)')
    try:
        ll = _link(q)
        exe = cbmcq.native_build(q)
        d = os.path.join(C.VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-0.in' % (pid, q.name))
        job = dict(ll=ll, native=exe, replay_in=os.path.join(C.scratch(), 'lr_%s.in' % q.name), out=os.path.join(C.scratch(), 'lo_%s.json' % q.name),
                   timeout=q.timeout, seed=C.SEED)
        job.update(q.opts or {})
        jf = os.path.join(C.scratch(), 'lj_%s.json' % q.name)
        json.dump(job, open(jf, 'w'))
        p = subprocess.Popen([PY, os.environ.get('LSX_MAIN') or os.path.join(C.VERIF, 'vlib', 'lsx.py'), jf], preexec_fn=_limits(q.timeout + 60),
                             stdout=subprocess.DEVNULL, stderr=None if os.environ.get('LSX_DEBUG') else subprocess.PIPE)
        cbmcq._live.add(p.pid)
        try:
            _, err = p.communicate(timeout=q.timeout + 60)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            r['verdict'] = 'timeout'
            return r
        finally:
            cbmcq._live.discard(p.pid)
        if not os.path.exists(job['out']):
            r['note'] = (err or b'').decode('utf8', 'replace')[-1500:]
            return r
        x = json.load(open(job['out']))
        r.update({k: x[k] for k in ('verdict', 'note', 'wall') if k in x})
        for k in ('steps', 'paths', 'vccs', 'runs', 'solver_s', 'functions'):
            if k in x:
                r[k] = x[k]
        r['vccs_nontrivial'] = x.get('vccs', 0) - x.get('trivial', 0)
        r['properties'] = x.get('vccs', 0)
        r['functions'] = [f for f in r.get('functions', []) if not f.startswith('vp_') and f != 'harness']
        r['witnesses'] = x.get('witnesses', [])
        if r['verdict'] == 'violated':
            v = x['violation']
            with open(path, 'w') as f:
                f.write('\n'.join(v['inputs']) + '\n')
            with open(path[:-3] + '.txt', 'w') as f:
                f.write('property %s query %s harness %s\nsolver: %s\nnative: %s\n%s\nreplay: input values in %s; run: python3 /verif/run.py --replay %s %s %s\n' % (
                    pid, q.name, q.file, v['what'], v['native'], v['detail'], path, pid, q.name, path))
            r['violation'] = dict(what='check:' + v['what'], prop=q.name, native=v['native'], replay=path[:-3] + '.txt', detail=v['detail'])
        elif r['verdict'] == 'holds':
            if not r['vccs']:
                r['verdict'] = 'vacuous'
            for w in r['witnesses']:
                if not w['reached']:
                    r['verdict'] = 'vacuous'
                    r['note'] += 'witness %s unreachable; ' % w['label']
                elif not w.get('native'):
                    r['note'] += 'witness %s not confirmed natively (%s); ' % (w['label'], w.get('why', ''))
        return r
    except C.BuildError as e:
        r['verdict'] = 'build-error'
        r['note'] = str(e)[-3000:]
        return r
    except subprocess.TimeoutExpired as e:
        r['verdict'] = 'timeout'
        r['note'] = str(e)
        return r


def run_all(queries, tier, pid, log, only=None, listed=()):
    qs = [q for q in queries if tier in q.tiers and (not only or q.name in only)]
    res = {}
    with cf.ThreadPoolExecutor(max_workers=C.JOBS) as ex:
        # the library's objects first, all at once
        todo = {}
        for q in qs:
            inc = cbmcq.BASE_INC + ['-I' + C.gen_include(q.channels)]
            for s in cbmcq._sources(q):
                todo.setdefault((s, tuple(q.src_defs), tuple(q.weak), q.channels, q.passes), (q, s, inc))
        jobs = [ex.submit(_ir, s, list(q.src_defs), inc + cbmcq.weak_include(q), q.passes) for q, s, inc in todo.values()]
        jobs += [ex.submit(cbmcq.native_object, q, s) for q, s, inc in todo.values()]
        cf.wait(jobs)  # failures are remembered and reported by the queries
        futs = {ex.submit(run_query, q, tier, pid): q for q in sorted(qs, key=lambda q: -q.weight)}
        for f in cf.as_completed(futs):
            q = futs[f]
            r = res[q.name] = f.result()
            log('%-24s %-10s paths=%s vccs=%s/%s queries=%s solver=%.1fs wall=%.1fs %s' % (
                q.name, r['verdict'], r.get('paths'), r['vccs_nontrivial'], r['vccs'], r['runs'], r['solver_s'], r.get('wall', 0), r['note'][:900]))
            if r['verdict'] == 'violated' and q.name not in listed:
                cbmcq.stop_rest(futs)
                break
    return [res[q.name] for q in qs if q.name in res]
