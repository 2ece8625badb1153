"""Bounded model checking queries: harness + real sources -> goto-cc -> cbmc -> verdict -> native replay."""
import concurrent.futures as cf
import json
import os
import re
import resource
import subprocess
import threading
import time

from . import common as C

BASE_INC = ['-I' + os.path.join(C.REPO, 'include'), '-I' + os.path.join(C.REPO, 'src'), '-I' + C.HARNESS]
_locks = {}
_glock = threading.Lock()
_built = {}


def once(key, fn):
    with _glock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        if key not in _built:
            try:
                _built[key] = (True, fn())
            except Exception as e:  # remembered, so that every user of the object sees it
                _built[key] = (False, e)
    ok, v = _built[key]
    if not ok:
        raise v
    return v


class Query:
    """One solver query.

    name      unique within the property
    file      harness source in /verif/harness, with `void harness(void)`
    srcs      repo sources to link ('*' = all library sources but `drop`); anything else: names
    drop      sources replaced by stubs (basename)
    defs      extra -D for harness (and for sources too if in src_defs)
    unwind    loop bound tried first; doubled up to max_unwind when an unwinding assertion fails
    """

    def __init__(self, name, file, srcs='*', drop=(), stubs=(), defs=(), src_defs=(), unwind=12, max_unwind=None,
                 unwindset=(), flags=(), timeout=400, witness=True, solver=None, mem_checks=True, tiers=('quick', 'thorough'),
                 bounds='', channels=None, known=None, geoid=False, max_vals=None, native_only_stubs=(), weight=1, witness_unwind=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.max_unwind = max_unwind or unwind * 4


def _sources(q):
    out = []
    for s in C.repo_sources():
        b = os.path.basename(s)
        if b in q.drop or b == 'logging.c':
            if b == 'logging.c' and 'keep_logging' in q.flags_extra():
                out.append(s)
            continue
        if b == 'geoid_model.c' and not q.geoid:
            continue
        if q.srcs != '*' and b not in q.srcs and b != 'logging_common.c':
            continue
        out.append(s)
    return out


def _flags_extra(self):
    return [f for f in self.flags if not f.startswith('-')]


Query.flags_extra = _flags_extra


def _goto_obj(src, defs, inc):
    key = ('gb', src, tuple(defs), tuple(inc))

    def build():
        out = os.path.join(C.scratch(), 'o_%s_%s.gb' % (os.path.basename(src), C.digest(key)))
        C.must(['goto-cc', '-std=gnu99', '-DVP_CPROVER', '-D__builtin_isfinite(x)=((double)(x)-(double)(x)==0)', '-c', src, '-o', out] + inc + ['-D' + d for d in defs], timeout=300)
        return out
    return once(key, build)


def _compile(q, witness):
    inc = BASE_INC + ['-I' + C.gen_include(q.channels)]
    objs = [_goto_obj(s, list(q.src_defs), inc) for s in _sources(q)]
    stubs = list(q.stubs)
    if 'keep_logging' not in q.flags_extra():
        stubs.append('stub_logging.c')
    hd = list(q.defs) + (['VP_WITNESS'] if witness else [])
    objs += [_goto_obj(os.path.join(C.HARNESS, s), hd, inc) for s in stubs]
    objs.append(_goto_obj(os.path.join(C.HARNESS, q.file), hd, inc))
    out = os.path.join(C.scratch(), 'l_%s_%s.gb' % (q.name, 'w' if witness else 'c'))
    C.must(['goto-cc', '--function', 'harness', '-o', out] + objs, timeout=300)
    return out


_live = set()  # process groups of running solvers


_stop = threading.Event()


def stop_rest(futs):
    """A confirmed violation settles the check: the other queries are abandoned."""
    _stop.set()
    for f in futs:
        f.cancel()
    end = time.time() + 60
    while time.time() < end and any(not f.done() for f in futs):
        kill_all()
        time.sleep(0.2)


def kill_all(*_):
    for pid in list(_live):
        try:
            os.killpg(pid, 9)
        except OSError:
            pass


def _limits(timeout):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 30, int(timeout) + 30))
        os.setsid()
    return f


SOLVER_FLAGS = {'sat': [], 'cadical': ['--sat-solver', 'cadical'], 'z3': ['--z3'], 'cvc5': ['--cvc5'],
                'bw': ['--bitwuzla']}


def _run_cbmc(gb, q, unwind, trace, timeout, witness, solvers, first=False):
    flags = ['--no-standard-checks', '--no-malloc-may-fail', '--drop-unused-functions', '--json-ui', '--verbosity', '8']
    if q.mem_checks and not witness:
        flags += ['--bounds-check', '--pointer-check', '--div-by-zero-check']
    flags += ['--no-unwinding-assertions'] if witness else ['--unwinding-assertions']
    flags += ['--unwind', str(unwind), '--unwindset', ','.join(['vp_bytes.0:4100'] + list(q.unwindset))]
    flags += ['--trace'] if trace else []
    flags += ['--stop-on-fail'] if first else []
    flags += [f for f in q.flags if f.startswith('-')]
    t0 = time.time()
    procs = []
    for s in solvers:
        out = os.path.join(C.scratch(), 'cbmc_%s_%s_%d_%d.json' % (q.name, s, unwind, int(witness)))
        err = out + '.err'
        cmd = ['cbmc'] + flags + SOLVER_FLAGS[s] + [gb]
        env = dict(os.environ, TMPDIR=C.scratch())
        with open(out, 'wb') as fo, open(err, 'wb') as fe:
            procs.append((s, subprocess.Popen(cmd, stdout=fo, stderr=fe, preexec_fn=_limits(timeout), env=env), out, err))
            _live.add(procs[-1][1].pid)
    done = None
    alive = list(procs)
    last = None
    while alive and time.time() - t0 < timeout:
        for t in list(alive):
            if t[1].poll() is not None:
                alive.remove(t)
                r = _parse(t[2], t[3])
                r['solver'] = t[0]
                last = r
                if r['status'] in ('success', 'failure'):
                    done = r
                    break
        if done:
            break
        time.sleep(0.02 if time.time() - t0 < 5 else 0.2)
    for t in alive:
        try:
            os.killpg(t[1].pid, 9)
        except ProcessLookupError:
            pass
        t[1].wait()
    for t in procs:
        _live.discard(t[1].pid)
    r = done or (dict(status='timeout', msg='') if alive else last)
    r['wall'] = time.time() - t0
    for t in procs:
        for f in t[2:]:
            try:
                os.unlink(f)
            except OSError:
                pass
    return r


def _parse(out, err):
    o = open(out, 'rb').read().decode('utf8', 'replace')
    try:
        js = json.loads(o)
    except ValueError:
        return dict(status='error', msg=o[-1500:] + open(err, 'rb').read().decode('utf8', 'replace')[-1500:])
    res = dict(status='error', props=[], steps=0, vccs=0, vccs_rem=0, vars=0, clauses=0, solver_s=0.0, msg='')
    errs = []
    for it in js:
        if 'result' in it:
            res['props'] = it['result']
        if 'trace' in it and it.get('status') == 'failed':  # --stop-on-fail
            res['props'].append(dict(property=it['property'], description=it.get('description', ''), status='FAILURE', trace=it['trace']))
        if 'cProverStatus' in it:
            res['status'] = it['cProverStatus']
        if 'messageText' in it:
            m = it['messageText']
            if it.get('messageType') == 'ERROR':
                errs.append(m)
            g = re.search(r'size of program expression: (\d+) steps', m)
            if g:
                res['steps'] = int(g.group(1))
            g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
            if g:
                res['vccs'], res['vccs_rem'] = int(g.group(1)), int(g.group(2))
            g = re.search(r'(\d+) variables, (\d+) clauses', m)
            if g:
                res['vars'] = max(res['vars'], int(g.group(1)))
                res['clauses'] = max(res['clauses'], int(g.group(2)))
            g = re.search(r'Runtime decision procedure: ([0-9.e+-]+)s', m)
            if g:
                res['solver_s'] += float(g.group(1))
    res['msg'] = '\n'.join(errs)
    return res


def _inputs(trace):
    """Values of the harness's inputs, in order of execution."""
    vals = []
    for st in trace:
        if st.get('stepType') == 'input' and st.get('inputID') == 'in':
            v = st['values'][0]
            vals.append(int(v['binary'], 2))
    return vals


def weak_include(q):
    """Makes functions of the library replaceable by the harness's own (their definitions become weak)."""
    if not getattr(q, 'weak', ()):
        return []
    path = os.path.join(C.scratch(), 'weak_%s.h' % C.digest(tuple(q.weak)))

    def build():
        with open(path, 'w') as f:
            f.write(''.join('#pragma weak %s\n' % w for w in q.weak))
        return path
    return ['-include', once(('weak', path), build)]


def _native_cc(q, asan=True):
    inc = BASE_INC + ['-I' + C.gen_include(q.channels)]
    san = ['-fsanitize=address', '-fsanitize=bounds,integer-divide-by-zero', '-fno-sanitize-recover=all'] if asan else []
    return ['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-g', '-O1', '-fno-strict-aliasing', '-ffp-contract=off', '-UNDEBUG', '-w'] + san + inc


def native_object(q, src, asan=True):
    cc = _native_cc(q, asan)
    cmd = cc + weak_include(q) + ['-D' + d for d in q.src_defs] + ['-c', src]
    key = ('natobj', C.digest(tuple(cmd)))

    def build():
        o = os.path.join(C.scratch(), 'nat_%s.o' % key[1])
        C.must(cmd + ['-o', o], timeout=300)
        return o
    return once(key, build)


def native_build(q, asan=True):
    out = os.path.join(C.scratch(), 'n_%s%s' % (q.name, '_a' if asan else ''))
    files = _sources(q)
    stubs = list(q.stubs)
    if 'keep_logging' not in q.flags_extra():
        stubs.append('stub_logging.c')
    hs = [os.path.join(C.HARNESS, s) for s in stubs + [q.file, 'native_main.c']]

    def build():
        objs = [native_object(q, f, asan) for f in files]
        C.must(_native_cc(q, asan) + ['-D' + d for d in list(q.defs) + list(q.src_defs)] + objs + hs + ['-o', out, '-lm'], timeout=300)
        return out
    return once(('native', out), build)


def native_run(q, vals, path):
    with open(path, 'w') as f:
        f.write('\n'.join('%x' % v for v in vals) + '\n')
    exe = native_build(q)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='halt_on_error=1:exitcode=67')
    try:
        p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return dict(rc=-999, out='', err='timeout', kind='hang')
    o, e = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    if 'REPLAY-FAIL' in o:
        kind = 'assertion'
    elif 'REPLAY-ASSUME' in o:
        kind = 'assume'
    elif p.returncode == 0:
        kind = 'ok'
    elif 'AddressSanitizer' in e or p.returncode in (66, 67):
        kind = 'memory'
    else:
        kind = 'abort'
    return dict(rc=p.returncode, out=o, err=e, kind=kind)


def _functions(gb):
    rc, o, e = C.sh(['goto-instrument', '--reachable-call-graph', gb], timeout=120)
    fs = set()
    for ln in o.splitlines():
        m = re.match(r'^(\S+) -> (\S+)$', ln.strip())
        if m:
            fs.update(m.groups())
    return sorted(f for f in fs if not f.startswith('vp_') and not f.startswith('__CPROVER') and f not in ('harness', '__actual_thread_spawn'))


def _confirm(q, pid, p, i, r):
    """Replays the counterexample of failing assertion p natively; the result with a violation if it reproduces."""
    vals = _inputs(p.get('trace', []))
    d = os.path.join(C.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.in' % (pid, q.name, i))
    n = native_run(q, vals, path)
    if n['kind'] in ('assertion', 'memory', 'abort', 'hang'):
        with open(path[:-3] + '.txt', 'w') as f:
            f.write('property %s query %s harness %s\nsolver: %s (%s)\nnative: %s rc=%d\n%s\n%s\n'
                    'replay: input values in %s, one per harness input, in order; '
                    'run: python3 /verif/run.py --replay %s %s %s\n' % (
                        pid, q.name, q.file, p.get('description'), p['property'], n['kind'], n['rc'], n['out'][-2000:],
                        n['err'][:3000], path, pid, q.name, path))
        r['verdict'] = 'violated'
        r['violation'] = dict(what=p.get('description'), prop=p['property'], native=n['kind'], replay=path[:-3] + '.txt',
                              detail=(n['out'][-300:] + n['err'][:300]))
        return r
    r['note'] += 'unreproduced: %s [%s] native=%s %s; ' % (p.get('description'), p['property'], n['kind'], n['out'][-200:])
    return None


def run_query(q, tier, pid, log, listed=False):
    """Decides one query. Returns a dict for the evidence."""
    r = dict(name=q.name, harness=q.file, bounds=q.bounds, verdict='error', runs=0, solver_s=0.0, steps=0, vccs=0, vccs_nontrivial=0,
             clauses=0, variables=0, properties=0, witnesses=[], violation=None, note='')
    try:
        gb = _compile(q, False)
        r['functions'] = _functions(gb)
        unwind = q.unwind
        solvers = (q.solver or 'sat').split('|')
        first = not listed  # stop at the first failing assertion; all of them only where a finding is listed, or to look further
        while True:
            x = _run_cbmc(gb, q, unwind, True, q.timeout, False, solvers, first)
            r['runs'] += 1
            r['unwind'] = unwind
            r['wall'] = x['wall']
            r['solver'] = x.get('solver')
            if x['status'] in ('timeout', 'error'):
                r['verdict'] = x['status']
                r['note'] = x.get('msg', '')
                return r
            r['solver_s'] += x['solver_s']
            for a, b in (('steps', 'steps'), ('vccs', 'vccs'), ('vccs_nontrivial', 'vccs_rem'), ('clauses', 'clauses'), ('variables', 'vars')):
                r[a] = max(r[a], x[b])
            r['properties'] = max(len(x['props']), x['vccs'])
            fails = [p for p in x['props'] if p['status'] == 'FAILURE']
            unw = [p for p in fails if '.unwind.' in p['property'] or 'unwinding assertion' in p.get('description', '')]
            real = [p for p in fails if p not in unw]
            nobody = [p for p in real if 'no-body' in p['property']]
            if nobody:
                r['verdict'] = 'build-error'
                r['note'] = 'no body: ' + ', '.join(p['description'] for p in nobody)
                return r
            if first and (unw or real):
                if real:
                    v = _confirm(q, pid, real[0], 0, r)
                    if v:
                        return v
                first = False
                continue
            if real or not unw:
                break
            if unwind >= q.max_unwind:
                r['verdict'] = 'unwinding'
                r['note'] = 'loop bound %d not sufficient: %s' % (unwind, ', '.join(p['property'] for p in unw[:4]))
                return r
            unwind = min(unwind * 2, q.max_unwind)
        if x['status'] == 'success' or not real:
            r['verdict'] = 'holds'
        else:
            # candidates: replay each failing property's trace
            r['verdict'] = 'unreproduced'
            for i, p in enumerate(real[:12]):
                v = _confirm(q, pid, p, i, r)
                if v:
                    return v
            return r
        if q.witness:
            gw = _compile(q, True)
            w = _run_cbmc(gw, q, q.witness_unwind or unwind, True, q.timeout, True, ['sat'] + [s for s in solvers if s not in ('sat', 'cadical')][:1])
            r['runs'] += 1
            if w['status'] in ('timeout', 'error'):
                r['verdict'] = 'witness-' + w['status']
                r['note'] = w.get('msg', '')
                return r
            r['solver_s'] += w['solver_s']
            ws = [p for p in w['props'] if p.get('description', '').startswith('witness:')]
            if not ws:
                r['verdict'] = 'no-witness'
                return r
            for i, p in enumerate(ws):
                label = p['description'][8:]
                if p['status'] != 'FAILURE':
                    r['witnesses'].append(dict(label=label, reached=False))
                    r['verdict'] = 'vacuous'
                    r['note'] += 'witness %s unreachable; ' % label
                    continue
                vals = _inputs(p.get('trace', []))
                path = os.path.join(C.scratch(), 'w_%s_%d.in' % (q.name, i))
                n = native_run(q, vals, path)
                ok = n['kind'] == 'ok' and ('REPLAY-WITNESS ' + label) in n['out']
                r['witnesses'].append(dict(label=label, reached=True, native=ok, inputs=['%x' % v for v in vals[:24]], n_inputs=len(vals)))
                if not ok:
                    r['note'] += 'witness %s not confirmed natively (%s %s); ' % (label, n['kind'], (n['out'] + n['err'])[-300:])
        return r
    except C.BuildError as e:
        r['verdict'] = 'build-error'
        r['note'] = str(e)[-3000:]
        return r
    except subprocess.TimeoutExpired as e:
        r['verdict'] = 'timeout'
        r['note'] = str(e)
        return r


def run_all(queries, tier, pid, log, listed=()):
    qs = [q for q in queries if tier in q.tiers]
    # long ones first
    order = sorted(qs, key=lambda q: -q.weight)
    res = {}
    with cf.ThreadPoolExecutor(max_workers=C.JOBS) as ex:
        futs = {ex.submit(run_query, q, tier, pid, log, q.name in listed): q for q in order}
        for f in cf.as_completed(futs):
            q = futs[f]
            res[q.name] = f.result()
            log('%-24s %-10s %-6s unwind=%s wall=%.1fs vccs=%s clauses=%s %s' % (
                q.name, res[q.name]['verdict'], res[q.name].get('solver'), res[q.name].get('unwind'), res[q.name].get('wall', 0), res[q.name]['vccs_nontrivial'],
                res[q.name]['clauses'], res[q.name]['note'][:600]))
            if res[q.name]['verdict'] == 'violated' and q.name not in listed:
                stop_rest(futs)
                break
    return [res[q.name] for q in qs if q.name in res]
