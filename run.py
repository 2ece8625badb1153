#!/usr/bin/env python3
"""python3 run.py <PROPERTY> [--only QUERY,...]   decide one property (tier from VERIF_TIER or --thorough)
python3 run.py --replay <PROPERTY> <QUERY> <FILE>  re-run a recorded counterexample natively"""
import importlib
import json
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + os.environ.get('PATH', '')
from vlib import common as C  # noqa: E402
from vlib import cbmcq  # noqa: E402


def load(pid):
    return importlib.import_module('checks.' + pid)


def known(pid):
    """finding lines of known-findings.txt for this property: {query: text}"""
    out = {}
    p = os.path.join(C.VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: property=%s ' % pid):
                f = dict(x.split('=', 1) for x in ln.split(' :: ')[0].split()[1:] if '=' in x)
                out[f['query']] = (f, ln.split(' :: ', 1)[1].strip())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        m = load(a[1])
        q = [x for x in getattr(m, 'QUERIES', []) + getattr(m, 'LSX', []) if x.name == a[2]][0]
        vals = [int(x, 16) for x in open(a[3]).read().split()]
        n = cbmcq.native_run(q, vals, os.path.join(C.scratch(), 'r.in'))
        print(n['kind'], n['rc'])
        print(n['out'], n['err'])
        return 0 if n['kind'] == 'ok' else 1
    pid = a[0]
    tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = None
    for x in a:
        if x.startswith('--only='):
            only = x[7:].split(',')
    t0 = time.time()
    m = load(pid)

    def log(s):
        print('[%s %6.1fs] %s' % (pid, time.time() - t0, s), flush=True)
    results = []
    qs = [q for q in getattr(m, 'QUERIES', []) if not only or q.name in only]
    if qs:
        results += cbmcq.run_all(qs, tier, pid, log, known(pid))
    if hasattr(m, 'LSX') and not cbmcq._stop.is_set():
        from vlib import lsxq
        results += lsxq.run_all(m.LSX, tier, pid, log, only, known(pid))
    kf = known(pid)
    viol, bad = [], []
    for r in results:
        if r['verdict'] == 'violated':
            if r['name'] in kf and kf[r['name']][0].get('check', '').replace('_', ' ') in (r['violation'].get('what') or ''):
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[r['name']][1]))
                r['known'] = True
            else:
                viol.append(r)
        elif r['verdict'] != 'holds':
            bad.append(r)
        elif r['name'] in kf:
            log('listed finding of query %s did not reproduce' % r['name'])
    wits = [w for r in results for w in r.get('witnesses', [])]
    fn = sorted({f for r in results for f in r.get('functions', [])})
    repo_fn = [f for f in fn]
    cov = dict(
        states=sum(r['steps'] for r in results),
        transitions=sum(r['vccs'] for r in results),
        traces_validated_against_impl=sum(1 for w in wits if w.get('native')),
        samples=[dict(query=r['name'], witness=w['label'], inputs=w.get('inputs')) for r in results for w in r.get('witnesses', [])
                 if w.get('native')][:8],
        explanation='states: symbolic program steps (SSA) of the unrolled real code; transitions: verification conditions generated over them; '
                    'traces_validated_against_impl: solver-chosen witness inputs re-executed natively on the real code and reaching the same point.',
        functions_encoded=repo_fn,
        queries=[{k: r.get(k) for k in ('name', 'harness', 'bounds', 'unwind', 'verdict', 'solver', 'properties', 'steps', 'vccs', 'vccs_nontrivial',
                                        'variables', 'clauses', 'solver_s', 'wall', 'paths', 'witnesses', 'note')} for r in results],
        queries_discharged=sum(1 for r in results if r['verdict'] == 'holds'),
        solver_queries=sum(r['runs'] for r in results),
        solver_s=round(sum(r['solver_s'] for r in results), 3),
    )
    ev = dict(property=pid, tier=tier, seed=C.SEED, level=getattr(m, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(m, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(C.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(C.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        for r in viol:
            log('%s: %s (native: %s) %s' % (r['name'], r['violation']['what'], r['violation']['native'], r['violation'].get('detail', '')[:500]))
            print('VIOLATION property=%s replay=%s' % (pid, r['violation']['replay']), flush=True)
        return 1
    if bad:
        for r in bad:
            log('NO VERDICT %s: %s %s' % (r['name'], r['verdict'], r['note'][:1500]))
        return 2
    log('held: %d queries, solver %.1fs' % (len(results), cov['solver_s']))
    return 0


def _term(*_):
    cbmcq.kill_all()
    os._exit(2)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, _term)
    signal.signal(signal.SIGINT, _term)
    sys.exit(main())
