from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
S = ['gnss_time.c']
def l(name, part, bounds, defs=(), **kw):
    return L(name, 'P16_time.c', S, defs=['PART=%d' % part] + list(defs), bounds=bounds, **kw)
QUERIES = [Q('weeksec', 'P16_time.c', srcs=S, defs=['PART=3'], unwind=6, bounds='any two doubles (NaN and infinities included) and week numbers, bit-precise')]
LSX = [
    l('normalise', 0, 'any real time of week in [-2, 3) weeks, any week number -30000..30000'),
    l('add', 1, 'any valid time in weeks 4..32000, any duration within two weeks'),
    l('diff', 2, 'any two valid times, week numbers known or not'),
    l('weeksec_r', 3, 'any two valid times', ['REALS']),
    l('range', 4, 'any three valid times', ['REALS']),
    l('duration', 5, 'seconds within two weeks, any weeks -30000..30000'),
] + [l('%s%d' % (n, f), 6, 'any valid time or unknown week, %d Hz' % f, ['FREQ=%d' % f] + d, tiers=('quick', 'thorough') if f in (1, 10) else ('thorough',))
     for f in (1, 2, 5, 10, 20, 50, 100) for n, d in (('round', []), ('floor', ['FLOOR']))]
ASSUMPTIONS = ['doubles are exact reals in the queries over reals: rounding error is outside those queries']
