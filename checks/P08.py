from vlib.cbmcq import Query as Q
S = ['sid_set.c', 'signal.c', 'glo_map.c', 'bits.c']
B = 'any set, any two valid signals x, y of codes (c, %s), c in %d..%d'
QUERIES = [
    Q('same%d' % lo, 'P08_sidset.c', srcs=S, defs=['K=0', 'LO=%d' % lo, 'HI=%d' % (lo + 8)], unwind=66, bounds=B % ('c', lo, lo + 7), solver='z3|cadical', weight=5) for lo in range(0, 64, 8)] + [
    Q('other%d' % k, 'P08_sidset.c', srcs=S, defs=['K=%d' % k, 'LO=0', 'HI=64'], unwind=66, bounds=B % (('c', 'c+1', '63-c')[k], 0, 63), solver='z3|cadical', weight=3,
      tiers=('quick', 'thorough') if k == 1 else ('thorough',)) for k in (1, 2)] + [
    Q('counts%d' % k, 'P08_sidset.c', srcs=S, defs=['COUNTS=%d' % k], unwind=66, bounds='any set', solver='z3|cadical', weight=5) for k in (1, 2)
]
