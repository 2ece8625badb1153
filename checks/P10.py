from vlib.cbmcq import Query as Q
S = ['signal.c', 'glo_map.c']
# one query per code: the table element is then fixed and the satellite number is the only unknown
QUICK = (0, 12, 44, 46, 59, 63)
QUERIES = [
    Q('order', 'P10_sid.c', srcs=S, defs=['PART=0'], unwind=4, bounds='any two signals of codes -1..63 and 16-bit satellites', solver='z3|cadical', weight=9),
    Q('textbad', 'P10_sid.c', srcs=S, defs=['PART=1', 'BAD'], unwind=20, bounds='any invalid code, any 16-bit satellite', weight=8),
] + [Q('text%d' % c, 'P10_sid.c', srcs=S, defs=['PART=1', 'LO=%d' % c, 'HI=%d' % (c + 1)], unwind=20, bounds='code %d, any 16-bit satellite' % c,
       tiers=('quick', 'thorough') if c in QUICK else ('thorough',)) for c in range(64)] + [
    Q('codes', 'P10_sid.c', srcs=S, defs=['PART=2'], unwind=66, bounds='any string of up to 12 characters', weight=7),
    Q('names', 'P10_sid.c', srcs=S, defs=['PART=3'], unwind=20, bounds='any string of up to 12 characters'),
]
