from vlib.cbmcq import Query as Q
R = 'z3|cvc5|sat'
B = ['bits.c']
QUERIES = [
    Q('get32', 'P01_get.c', srcs=B, defs=['W=32', 'NB=8'], unwind=33, solver='z3|cvc5', weight=5,
      bounds='width 1..32, any position in an 8-byte buffer ending with the field'),
    Q('get64', 'P01_get.c', srcs=B, defs=['W=64', 'NB=12'], unwind=65, solver='z3|cvc5', weight=20,
      bounds='width 1..64, any position in a 12-byte buffer ending with the field'),
    Q('set32', 'P01_set.c', srcs=B, defs=['W=32', 'NB=8'], unwind=9, max_unwind=80, solver='z3|cvc5', weight=5,
      bounds='width 1..32, any position in an 8-byte buffer ending with the field'),
    Q('set64', 'P01_set.c', srcs=B, defs=['W=64', 'NB=11'], unwind=12, max_unwind=80, solver='z3|cvc5', weight=10,
      bounds='width 1..64, any position in an 11-byte buffer ending with the field'),
    Q('big21', 'P01_big.c', srcs=B, defs=['LEN=21'], unwind=66, bounds='position 65533 in an 8208-byte buffer'),
    Q('big53', 'P01_big.c', srcs=B, defs=['LEN=53'], unwind=66, bounds='position 65533 in an 8208-byte buffer'),
    Q('shl', 'P01_copy.c', srcs=B, defs=['NB=10', 'SHIFT'], unwind=14, max_unwind=80, solver=R, weight=8,
      bounds='buffers of 1..10 bytes, any 32-bit shift'),
    Q('copy70s', 'P01_copy.c', srcs=B, defs=['NB=11', 'N=70', 'SI=9'], unwind=34, max_unwind=140, solver='z3|cvc5', weight=12,
      bounds='70 bits from offset 9 to any offset between 11-byte buffers'),
] + [
    Q('copy%d' % n, 'P01_copy.c', srcs=B, defs=['NB=%d' % nb, 'N=%d' % n], unwind=34, max_unwind=140, solver='z3|cvc5', weight=9 if n > 60 else 3,
      bounds='%d bits between %d-byte buffers, any offsets' % (n, nb), tiers=t)
    for n, nb, t in [(k, (k + 14) // 8 + 1, ('quick', 'thorough')) for k in range(1, 34)] +
    [(39, 7, ('thorough',)), (64, 10, ('thorough',)), (70, 11, ('thorough',)), (97, 15, ('thorough',))]
]
