from vlib.cbmcq import Query as Q
S = '*'
QUERIES = [
    Q('extract', 'P26_ham.c', srcs=S, defs=['EXTRACT'], unwind=3, bounds='every string, every field of 1..32 bits inside it', solver='sat|z3|cvc5'),
] + [Q(n, 'P26_ham.c', srcs=S, defs=['ERRORS=%d' % e], unwind=80, bounds='every code word' + b, solver='sat|z3|cvc5|cadical')
     for n, e, b in (('accept', 0, ''), ('single', 1, ', every flipped data bit'), ('double', 2, ', every pair of flipped bits'))]
