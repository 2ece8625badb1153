from vlib.cbmcq import Query as Q
S = ['set.c', 'signal.c', 'glo_map.c']
M = ['stub_mem.c']
QUERIES = [
    Q('isset', 'P07_set.c', srcs=S, stubs=M, defs=['N=5', 'ISSET'], unwind=8, bounds='arrays of 0..5 elements'),
    Q('sidset', 'P07_set.c', srcs=S, stubs=M, defs=['N=3', 'SIDSET'], unwind=8, solver='z3|cvc5|sat', weight=9, bounds='arrays of 3 signals of any code and satellite'),
    Q('insert', 'P07_set.c', srcs=S, stubs=M, defs=['N=3', 'EDIT=1'], unwind=8, max_unwind=64, weight=4, bounds='sets of 0..3 eight-byte elements, any element'),
    Q('remove', 'P07_set.c', srcs=S, stubs=M, defs=['N=3', 'EDIT=2'], unwind=8, max_unwind=64, weight=4, bounds='sets of 1..3 eight-byte elements, any element'),
    Q('map', 'P07_set.c', srcs=S, stubs=M, defs=['N=3', 'MAP'], unwind=8, max_unwind=64, weight=4, bounds='two sets of 0..3 elements of different sizes'),
    Q('intersect', 'P07_set.c', srcs=S, stubs=M, defs=['N=3', 'INTER'], unwind=13, max_unwind=64, weight=4, bounds='two sets of 0..3 elements of different sizes, any outputs'),
]
