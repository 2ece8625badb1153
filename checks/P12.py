from vlib.cbmcq import Query as Q
S = ['signal.c', 'glo_map.c']
QUERIES = [
    Q('fcn', 'P12_glomap.c', srcs=S, unwind=30, bounds='one operation with any 16-bit arguments from any of the 15^28 map states, every slot', solver='z3|cvc5|sat'),
    Q('reverse', 'P12_glomap.c', srcs=S, defs=['LOOKUP'], unwind=30, bounds='one operation with any 16-bit arguments from any of the 15^28 map states, every channel', solver='z3|cvc5|sat'),
]
