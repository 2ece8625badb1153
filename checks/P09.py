from vlib.cbmcq import Query as Q
QUERIES = [Q('number', 'P09_sig.c', srcs=['signal.c', 'glo_map.c'], unwind=8, bounds='any 32-bit code value, 16-bit satellite, 32-bit constellation', solver='z3|cvc5')]
