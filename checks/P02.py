from vlib.cbmcq import Query as Q
B = ['bits.c']
QUERIES = [
    Q('count64', 'P02_bits.c', srcs=B, defs=['COUNT=64'], unwind=66, bounds='every operand', solver='z3|cvc5|cadical'),
    Q('count32', 'P02_bits.c', srcs=B, defs=['COUNT=32'], unwind=66, bounds='every operand', solver='z3|cvc5|cadical'),
    Q('sign', 'P02_bits.c', srcs=B, defs=['SIGNX'], unwind=66, bounds='every operand, every width 1..32 and 1..64'),
    Q('order', 'P02_bits.c', srcs=B, defs=['ORDER'], unwind=66, bounds='every operand, every pair of bytes'),
]
