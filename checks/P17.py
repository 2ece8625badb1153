from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
S = ['gnss_time.c']
QUERIES = [
    Q('cycle', 'P17_week.c', srcs=S, defs=['PART=0'], unwind=2, bounds='every truncated week, every reference week below 64512', solver='sat|z3'),
    Q('match', 'P17_week.c', srcs=S, defs=['PART=1'], unwind=2, bounds='any two valid double times of week, any week number, bit-precise'),
]
