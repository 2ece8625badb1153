from vlib.cbmcq import Query as Q
S = ['signal.c', 'glo_map.c']
QUERIES = [
    Q('cdma', 'P11_freq.c', srcs=S, unwind=66, bounds='every code, any satellite'),
    Q('l1of', 'P11_freq.c', srcs=S, defs=['GLO=CODE_GLO_L1OF'], unwind=30, bounds='any slot, any channel, any later assignment to another slot'),
    Q('l2of', 'P11_freq.c', srcs=S, defs=['GLO=CODE_GLO_L2OF'], unwind=30, bounds='any slot, any channel, any later assignment to another slot'),
]
