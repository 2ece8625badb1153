from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
QUERIES = [
    Q('flags', 'P37_meas.c', srcs='*', defs=['SLICE=0'], unwind=2, bounds='every flag word'),
    Q('codec', 'P37_meas.c', srcs='*', defs=['SLICE=1'], unwind=18, bounds='every non-negative double, every code byte'),
    Q('monotone', 'P37_meas.c', srcs='*', defs=['SLICE=2'], unwind=18, bounds='every pair of non-negative doubles'),
    Q('order', 'P37_meas.c', srcs='*', defs=['SLICE=3'], unwind=200, bounds='every pair of measurement records'),
]
LSX = [
    L('corrections', 'P37_meas.c', '*', defs=['SLICE=4', 'GLO=0', 'LO=0', 'HI=(CODE_COUNT-1)'], bounds='every code, every measurement and clock value'),
    L('corrections_glo', 'P37_meas.c', '*', defs=['SLICE=4', 'GLO=1', 'LO=3', 'HI=4'], bounds='GLONASS L1/L2, every channel'),
]
ASSUMPTIONS = ['corrections: doubles are exact reals']
