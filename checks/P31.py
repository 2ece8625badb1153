from vlib.lsxq import LQuery as L
LSX = [L('almanac', 'P31_alm.c', '*', defs=['PART=1'], bounds='every content of the eight words'),
       L('health', 'P31_alm.c', '*', defs=['PART=2'], bounds='every content of the eight words')]
ASSUMPTIONS = ['doubles are exact reals']
