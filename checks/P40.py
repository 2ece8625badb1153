from vlib.lsxq import LQuery as L
LSX = [L('bias', 'P40_bias.c', ['glonass_phase_biases.c'], bounds='every mask, every bias within a kilometre, every code')]
ASSUMPTIONS = ['doubles are exact reals']
