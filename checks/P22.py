from vlib.lsxq import LQuery as L
def l(name, part, q):
    return L(name, 'P22_gps.c', '*', defs=['PART=%d' % part, 'QZS=%d' % q], bounds='every content of the 24 words, reference weeks 1..30000, every time of week')
LSX = [l('head', 1, 0), l('params', 2, 0), l('fit', 3, 0), l('ura', 4, 0), l('qzs_head', 1, 1), l('qzs_params', 2, 1)]
ASSUMPTIONS = ['doubles and floats are exact reals']
