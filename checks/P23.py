from vlib.lsxq import LQuery as L
def l(name, part):
    return L(name, 'P23_bds.c', '*', defs=['PART=%d' % part], bounds='every content of the 30 words')
LSX = [l('head', 1), l('params', 2)]
ASSUMPTIONS = ['doubles and floats are exact reals']
