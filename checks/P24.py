from vlib.lsxq import LQuery as L
def l(name, part):
    return L(name, 'P24_gal.c', '*', defs=['PART=%d' % part], bounds='every content of the five 128-bit pages')
LSX = [l('params', 1), l('times', 2), l('accuracy', 3), l('health', 4)]
ASSUMPTIONS = ['doubles and floats are exact reals', 'params, accuracy and health: reference times within half a week of the transmission time (times: unrestricted)']
