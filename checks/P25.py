from vlib.lsxq import LQuery as L
def l(name, defs, bounds):
    return L(name, 'P25_glo.c', '*', defs=defs, weak=['error_detection_glo'], bounds=bounds)
LSX = []
for n in range(1, 6):
    LSX += [l('string%d' % n, ['STRING=%d' % n], 'every content of the string, magnitudes with sign bit 0'), l('string%d_neg' % n, ['STRING=%d' % n, 'NEG'], 'every content of the string, magnitudes with sign bit 1'),
            l('refused%d' % n, ['STRING=%d' % n, 'MISMATCH=1'], 'every content with another string number, or failing the check')]
LSX += [l('accuracy', ['STRING=4', 'FT'], 'every index')]
LSX += [L('frame', 'P25_glo.c', '*', defs=['FRAMES'], weak=['error_detection_glo', 'glo2gps'], bounds='every outcome of the five string checks, every health and reference-time field')]
ASSUMPTIONS = ['the outcome of the string check (P26) is arbitrary; doubles and floats are exact reals']
