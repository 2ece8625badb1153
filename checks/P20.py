from vlib.lsxq import LQuery as L
S = ['gnss_time.c']
def l(name, part, bounds, defs=(), **kw):
    return L(name, 'P20_glo.c', S, defs=['PART=%d' % part] + list(defs), bounds=bounds, **kw)
QUICK = {(1, 1, 0), (1, 2, 0), (4, 0, 0), (6, 0, 0), (6, 1, 0), (8, 2, 0), (8, 3, 0), (26, 3, 0), (6, 0, 1), (8, 1, 1), (20, 0, 1)}
LSX = [l('range', 2, 'every field value')]
for n4 in range(1, 27):
    for i, (a, b) in enumerate(((1, 366), (367, 731), (732, 1096), (1097, 1461))):
        for pr in (0, 1):
            LSX += [l('glo_%d_%d%s' % (n4, i, 'p' * pr), 1, 'every GLONASS time of 1996-2099', ['N4=%d' % n4, 'NTLO=%d' % a, 'NTHI=%d' % b] + ['PARAMS'] * pr,
                      tiers=('quick', 'thorough') if (n4, i, pr) in QUICK else ('thorough',))]
for y in (2000, 2016, 2023):
    k = y - 1601
    LSX += [l('doy_%d' % y, 3, 'every instant of 2000, 2016, 2023', ['CENT=%d' % (k // 100), 'YEAR=%d' % (k % 4), 'QLO=%d' % (k % 100 // 4), 'QHI=%d' % (k % 100 // 4)])]
ASSUMPTIONS = ['doubles are exact reals', 'GLONASS four-year periods up to 2099', 'UTC parameters, when given, have a zero polynomial']
