from vlib.lsxq import LQuery as L
F = 'P30_clock.c'
LSX = [L('sbas', F, '*', defs=['PART=0', 'CODE=CODE_SBAS_L1CA'], bounds='every SBAS ephemeris, any two times of weeks 0..32767')]
for n, c, i, r in (('gps', 'CODE_GPS_L1CA', 0, '1'), ('qzs', 'CODE_QZS_L1CA', 0, '1'), ('gal', 'CODE_GAL_E1B', 1, '1'), ('bds', 'CODE_BDS2_B1', 0, '1')):
    for o in ('MEO', 'GEO') if n == 'bds' else ('MEO',):
        LSX.append(L('clock_%s_%s' % (n, o.lower()), F, '*', defs=['PART=1', 'CODE=' + c, 'TGDI=%d' % i, 'RATIO=' + r, 'ORBIT=' + o], bounds='every clock polynomial and group delay, circular orbit, times within three weeks'))
for c in ('CODE_GLO_L1OF', 'CODE_GLO_L2OF'):
    for d in (-1, 0, 1):
        LSX.append(L('clock_%s_%d' % (c[5:].lower(), d), F, '*', defs=['PART=2', 'CODE=' + c, 'DW=%d' % d], bounds='every clock term, within 25 s of the reference time'))
for k, n in enumerate(('GPS', 'QZS', 'GAL', 'BDS', 'GLO')):
    LSX.append(L('tgd_' + n.lower(), F, '*', defs=['PART=3', 'KIND=%d' % k, 'CONS=CONSTELLATION_' + n], bounds='every group delay of every signal'))
ASSUMPTIONS = ['doubles and floats are exact reals']
