from vlib.lsxq import LQuery as L
S = '*'
KINDS = [('gps_l1ca', 'CODE_GPS_L1CA', 0), ('gps_l2c', 'CODE_GPS_L2CM', 0), ('glo_l1', 'CODE_GLO_L1OF', 1), ('qzs', 'CODE_QZS_L1CA', 2),
         ('bds', 'CODE_BDS2_B1', 3), ('bds3', 'CODE_BDS3_B1CI', 3), ('gal', 'CODE_GAL_E1B', 4), ('sbas', 'CODE_SBAS_L1CA', 5)]
LSX = []
for n, c, k in KINDS:
    LSX += [L('status_' + n, 'P27_valid.c', S, defs=['STATUS', 'CODE=' + c, 'KIND=%d' % k], bounds='every validity flag, week -1..4000, fit interval, health word, accuracy in [-2, 10000) m, source and issue number'),
            L('window_' + n, 'P27_valid.c', S, defs=['UNKNOWN=0', 'CODE=' + c, 'KIND=%d' % k], bounds='every pair of times and clock reference time in weeks 1..4000, every even fit interval up to two weeks'),
            L('nowk_' + n, 'P27_valid.c', S, defs=['UNKNOWN=1', 'CODE=' + c, 'KIND=%d' % k], bounds='the same with an unknown current week')]
LSX += [L('status_none', 'P27_valid.c', S, defs=['STATUS', 'CODE=%s' % 'CODE_INVALID', 'KIND=6'], bounds='the invalid signal'),
        L('status_beyond', 'P27_valid.c', S, defs=['STATUS', 'CODE=CODE_COUNT', 'KIND=6'], bounds='a signal code beyond the table')]
LSX.append(L('accuracy_gps', 'P27_valid.c', S, defs=['STATUS', 'URA', 'CODE=CODE_GPS_L1CA', 'KIND=0'], bounds='every accuracy'))
for h in range(0, 256, 16):
    LSX.append(L('almanac_%d' % h, 'P27_valid.c', S, defs=['ALMANAC', 'CODE=CODE_GPS_L1CA', 'KIND=0', 'HLO=%d' % h], bounds='every almanac header, weeks 0..8000, even fit interval up to 12 weeks'))
ASSUMPTIONS = ['doubles and floats are exact reals', 'the meaning of the 6-bit health word is decided by P14']
