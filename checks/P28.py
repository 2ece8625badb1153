from vlib.lsxq import LQuery as L
LSX = []
def t(name, typ, defs, exact=False):
    for m, mode in (('same', 0), ('differ', 1), ('symmetric', 2)):
        LSX.append(L(name + '_' + m, 'P28_eq.c', '*', defs=['TYPE=%d' % typ, 'MODE=%d' % mode] + ['EXACT'] * exact + defs, timeout=300,
                     bounds='every pair of records, fields up to 1e9, differences below 0.5e-12 (same) or above 2e-12 (differ)'))
for n, c, c2, tgd in (('gps', 'CODE_GPS_L1CA', 'CODE_GPS_L2CM', 1), ('qzs', 'CODE_QZS_L1CA', 'CODE_GPS_L1CA', 2), ('gal', 'CODE_GAL_E1B', 'CODE_GAL_E1C', 3), ('bds', 'CODE_BDS2_B1', 'CODE_BDS2_B2', 4)):
    t(n, 0, ['CODE=' + c, 'CODE2=' + c2, 'TGD=%d' % tgd])
t('sbas', 1, ['CODE=CODE_SBAS_L1CA', 'CODE2=CODE_GPS_L1CA'])
t('glo', 2, ['CODE=CODE_GLO_L1OF', 'CODE2=CODE_GLO_L2OF'])
t('alm_gps', 3, ['KIND=0', 'CODE=CODE_GPS_L1CA', 'CODE2=CODE_SBAS_L1CA'])
t('alm_sbas', 3, ['KIND=1', 'CODE=CODE_SBAS_L1CA', 'CODE2=CODE_GPS_L1CA'], True)
t('alm_glo', 3, ['KIND=2', 'CODE=CODE_GLO_L1OF', 'CODE2=CODE_GPS_L1CA'])
t('meas', 4, ['CODE=CODE_GPS_L1CA', 'CODE2=CODE_GLO_L1OF'])
t('std', 5, ['CODE=CODE_GPS_L1CA', 'CODE2=CODE_GLO_L1OF'])
t('bias', 6, ['CODE=CODE_GLO_L1OF', 'CODE2=CODE_GPS_L1CA'])
ASSUMPTIONS = ['doubles and floats are exact reals']
