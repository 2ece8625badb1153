from vlib.lsxq import LQuery as L
S = ['gnss_time.c', 'ionosphere.c', 'almanac.c']
def l(name, part, bounds, defs=(), **kw):
    return L(name, 'P21_pages.c', '*', defs=['PART=%d' % part] + list(defs), bounds=bounds, **kw)
LSX = [l('gps_iono', 1, 'every word content'), l('bds_iono', 2, 'every word content'), l('utc', 3, 'every word content with zero drift, reference weeks 1..8000'), l('utc_drift1', 3, 'every word content at fixed weeks', ['REF=2217', 'WNT=200', 'WNLSF=137']), l('utc_drift2', 3, 'every word content at fixed weeks', ['REF=1900', 'WNT=0', 'WNLSF=138']), l('week', 4, 'every word content, reference weeks 0..30000')]
ASSUMPTIONS = ['doubles are exact reals']
