from vlib.lsxq import LQuery as L
S = ['gnss_time.c']
def l(name, part, bounds, defs=(), **kw):
    return L(name, 'P18_cal.c', S, defs=['PART=%d' % part] + list(defs), bounds=bounds, **kw)
LSX = [l('leap', 0, 'every 16-bit year, every month'), l('mjdtime', 3, 'every time of day')]
for m in range(1, 13):
    LSX += [l('date2mjd_%02d' % m, 1, 'every date and time of day of years 1858..4000 (month %d)' % m, ['MONTH=%d' % m]),
            l('fields_%02d' % m, 6, 'every date and time of day of years 1859..4000 (month %d)' % m, ['MONTH=%d' % m])]
QUICK = {'mjd2date': (4,), 'make_utc': (3, 4), 'mjd2utc': (3,)}
for p, nm in ((2, 'mjd2date'), (4, 'make_utc'), (5, 'mjd2utc')):
    for c in range(3, 11):
        for y in range(4):
            LSX += [l('%s_%d_%d' % (nm, c, y), p, 'every day of century %d, years %d mod 4' % (1601 + 100 * c, y + 1), ['CENT=%d' % c, 'YEAR=%d' % y, 'QLO=0', 'QHI=24'],
                      tiers=('quick', 'thorough') if c in QUICK[nm] else ('thorough',))]
            if c in (5, 7) and c not in QUICK[nm]:
                LSX += [l('%s_%d_%de' % (nm, c, y), p, 'every day of the last four-year block of century %d' % (1601 + 100 * c), ['CENT=%d' % c, 'YEAR=%d' % y, 'QLO=23', 'QHI=24'], tiers=('quick',))]
ASSUMPTIONS = ['doubles are exact reals: results that depend on the rounding of a double at a field boundary are outside']
