from vlib.lsxq import LQuery as L
S = ['gnss_time.c']
def l(name, part, bounds, defs=(), **kw):
    return L(name, 'P19_utc.c', S, defs=['PART=%d' % part] + list(defs), bounds=bounds, **kw)
def yr(y):
    k = y - 1601
    return ['CENT=%d' % (k // 100), 'YEAR=%d' % (k % 4), 'QLO=%d' % (k % 100 // 4), 'QHI=%d' % (k % 100 // 4)]
LSX = [l('offset', 2, 'every instant of weeks 0..32767'), l('params', 3, 'every decoded parameter set, every instant of weeks 0..8000')]
EV = 'announced on any day of years %s, instants within a day of it'
for y in (2019, 2024, 2026):
    T = ('quick', 'thorough') if y == 2024 else ('thorough',)
    LSX += [l('event_%d' % y, 4, EV % '2019, 2024, 2026', ['INS=1'] + yr(y), tiers=T), l('noevent_%d' % y, 4, EV % '2019, 2024, 2026', ['INS=0'] + yr(y), tiers=T),
            l('event_posi_%d' % y, 4, EV % '2019, 2024, 2026', ['INS=1', 'POLY=7e-9', 'DOYLO=364', 'DOYHI=364'] + yr(y), tiers=T),
            l('event_nega_%d' % y, 4, EV % '2019, 2024, 2026', ['INS=1', 'POLY=-7e-9', 'DOYLO=364', 'DOYHI=364'] + yr(y), tiers=T)]
for y in range(1980, 2101):
    LSX += [l('utc_%d' % y, 1, 'every instant of years 1980..2100', yr(y), tiers=('quick', 'thorough') if y in (1980, 2000, 2016, 2100) else ('thorough',))]
for y in (1981, 1982, 1983, 1985, 1992, 1993, 1994, 1997, 2012, 2015):
    LSX += [l('june_%d' % y, 1, 'every instant within 4 days of a leap second', yr(y) + ['DOYLO=176', 'DOYHI=184'], tiers=('quick',))]
for y in (1987, 1989, 1990, 1995, 1998, 2005, 2008, 2016):
    LSX += [l('dec_%d' % y, 1, 'every instant within 4 days of a leap second', yr(y) + ['DOYLO=360', 'DOYHI=365'], tiers=('quick',)),
            l('jan_%d' % (y + 1), 1, 'every instant within 4 days of a leap second', yr(y + 1) + ['DOYLO=0', 'DOYHI=4'], tiers=('quick',))]
ASSUMPTIONS = ['doubles are exact reals: results that depend on the rounding of a double at a field boundary are outside']
