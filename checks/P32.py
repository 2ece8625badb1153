from vlib.lsxq import LQuery as L
O = dict(linabs=True, uf_equal=False)
LSX = [L('geometry_%s_%d' % ('mid' if r == 0 else 'north' if r > 0 else 'south', e), 'P32_klob.c', '*', defs=['SLICE=1', 'REGION=%d' % r, 'EAST=%d' % e], opts=O,
         bounds='geometry: every latitude, longitude, azimuth, elevation 0..1.58, time of week, constant amplitude and period') for r in (0, 1, -1) for e in (1, 0)]
for k, (lat, el) in enumerate([('0.7', '0.5'), ('-1.5', '0')]):
    LSX += [L('%s%d_%d' % (n, k, e), 'P32_klob.c', '*', defs=['SLICE=%d' % sl, 'LAT=' + lat, 'ELEV=' + el, 'EAST=%d' % e], opts=O,
              bounds='amplitude and period: all eight coefficients, longitudes and times at fixed latitude and elevation') for e in (1, 0) for n, sl in (('amp', 2), ('per', 3))]
for k, (el, per) in enumerate([('0', '72000'), ('0.3', '90000'), ('1.5', '200000'), ('0.7', '1000')]):
    LSX.append(L('floor%d' % k, 'P32_klob.c', '*', defs=['EL=' + el, 'PER=' + per], bounds='delay range at elevation %s, period %s: every time of day, every constant amplitude' % (el, per)))
for k, (lat, el, lon, az) in enumerate([('1.45', '0.1', '0.5', '0.4'), ('-1.32', '0', '-2.5', '1.6'), ('1.33', '0.02', '3.0', '1.6'), ('-1.5', '0.3', '1.2', '3.6'), ('-0.3', '1.2', '1.0', '-2.0')]):
    LSX += [L('point%d_%d' % (k, e), 'P32_klob.c', '*', defs=['SLICE=4', 'LAT=' + lat, 'ELEV=' + el, 'LON=' + lon, 'AZ=' + az, 'EAST=%d' % e], opts=O,
              bounds='one direction: every constant amplitude, period and time of week') for e in ((0, 1) if k == 1 else (1,))]
ASSUMPTIONS = ['doubles are exact reals; sine and cosine are uninterpreted up to s^2+c^2=1']
