from vlib.lsxq import LQuery as L
O = dict(linabs=True, uf_equal=False)
S = ['coord_system.c', 'linear_algebra.c']
def q(n, i, b, **k):
    return L(n, 'P35_coord.c', S, defs=['SLICE=%d' % i] + (['REF'] if i in (2, 3, 4) else []), weak=['wgsecef2llh'] if i in (2, 3, 4) else [], bounds=b, timeout=100, **k)
LSX = [
    q('axes', 0, 'every latitude and longitude'),
    q('orthonormal', 1, 'every latitude and longitude'),
    q('rotate', 2, 'every vector, every geodetic position of the reference'),
    q('roundtrip', 3, 'every vector, every geodetic position of the reference'),
    q('azel', 4, 'every target seen from every point with geodetic latitude and longitude zero'),
    q('llh2ecef', 5, 'every geodetic position', opts=O),
    q('ellipsoid', 8, 'the constants'),
    q('equator', 6, 'every point of the equatorial plane beyond 6000 km'),
    q('pole', 7, 'every point of the axis beyond 1000 km'),
]
ASSUMPTIONO = dict(linabs=True, uf_equal=False)
S = ['doubles are exact reals; sine, cosine, arc functions are uninterpreted up to their ranges, signs and s^2+c^2=1']
