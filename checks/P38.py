from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
G = 'GEOID_MODEL_15_MINUTE_RESOLUTION'
A = dict(srcs=['geoid_model.c'], geoid=True, stubs=['stub_modff.c'], unwind=20)
QUERIES = [
    Q('bounds', 'P38_geoid.c', defs=['SLICE=0'], src_defs=[G], bounds='memory safety: every pair of doubles on the one-degree grid', flags=['--slice-formula'], **A),
    Q('bounds45', 'P38_geoid.c', defs=['SLICE=0', 'CELL=45'], src_defs=[G, 'CELL=45'], bounds='memory safety and refusal: every pair of doubles on a grid of 45-degree cells', **A),
]
def cells(name, x, y, tiers=('quick', 'thorough')):
    return L('cells_' + name, 'P38_geoid.c', ['geoid_model.c'], geoid=True, src_defs=[G], timeout=250, defs=['SLICE=1', 'XLO=%d' % x[0], 'XHI=%d' % x[1], 'YLO=%d' % y[0], 'YHI=%d' % y[1]], tiers=tiers,
             opts=dict(max_paths=100000), bounds='interpolation: every point of the cells of columns 0 and 359 and of rows 1, 178 and 179 next to the seam (thorough: more columns, whole rows), one-degree grid of any content')
Tt = ('thorough',)
LSX = [cells('row%d' % y, (0, 359), (y, y), Tt) for y in (0, 1, 2, 90, 177, 178, 179)] + [cells('col%d' % x, (x, x), (0, 179), Tt) for x in (1, 100, 200, 358)]
LSX += [L('quarters_%d' % y, 'P38_geoid.c', ['geoid_model.c'], geoid=True, src_defs=[G], timeout=100, defs=['SLICE=1', 'QUARTERS', 'XLO=358', 'XHI=359', 'YLO=%d' % y, 'YHI=%d' % y], weight=2,
          opts=dict(max_paths=100000), bounds='quarter points of the cells of column 358 and 359: any content') for y in (0, 1, 2, 90, 177, 178, 179)]
LSX += [cells('row%d_%d' % (y, a), (a, a + 3), (y, y)) for y in (1, 178, 179) for a in (0, 356)]
LSX += [cells('col%d_%d' % (x, a), (x, x), (a, a + 44)) for x in (0, 359) for a in (0, 45, 90, 135)]
def pole(name, x, tiers=('quick', 'thorough')):
    return L(name, 'P38_geoid.c', ['geoid_model.c'], geoid=True, src_defs=[G], timeout=250, defs=['SLICE=2', 'XLO=%d' % x[0], 'XHI=%d' % x[1]], tiers=tiers, opts=dict(max_paths=100000),
             bounds='longitudes at the pole, every parallel on the first meridian')
LSX += [pole('pole_e', (0, 3)), pole('pole_w', (356, 359)), pole('pole', (4, 355), Tt)]
ASSUMPTIONS = ['doubles are exact reals in the interpolation queries']
NOTE = None
