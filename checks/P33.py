from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
S = ['linear_algebra.c']
O = dict(linabs=True, uf_equal=False)
def q(n, i, b, defs=(), opts=None, **k):
    return L(n, 'P33_mat.c', S, defs=['SLICE=%d' % i] + list(defs), bounds=b, timeout=150, opts=opts or {}, **k)
LSX = [
    q('multiply', 0, 'products: every shape up to 3x3x3, every entry'),
    q('elementwise', 1, 'elementwise operations: every shape up to 4x4, every entry'),
    q('vector', 3, 'vectors up to 5 entries'),
    q('inverse1', 5, 'inverse 1x1', ['N_=1'], O),
    q('inverse2', 5, 'inverse 2x2: every entry', ['N_=2'], O),
    q('inverse3', 5, 'inverse 3x3: every entry', ['N_=3'], O),
    q('inverse4', 5, 'inverse 4x4: every entry', ['N_=4'], O),
    q('inverse5', 5, 'inverse 5x5: one free entry', ['N_=5', 'DIAG=0']),
    q('inverse5p', 5, 'inverse 5x5: one free entry', ['N_=5', 'DIAG=2']),
    q('inverse5n', 5, 'inverse 5x5: negative pivots, zero diagonal, one free entry', ['N_=5', 'DIAG=1', 'PERM=1']),
    q('inverse6', 5, 'inverse 6x6: negative pivots, zero diagonal, one free entry', ['N_=6', 'DIAG=4', 'PERM=1']),
    q('singular1', 6, 'singular 1x1', ['N_=1'], O),
    q('singular2', 6, 'singular 2x2', ['N_=2'], O),
    q('singular3', 6, 'singular 3x3', ['N_=3'], O),
    q('singular4', 6, 'singular 4x4', ['N_=4'], O),
    q('singular5', 6, 'singular 5x5: one free entry', ['N_=5']),
]
LSX += [q('submatrix%d%d' % t, 2, 'submatrices of 4x3, every selection', ['N_=%d' % t[0], 'M_=%d' % t[1]], tiers=('quick', 'thorough') if t[0] * t[1] < 6 else ('thorough',)) for t in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (3, 3))]
QUERIES = [Q('integer_%d%d%d' % t, 'P33_mat.c', srcs=S, defs=['SLICE=4'] + ['%s_=%d' % x for x in zip('NMP', t)], unwind=13, timeout=200, witness=False, bounds='integer products: shapes 2x2x2, 2x3x1, 1x3x2, 3x1x3, entries of 14 and 30 bits') for t in ((2, 2, 2), (2, 3, 1), (1, 3, 2), (3, 1, 3))]
ASSUMPTIONS = ['doubles are exact reals: rounding is outside the claim']
