from vlib.lsxq import LQuery as L
S = ['linear_algebra.c']
O = dict(linabs=True, uf_equal=False)
def q(n, i, b, defs=(), opts=O, **k):
    return L(n, 'P34_solve.c', S, defs=['SLICE=%d' % i] + list(defs), bounds=b, timeout=200, opts=opts or {}, **k)
LSX = []
B = 'operand %dx%d, every entry%s'
def lsq(n, m, o, tiers=None, free=None):
    k = dict(tiers=tiers) if tiers else {}
    LSX.append(q('lsq_%d%d%d' % (n, m, o) + ('' if free is None else '_%d' % free), 0, B % (n, m, (', weighted' if o & 1 else '') + (', no solution asked' if o & 2 else '') + (', no covariance asked' if o & 4 else '')),
                 ['N_=%d' % n, 'M_=%d' % m, 'OPT=%d' % o] + ([] if free is None else ['FREE=%d' % free]), **k))
for n, m, o in ((1, 1, 0), (3, 1, 1), (2, 2, 1), (3, 2, 0), (4, 2, 1), (3, 2, 3), (3, 2, 5), (3, 2, 6), (3, 3, 1), (4, 3, 0), (5, 3, 1), (1, 2, 0), (2, 3, 1), (3, 4, 1), (4, 4, 0), (4, 4, 1), (5, 4, 0), (5, 4, 1), (6, 4, 1)):
    lsq(n, m, o)
lsq(5, 4, 1, free=2)
for n, m, o in ((6, 4, 0), (7, 4, 0), (7, 4, 1), (6, 3, 0), (8, 3, 1)):
    lsq(n, m, o, ('thorough',))
for n, m, f in ((2, 1, 0), (3, 2, 0), (4, 2, 0), (4, 3, 0), (5, 4, 0), (1, 2, 0), (2, 3, 0), (2, 4, 0), (3, 4, 0), (4, 5, 0), (2, 2, 0), (3, 3, 0), (3, 2, 1), (4, 3, 1), (5, 4, 1), (2, 2, 1), (2, 3, 1), (2, 3, 2), (3, 4, 2), (4, 5, 2), (3, 3, 2), (3, 2, 2),
                (3, 2, 3), (1, 2, 3), (2, 3, 4), (3, 2, 4)):
    LSX.append(q('inv_%d%d%d' % (n, m, f), 1, B % (n, m, ', ' + ('pseudoinverse', 'atwaiat', 'atawati', 'ataiat', 'ataati')[f]), ['N_=%d' % n, 'M_=%d' % m, 'FN=%d' % f]))
LSX += [q('qr2', 2, 'QR 2x2, every entry', ['Q_=2'], None), q('sing2', 7, 'QR 2x2, dependent columns', (), None)]
LSX += [q('qr3_%d' % c, 2, 'QR 3x3, two known columns', ['Q_=3', 'COL=%d' % c, 'FREECOL=2'], None) for c in range(6)]
LSX += [q('qr3r_%d%d' % (c, f), 2, 'QR 3x3, a free entry in the second column', ['Q_=3', 'COL=%d' % c, 'FREECOL=1', 'ROW=%d' % f], None) for c in (3, 4) for f in range(3)]
LSX += [q('tri%d' % n, 3, 'triangular and orthogonal solve, size %d, every entry' % n, ['Q_=%d' % n]) for n in (1, 2, 3, 4, 5)]
LSX += [q('solve2', 4, 'square solve 2x2, every entry', ['Q_=2'], None)]
LSX += [q('solve3_%d' % c, 4, 'square solve 3x3, two known columns, as the composition of its parts', ['Q_=3', 'COL=%d' % c, 'FREECOL=2'], None) for c in range(6)]
LSX += [q('udu%d_%d' % (n, z), 5, 'UDU %dx%d, every factor, zero diagonal set %d' % (n, n, z), ['Q_=%d' % n, 'ZERO=%d' % z]) for n in (1, 2, 3, 4) for z in (range(1 << n) if n < 4 else (0, 1, 4, 8, 10, 15))]
LSX += [q('any%d' % n, 6, 'UDU of any %dx%d operand, reconstruction of any factors' % (n, n), ['Q_=%d' % n]) for n in (1, 2, 3, 4)]
ASSUMPTIONS = ['doubles are exact reals: rounding is outside the claim', 'least squares up to 6x4 (7x4 and 8x3 thorough), rectangular inverses up to 5x4, QR 2x2 in full and 3x3 with at most three free entries, UDU up to 4x4']
