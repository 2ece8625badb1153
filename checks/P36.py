from vlib.lsxq import LQuery as L
S = ['single_epoch_solver.c', 'nav_meas.c', 'sid_set.c', 'set.c', 'signal.c', 'gnss_time.c', 'linear_algebra.c', 'coord_system.c', 'logging_common.c', 'memcpy_s.c', 'glo_map.c', 'bits.c']
K = ['matrix_wlsq_solve']
W = K + ['wgsecef2llh', 'wgsecef2ned', 'ecef2ned_matrix']
FAILS = ('none', 'position', 'geometry', 'unsettled', 'velocity', 'doppler')
LSX = [L('gates%s_%s' % ('_novel' if nv else '', FAILS[f]), 'P36_pvt.c', S, defs=['SLICE=0', 'FAIL=%d' % f, 'NOVEL=%d' % nv], weak=W, timeout=200, bounds='6 signals of 5 satellites, two constellations; any kernel result; failing kernel: ' + FAILS[f])
       for nv in (0, 1) for f in range(6) if not (nv and f > 3)]
STR = ('gps', 'all', 'l1ca', 'l1')
for st in range(4):
    for masked, raim, frees in ((0, 0, '{0}'), (1, 0, '{0,2,3,5,6}' if st != 2 else '{0,1,4,5,6,10}'), (1, 0, '{1,4,7,8,9}' if st != 2 else '{1,2,7,8,9,11}'), (1, 1, '{0,1,2,3,9}' if st != 2 else '{1,2,3,4,6,10}')):
        LSX.append(L('select_%s_%d%d_%s' % (STR[st], masked, raim, frees.strip('{}').replace(',', '')), 'P36_pvt.c', S, weak=K, timeout=200,
                     defs=['SLICE=1', 'STRAT=%d' % st, 'MASKED=%d' % masked, 'NORAIM=%d' % (not raim), 'FREES=%s' % frees], bounds='10 or 12 signals, three constellations, free signal strengths of signals ' + frees))
for g, l, nr, fr in ((4, 0, 0, '{1,3}'), (5, 0, 0, '{1,4}'), (6, 0, 0, '{0,5}'), (7, 0, 0, '{1,3,6}'), (6, 2, 0, '{2,6,7}'), (5, 3, 0, '{5,6}'), (6, 0, 1, '{0,5}')):
    LSX.append(L('raim_%d%d%d' % (g, l, nr), 'P36_pvt.c', S, weak=K, timeout=300, opts=dict(square_roots=True), defs=['SLICE=2', 'NGPS=%d' % g, 'NGAL=%d' % l, 'NORAIM=%d' % nr, 'FREES=%s' % fr],
                 bounds='%d GPS and %d Galileo signals, range residuals of signals %s anywhere in +-100 m, the kernel settling at one place' % (g, l, fr)))
ASSUMPTIONS = ['doubles are exact reals; the least squares kernel (and, for the gates, the geodetic conversions) are stand-ins with arbitrary results', 'repair decisions: the kernel settles at one place whatever is excluded, velocity is off, residual sums within 0.01 of a threshold or of each other are outside the claim']
