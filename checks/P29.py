from vlib.cbmcq import Query as Q
S = '*'
QUERIES = [Q(n, 'P29_ura.c', srcs=S, defs=['PART=%d' % k], unwind=17, bounds=b, solver=s) for k, (n, b, s) in enumerate((
    ('index', 'every 8-bit index', 'sat|z3'), ('encode', 'every 32-bit float, NaN and infinities included', 'sat|z3'),
    ('sisa', 'every 8-bit index', 'sat|z3'), ('fit', 'every 8-bit flag and 16-bit issue of data', 'sat|z3')))]
