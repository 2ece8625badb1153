from vlib.cbmcq import Query as Q
QUERIES = [
    Q('%s%d' % (d.lower(), op), 'P06_bits.c', srcs=['bits.c'], defs=['NB=%d' % (5 if op < 2 else 9), 'OP=%d' % op, d], unwind=(34 if op < 2 else 66) if d == 'IN' else 12, max_unwind=80, bounds='bit buffers of 0..%d bits, every offset, position and 32-bit length' % (40 if op < 2 else 72), solver='z3|cvc5', weight=9+op, timeout=200)
    for d in ('IN', 'OUT') for op in (0, 1, 2, 3)
] + [
    Q('bytes', 'P06_bytes.c', srcs=[], stubs=['stub_mem.c'], unwind=14, bounds='byte buffers of 0..12 bytes, every offset, index and 32-bit length'),
]
