from vlib.cbmcq import Query as Q
QUERIES = [Q('size%d' % n, 'P04_fifo.c', srcs=['fifo_byte.c'], stubs=['stub_mem.c'], defs=['SIZE=%d' % n, 'NB=%d' % max(8, n)], unwind=max(8, n) + 2, weight=n,
             bounds='storage of %d bytes, every position pair, fill, request and content' % n,
             tiers=('quick', 'thorough') if n in (1, 2, 4, 8) else ('thorough',), solver='sat') for n in (1, 2, 4, 8, 16, 32)]
