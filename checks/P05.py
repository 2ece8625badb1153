from vlib.cbmcq import Query as Q
QUERIES = [Q('%s%d' % (w.lower(), n), 'P05_spsc.c', srcs=[], defs=['SIZE=%d' % n, w], unwind=2 * n + 3, weight=n, solver="z3|cvc5|sat",
             bounds='storage of %d bytes, any state, any interference at every access' % n, witness=True,
             tiers=('quick', 'thorough') if n == 2 else ('thorough',)) for n in (2, 4, 8) for w in ('CONSUMER', 'PRODUCER')]
ASSUMPTIONS = ['sequentially consistent memory; the compiler and processor keep the order of the accesses as written',
               'one producer thread calls only fifo_write/length/space, one consumer thread only fifo_read/peek/remove/length/space']
