from vlib.cbmcq import Query as Q
B = ['edc.c']
R = 'z3|cvc5|sat'
QT = ('quick', 'thorough')
QUERIES = [
    Q('step', 'P03_crc.c', srcs=B, defs=['STEP'], unwind=9, bounds='every 24-bit state, every byte'),
    Q('long260', 'P03_crc.c', srcs=B, defs=['LONG=260'], unwind=262, solver=R, bounds='260-byte messages with three free bytes'),
    Q('long66000', 'P03_crc.c', srcs=B, defs=['LONG=66000'], unwind=66002, solver=R, bounds='66000-byte messages with three free bytes', tiers=('thorough',)),
] + [
    Q('fold%d_%d' % (n, k), 'P03_crc.c', srcs=B, defs=['FOLD', 'NB=%d' % n, 'SPLITB=%d' % k], unwind=n + 2, solver=R,
      bounds='messages of %d bytes split at %d, every content and initial value' % (n, k), tiers=QT if k in (0, 1, n // 2, n) and n != 17 else ('thorough',))
    for n in (0, 1, 3, 6, 17) for k in range(n + 1)
] + [
    Q('bits%d' % b, 'P03_crc.c', srcs=B, defs=['BITS=%d' % b, 'NB=%d' % (b // 8 + 1)], unwind=b + 3, solver=R,
      bounds='%d-bit messages, %s' % (b, 'every content and initial value' if b <= 64 else 'free last byte, initial value 0'), tiers=QT if b in (0, 1, 7, 8, 12, 19, 24, 34, 276) else ('thorough',))
    for b in list(range(0, 41)) + [250, 276, 288]]
