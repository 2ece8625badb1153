from vlib.cbmcq import Query as Q
from vlib.lsxq import LQuery as L
QUERIES = [
    Q('path', 'P41_log.c', srcs=['logging.c', 'logging_common.c'], defs=['SLICE=1', 'LEVEL=6'], src_defs=['LIBSWIFTNAV_ENABLE_STDERR_LOGGING'], flags=['keep_logging'], unwind=12, bounds='every path of up to 6 characters'),
    Q('path12', 'P41_log.c', srcs=['logging.c', 'logging_common.c'], defs=['SLICE=1', 'LEVEL=6', 'N=12'], src_defs=['LIBSWIFTNAV_ENABLE_STDERR_LOGGING'], flags=['keep_logging'], unwind=18, tiers=('thorough',), bounds='every path of up to 12 characters'),
]
LSX = [L('routing_%d' % t, 'P41_log.c', ['logging.c', 'logging_common.c'], defs=['SLICE=0', 'LEVEL=%d' % t], src_defs=['LIBSWIFTNAV_ENABLE_STDERR_LOGGING'], flags=['keep_logging'],
         bounds='every history of three installations of three handler pairs or none, every level, thresholds debug, info, critical') for t in (6, 7, 2)]
