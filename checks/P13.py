from vlib.cbmcq import Query as Q
QUERIES = [
    Q('copy', 'P13_mem.c', srcs=['memcpy_s.c'], stubs=['stub_mem.c'], defs=['COPY', 'N=7'], unwind=9, bounds='two ranges anywhere in a 7-byte object, any 64-bit sizes'),
    Q('len', 'P13_mem.c', srcs=[], defs=['LEN', 'N=9'], unwind=11, bounds='strings in 9-byte objects, any 64-bit limit'),
    Q('path', 'P13_mem.c', srcs=['logging_common.c'], defs=['PATH', 'N=9'], unwind=11, bounds='paths of 0..8 characters'),
]
