from vlib.cbmcq import Query as Q
QUERIES = [Q('words', 'P14_shm.c', srcs=['shm.c', 'signal.c', 'glo_map.c'], unwind=4, bounds='every health word, mask and code')]
