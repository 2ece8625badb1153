from vlib.cbmcq import Query as Q
QUERIES = [
    Q('hist4', 'P15_status.c', srcs=['subsystem_status_report.c'], defs=['STEPS=4'], unwind=6, bounds='every history of 4 registrations, deregistrations and resets of 3 nodes'),
    Q('hist6', 'P15_status.c', srcs=['subsystem_status_report.c'], defs=['STEPS=6'], unwind=8, bounds='every history of 6 registrations, deregistrations and resets of 3 nodes', tiers=('thorough',)),
]
