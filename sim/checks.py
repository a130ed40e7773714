"""Which families and oracles decide which property."""
from . import o_app, o_events, o_misc, o_reports, o_sec, o_ven

# property -> (oracle functions, {family: weight})
CHECKS = {
    'C01': ([o_events.c01], {'T': 1, 'S': 1, 'E': 5, 'P': 5}),
    'C02': ([o_events.c02], {'T': 1, 'S': 1, 'E': 5, 'P': 5}),
    'C03': ([o_events.c03], {'T': 1, 'S': 1, 'E': 5, 'P': 5}),
    'C04': ([o_events.c04], {'T': 1, 'S': 1, 'E': 4, 'P': 6}),
    'C05': ([o_ven.c05, o_ven.c06], {'T': 1, 'X': 1, 'S': 1, 'V': 8, 'E': 2}),
    'C06': ([o_ven.c06], {'T': 1, 'X': 1, 'S': 1, 'V': 8, 'E': 2}),
    'C07': ([o_events.c07], {'T': 1, 'S': 1, 'E': 5, 'P': 5}),
    'C08': ([o_ven.c08], {'RV': 1, 'R': 1, 'X': 1, 'V': 6, 'E': 2, 'G': 2}),
    'C09': ([o_ven.c09], {'X': 1, 'T': 1, 'G': 5, 'GV': 3, 'V': 1}),
    'C10': ([o_ven.c10], {'X': 1, 'T': 1, 'G': 4, 'GV': 5, 'V': 2}),
    'C11': ([o_ven.c11], {'X': 1, 'G': 6, 'GV': 3, 'V': 1}),
    'C12': ([o_ven.c12], {'VS': 10}),
    'C13': ([o_reports.c13, o_reports.c14_15_16], {'X': 1, 'T': 1, 'R': 9, 'RV': 1}),
    'C14': ([o_reports.c14_15_16], {'X': 1, 'RV': 7, 'R': 3}),
    'C15': ([o_reports.c14_15_16, o_reports.c15_vtn], {'X': 1, 'T': 1, 'RV': 4, 'R': 6}),
    'C16': ([o_reports.c14_15_16], {'X': 1, 'RV': 9, 'R': 1}),
    'C17': ([o_sec.c17], {'S': 10}),
    'C18': ([o_sec.c18], {'S': 10}),
    'C19': ([o_sec.c19], {'SV': 10}),
    'C20': ([o_misc.c20], {'T': 1, 'X': 1, 'B': 16, 'E': 1, 'P': 1, 'R': 1, 'GV': 1}),
    'C21': ([o_misc.c21], {'X': 10}),
    'C24': ([o_misc.c24], {'Y': 8, 'RV': 2}),
    'C25': ([o_misc.c25], {'Z': 10}),
    'C22': ([o_misc.c22], {'W': 1, 'T': 10, 'X': 2, 'E': 1, 'V': 1, 'G': 1, 'GV': 1, 'R': 1, 'RV': 1, 'S': 1, 'B': 1}),
    'C26': ([o_misc.c26], {'T': 10, 'X': 1, 'E': 1, 'R': 1}),
    'C28': ([o_app.c28], {'W': 10}),
    'C29': ([o_app.c29, o_ven.c05, o_ven.c06], {'W': 10}),
    'C23': ([o_misc.c23], {'W': 1, 'B': 3, 'X': 2, 'T': 3, 'E': 2, 'V': 2, 'G': 2, 'GV': 2, 'R': 2, 'RV': 3, 'S': 1}),
}

DEFAULT_RUNS = 1200
RUNS = {}
RULE = ('Every run is one simulated deployment drawn from its seed: workload, application behaviour, latencies, clock skews, faults and '
        'their moments all come from the seed.')
NOTES = {}
