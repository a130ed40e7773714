"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import importlib
from sim import boot
from sim import checks
NOTE = ('Seeded deterministic simulation of the real VTN/VEN code with injected faults; evidence, not proof: histories that no seed '
        'drew are not covered. Trusts the simulator (event loop, TCP, clock and TLS models), the oracle and the installed libraries.')
NA = {
    'C27': 'Argument validation of single synchronous calls: no schedule, clock, fault or interleaving is involved.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python setup_check.py',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': f'/opt/venv/bin/python check.py {p}',
                            'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python check.py {p}',
                            'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
                            'level_note': NOTE + ' ' + checks.NOTES.get(p, '')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'The check is still being built.')})
json.dump(m, open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
