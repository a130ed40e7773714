"""Prints the history of a replay or plan file: replay_dbg.py FILE PROP [t0:t1] [grep]"""
import sys, json
sys.path.insert(0, '/verif')
d = json.load(open(sys.argv[1]))
plan = d.get('plan', d)
from sim import families
families.make = lambda fam, seed: plan
sys.argv = ['dbg', plan['fam'], str(plan.get('seed', 0))] + sys.argv[2:]
exec(open('/verif/tools/dbg.py').read())
