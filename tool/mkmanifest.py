import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
checks = []
for p, d in PROPS.items():
    if d.get('na'): continue
    proof = bool(d['contracts'])
    checks.append(dict(property=p, quick_cmd='python3-vt tool/run.py %s quick' % p, thorough_cmd='python3-vt tool/run.py %s thorough' % p,
                       technique='contracts on the extracted real code, obligations discharged by z3' + ('; bounded stand-in for the rest' if d.get('outside') else ''),
                       level=d.get('level', 'proof'),
                       level_note=d.get('note', '') or (('Partly proved; outside the verifier\'s reach and decided by the bounded stand-in only: %s. ' % '; '.join(d['outside']) if d.get('outside') else '') + 'Deductive contracts: %s. Bounded stand-in (not counted as proved): %s.' % (', '.join(d['contracts']) or 'none', d['bounded']))))
m = dict(version=1, setup_cmd='bash tool/setup.sh', checks=checks, not_applicable=[dict(property=p, reason=d['na']) for p, d in PROPS.items() if d.get('na')],
         notes='No hooks: the checks extract /repo\'s sources with clang on every run and build them unmodified for the bounded stand-in.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
