"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PURE = ('A pure function of its inputs: no schedule, fault, clock or stored state '
        'enters, so simulating faults decides nothing about it.')
NOTE = ('Seeded exploration of the real code from /repo run in forked processes whose '
        'files, clock, mail, windows and random numbers go through a simulated '
        'environment; one seed gives one repeatable set of cases. Trusts the '
        'simulated environment and the small reference model in the check; what '
        'was not drawn is not covered. ')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'checks', p.lower() + '.py')):
        mod = importlib.import_module('sim.checks.' + p.lower())
        checks.append(dict(
            property=p, quick_cmd='python3 check.py %s' % p,
            thorough_cmd='python3 check.py %s' % p,
            evidence_file='evidence/%s.json' % p,
            technique='deterministic simulation with fault injection',
            level=mod.LEVEL, level_note=NOTE + getattr(mod, 'NOTE', '')))
    elif p >= 'C20':
        na.append(dict(property=p, reason=PURE))
    else:
        na.append(dict(property=p, reason='Its simulation is not built yet.'))
m = dict(version=1, setup_cmd='true',
         hooks=dict(guard='none', enable='No hooks in /repo: the checks replace the '
                    'environment (files, clock, mail, windows, random numbers) from '
                    'outside.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Genuine defects and the commits which fix them: known-findings.txt. '
               'Replay a violation: python3 check.py <id> --replay <file>.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
