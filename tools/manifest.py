"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from nsa import checks
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='sh setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                                  evidence_file='evidence/%s.json' % i, technique=c.technique, level='other', level_note=c.level_note))
    else:
        out['not_applicable'].append(dict(property=i, reason=checks.NOT.get(i, 'no check built for it yet')))
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks', [x['property'] for x in out['not_applicable']])
