#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
NA = {
 'C40': 'the pinned code has no CryptoNight hash and never compares a block with its difficulty (AddBlock carries a TODO), so there is no behaviour to generate inputs against',
 'C41': 'the pinned code records no key images or transactions across blocks (storage keeps none and the validator carries a TODO), so the guarantee is absent rather than testable',
}
LEVEL = 'Random search over generated cases against an independent oracle: a violation comes with a shrunk reproduction; silence covers only the cases counted in the evidence.'
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd=f'VERIF_TIER=quick python3 run.py {p}',
            thorough_cmd=f'VERIF_TIER=thorough python3 run.py {p}', evidence_file=f'evidence/{p}.json',
            technique=c['technique'], level='exploration',
            level_note=LEVEL + ' ' + c['note']))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check is registered yet')))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
         notes='No hooks: the harness joins /repo at build time through go test -overlay. run.py --replay <path> runs a reported violation again.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
