"""writes MANIFEST.json from vc/props.py and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif/vc')
import props
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []; na = []
for p in ids:
    i = props.INFO[p]
    if i.get('claim'):
        checks.append(dict(property=p, quick_cmd='python3-vt vc/check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt vc/check.py %s' % p,
            technique=i.get('technique', 'contract-based deductive verification: weakest-precondition style obligations over the LLVM IR of the real code, discharged by z3'),
            level='other' if i.get('bounded') else 'proof', level_note=i['note']))
    else: na.append(dict(property=p, reason=i.get('na', 'contracts not finished yet')))
json.dump(dict(version=1, setup_cmd='python3-vt vc/setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo. Checks compile /repo/include to LLVM IR and verify contracts on it; see DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
