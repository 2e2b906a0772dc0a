import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from claims import CLAIMS, THEOREMS
checks = []
for p in sorted(CLAIMS):
    k = CLAIMS[p]
    d = dict(property=p, quick_cmd=f'python3 tools/check.py {p} --tier quick',
             thorough_cmd=f'python3 tools/check.py {p} --tier thorough',
             evidence_file=f'evidence/{p}.json', technique=k['technique'], level=k['level'], level_note=k['note'] or 'see DESIGN.md')
    if k['level'] == 'proof':
        d['theorems'] = THEOREMS[p]
    checks.append(d)
props = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(HERE), 'properties.jsonl'))]
from claims import NOT_APPLICABLE
na = [dict(property=p, reason=NOT_APPLICABLE[p]) for p in props if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh',
               hooks=dict(guard='none: nothing in /repo is guarded', enable='the checks use the crate as it is', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. Five fix: commits in /repo, listed in known-findings.txt.'),
          open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w'), indent=1)
