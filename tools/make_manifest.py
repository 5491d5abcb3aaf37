"""Write MANIFEST.json from the checks that exist."""
import json, os, re
V = '/verif'
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({'property': i, 'quick_cmd': './run_check.py %s --tier quick' % i,
                       'thorough_cmd': './run_check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t.get('technique', 'property-based testing (Hypothesis)'),
                       'level': 'exploration',
                       'level_note': t.get('note', 'Generated-input search; never establishes absence.')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': 'test -x /opt/venv/bin/python && test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import the unmodified working tree of /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check loads wilson from /repo\'s working tree through a temporary tree of symbolic links '
              '(lib/overlay.py); nothing is written to /repo. Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
