"""Generates MANIFEST.json from the claim table (technique, level note) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = {}
na = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in claims:
        t, n = claims[i]
        c = 'python3 checks/run.py ' + i
        checks.append(dict(property=i, quick_cmd=c, thorough_cmd='VERIF_TIER=thorough ' + c, evidence_file='evidence/%s.json' % i,
                           technique=t, level='other', level_note=n))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=i, reason=na.get(i, 'check not built yet')) for i in ids if i not in claims],
         notes='All checks are static: they parse /repo (clang AST, tree-walking abstract interpretation, Python ast, template parsing) and never run it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(m['not_applicable']), 'not applicable')
