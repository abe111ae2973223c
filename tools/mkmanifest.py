"""Writes /verif/MANIFEST.json from the check modules."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = 'check not built yet'


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'harness', 'checks', p['id'].lower()+'.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': PENDING})
        continue
    c = consts(f)
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash run.sh {p['id']} quick",
        'thorough_cmd': f"bash run.sh {p['id']} thorough",
        'technique': c['TECHNIQUE'],
        'level': c['LEVEL'],
        'level_note': c['NOTE'],
    })
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks execute the code in /repo (or $VERIF_REPO) as it is; '
             'no hooks in the repository are needed. The kernels are compiled '
             'into a cache outside of the repository, keyed by the content of '
             'the sources. See DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
