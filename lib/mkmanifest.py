"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = json.load(open(os.path.join(V, 'lib', 'levels.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': f'./run {i} quick', 'thorough_cmd': f'./run {i} thorough',
                       'technique': n.get('technique', 'TLA+ specification checked with TLC; traces of the real code validated by TLC'),
                       'level': 'model_checking',
                       'level_note': n.get('note', 'Design explored exhaustively by TLC within small constants; the code is bound by trace validation of sampled executions, so it is decided on the executions explored.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
