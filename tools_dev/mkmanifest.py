"""Writes MANIFEST.json from the check modules."""
import importlib, json, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
NA = {
    'C31': 'There is nothing to run: Idris is not installed here, and a type-checked proof is not an execution that a monitor could watch.',
}
checks, na = [], []
for p in props:
    f = V / 'checks' / f"{p['id']}.py"
    if not f.exists():
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'No check built yet.')})
        continue
    m = importlib.import_module('checks.' + p['id'])
    assert m.PROPERTY == p['id']
    checks.append({
        'property': p['id'], 'quick_cmd': f"./check {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough ./check {p['id']}",
        'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.NOTE,
    })
(V / 'MANIFEST.json').write_text(json.dumps({
    'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks are needed in the repository: Python objects are watched through proxies and the native sources are compiled, in a scratch copy, against a small stand-in for pyo3.',
}, indent=1) + '\n')
print(len(checks), 'checks', [x['property'] for x in na])
