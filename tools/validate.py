"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas (run with python3-vt)."""
import json, pathlib, jsonschema
R = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path('/root/.vp')
ps = json.loads((S / 'PROPERTIES.schema.json').read_text())
ids = []
for line in (R / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line); jsonschema.validate(p, ps); ids.append(p['id'])
    n = p['statement'].count('. ') + 1
    if n > 3: print('statement longer than three sentences?', p['id'], n)
m = json.loads((R / 'MANIFEST.json').read_text())
jsonschema.validate(m, json.loads((S / 'MANIFEST.schema.json').read_text()))
claimed = [c['property'] for c in m['checks']] + [c['property'] for c in m.get('not_applicable', [])]
print('unaccounted:', sorted(set(ids) - set(claimed)), 'unknown:', sorted(set(claimed) - set(ids)))
es = json.loads((S / 'EVIDENCE.schema.json').read_text())
for c in m['checks']:
    f = R / 'evidence' / (c['property'] + '.json')
    if f.exists(): jsonschema.validate(json.loads(f.read_text()), es)
    else: print('no evidence', f)
