"""Collects from the evidence of the last quick runs what they cost (for DESIGN.md)."""
import json
import pathlib

R = pathlib.Path(__file__).resolve().parent.parent
res = {}
for p in sorted((R / 'evidence').glob('C*.json')):
    d = json.loads(p.read_text(encoding='utf8'))
    if d['tier'] != 'quick':
        continue
    hs = d['coverage']['harnesses']
    res[d['property']] = {k: [h['executions'], h['inner_traces']] for k, h in hs.items()}
    res[d['property']]['wall'] = sum(h['wall_s'] for h in hs.values())
old = R / 'tools' / 'costs.json'
if old.exists():
    res = dict(json.loads(old.read_text()), **res)
old.write_text(json.dumps(res, indent=1, sort_keys=True) + '\n')
