"""Writes DESIGN.md: tools/design_head.md, the text per property, and what can be read off the checks."""
import ast
import json
import pathlib
import re
import sys

R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / 'tools'))
from design_text import T  # noqa: E402

props = [json.loads(x) for x in (R / 'properties.jsonl').read_text(encoding='utf8').splitlines()]
known = (R / 'known_findings.txt').read_text(encoding='utf8').splitlines()
out = [(R / 'tools' / 'design_head.md').read_text(encoding='utf8').rstrip(), '', '## Properties', '']
costs = json.loads((R / 'tools' / 'costs.json').read_text()) if (R / 'tools' / 'costs.json').exists() else {}


def bound(s):
    return 'all choices free' if s == 'None' else 'bound ' + s


for p in props:
    pid = p['id']
    src = (R / 'checks' / (pid.lower() + '.py')).read_text(encoding='utf8')
    tree = ast.parse(src)
    docs = {n.name: ' '.join((ast.get_docstring(n) or '').split()) for n in tree.body
            if isinstance(n, ast.FunctionDef)}
    assume = []
    harnesses = []
    for n in tree.body:
        if isinstance(n, ast.Assign):
            name = getattr(n.targets[0], 'id', '')
            if name == 'ASSUMPTIONS':
                assume = ast.literal_eval(n.value)
            if name == 'HARNESSES':
                for call in n.value.elts:
                    a = call.args
                    harnesses.append((a[0].value, getattr(a[1], 'id', ''), *[
                        ast.unparse(x) for x in a[2:4]]))
    out += ['### {} {}'.format(pid, p['title']), '', p['statement'], '']
    oracle, reach = T.get(pid, ('', ''))
    out += ['*Decision.* ' + oracle, '', '*Beyond tests.* ' + reach, '', '*Harnesses.*', '']
    for h in harnesses:
        name, fn, quick = h[:3]
        thorough = h[3] if len(h) > 3 and h[3] != 'None' else quick
        c = costs.get(pid, {}).get(name)
        out.append('* `{}` (quick: {}, thorough: {}{}){}'.format(
            name, bound(quick), bound(thorough),
            '; quick explores {:,} executions'.format(c[0]) + (
                ' with {:,} inner traces'.format(c[1]) if c[1] else '') if c else '',
            ': ' + docs[fn] if docs.get(fn) else ''))
    if pid in costs:
        out.append('* cost of quick: about {} s on 8 cores'.format(round(costs[pid]['wall'])))
    if assume:
        out += ['', '*Assumptions and limits.*', ''] + ['* ' + a for a in assume]
    fs = [re.sub(r'^finding: property=\S+ key=("(?:[^"\\]|\\.)*") ', '', x) for x in known
          if x.startswith('finding: property=' + pid + ' ')]
    if fs:
        out += ['', '*Known findings (not repaired).*', ''] + ['* ' + x for x in fs]
    fx = [re.sub(r'^fixed: property=\S+ ', '', x) for x in known
          if x.startswith('fixed: property=' + pid + ' ')]
    if fx:
        out += ['', '*Repaired defects.*', ''] + ['* ' + x for x in fx]
    out.append('')
tail = R / 'tools' / 'design_tail.md'
if tail.exists():
    out += [tail.read_text(encoding='utf8').rstrip(), '']
res = R / 'tools' / 'seeded_results.json'
if res.exists():
    out += ['## Planted bugs', '', 'Each lies in seeded/; `tools/seed.py` confirms it (builds, passes the tests, the '
            'demonstration tells it from the unchanged tree) and runs the check.', '',
            '| bug | property | needs | caught by |', '|---|---|---|---|']
    for sid, r in sorted(json.loads(res.read_text()).items()):
        m = R / 'seeded' / sid / 'meta.json'
        if m.exists():
            m = json.loads(m.read_text(encoding='utf8'))
            out.append('| {} | {} | {} | {} |'.format(
                sid, m['property'], ' '.join(m['needs'].split()).replace('|', '/'), r))
    out.append('')
(R / 'DESIGN.md').write_text('\n'.join(out), encoding='utf8')
print(len(out), 'blocks')
