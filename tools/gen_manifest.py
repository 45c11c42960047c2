"""Writes /verif/MANIFEST.json from the check modules (reads them as text: no imports)."""
import ast
import json
import pathlib

R = pathlib.Path(__file__).resolve().parent.parent
NOT_READY = set()
TECH = {
    'model_checking': 'stateless model checking of the real code: exhaustive, deviation-bounded '
                      'enumeration of all choice sequences of a closed harness, against a reference '
                      'model run in lock-step',
    'fault_enumeration': 'exhaustive enumeration of all fault points (crash before each executed '
                         'line, failing of each file system operation, interrupted at each '
                         'event) of all operation histories within the bounds, run on the real code',
}
props = [json.loads(x) for x in (R / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    f = R / 'checks' / (p['id'].lower() + '.py')
    if not f.exists() or p['id'] in NOT_READY:
        na.append(dict(property=p['id'], reason='no check has been built for it (yet)'))
        continue
    mod = {}
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('ASSUMPTIONS', 'LEVEL', 'NOTE'):
            mod[n.targets[0].id] = ast.literal_eval(n.value)
    level = mod.get('LEVEL', 'model_checking')
    checks.append(dict(
        property=p['id'],
        quick_cmd='bash check.sh ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough bash check.sh ' + p['id'],
        technique=TECH[level],
        level=level,
        level_note='Decided on the real code, for every execution within the bounds reported in '
                   'the evidence; nothing is claimed beyond them. ' + mod.get('NOTE', '')
                   + 'Assumes: ' + '; '.join(mod.get('ASSUMPTIONS', ['nothing else'])) + '.'))
(R / 'MANIFEST.json').write_text(json.dumps(dict(
    version=1,
    setup_cmd='bash setup.sh',
    checks=checks,
    not_applicable=na,
    notes='No hooks in /repo: the harnesses drive the public API and control the environment from '
          'outside (files, requests, audit hooks, forked children). See DESIGN.md.',
), indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
