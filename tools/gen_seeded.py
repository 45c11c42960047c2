"""python3 tools/gen_seeded.py LOG: merges the output of tools/seed.py into tools/seeded_results.json."""
import re
import sys
import json
import pathlib

R = pathlib.Path(__file__).resolve().parent.parent
p = R / 'tools' / 'seeded_results.json'
res = json.loads(p.read_text()) if p.exists() else {}
for line in open(sys.argv[1], encoding='utf8'):
    m = re.match(r'(\S+) (C\d\d) (caught (\S+)|MISSED)', line)
    if m and (R / 'seeded' / m.group(1)).exists():
        res[m.group(1)] = '{} ({})'.format(m.group(2), m.group(4)) if m.group(4) else 'missed'
p.write_text(json.dumps(res, indent=1, sort_keys=True) + '\n')
