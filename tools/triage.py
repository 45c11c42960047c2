"""
Enumerate a harness like the check does, but go on after violations and list them (for
development): triage.py C14 single [bound] [max]
"""
import os
import sys
import importlib
import tempfile
import collections

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.environ.get('CSVW_REPO', '/repo'), 'src'))
sys.dont_write_bytecode = True
from mc import explore  # noqa: E402


def main(pid, name, bound=None, limit=5):
    mod = importlib.import_module('checks.' + pid.lower())
    h = next(h for h in mod.HARNESSES if h.name == name)
    bound = None if bound in (None, 'None') else int(bound)
    limit = int(limit)
    with tempfile.TemporaryDirectory() as scratch:
        stack, n, bad = [[]], 0, collections.OrderedDict()
        while stack:
            prefix = stack.pop()
            n += 1
            c, viol = explore.run_one(h, prefix, scratch, {}, 'quick')
            if viol:
                last = viol[1].strip().splitlines()[-1] if viol[0].startswith('exc:') else viol[1]
                bad.setdefault(viol[0] if not viol[0].startswith('exc:') else viol[0] + last + str(c.sample)[:300], last)
                if len(bad) >= limit:
                    break
            used = sum(1 for k, (m, free) in zip(c.choices[:len(prefix)], c.points) if k and not free)
            for i in range(len(prefix), len(c.points)):
                m, free = c.points[i]
                if not free and bound is not None and used >= bound:
                    continue
                for k in range(1, m):
                    stack.append(c.choices[:i] + [k])
    for k, v in bad.items():
        print(k[:250], '\n      ', str(v)[-900:])
    print(n, 'executions', len(bad), 'violations')


main(*sys.argv[1:])
