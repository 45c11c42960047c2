import json
import os
import pathlib
import subprocess
import sys

import csvw
from mc.explore import Harness

ASSUMPTIONS = [
    'names of files consist of ASCII characters (others cannot be opened with some encodings of the file system)',
    'what the commands print is captured: it is not restricted by the encoding of the terminal',
    'results are compared as values and text; the order of the messages of a validation does not matter',
]
ROOT = pathlib.Path(__file__).resolve().parent.parent
VARIABLES = ['LC_ALL', 'LANG', 'LANGUAGE', 'LC_TIME', 'LC_NUMERIC']
LOCALES = [None, 'C', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'ar_EG.UTF-8', 'xx_YY', 'th_TH@calendar=buddhist', 'none', '']
SEEDS = ['0', '1', '2', '3', '4', '5']
ZONES = ['UTC', 'XYZ+3:30', 'ABC-14', 'EST5EDT', 'Asia/Kathmandu', 'Europe/London']
NOW = [None, '2020-02-29T23:59:59.999999', '2021-01-01T00:00:00', '1999-12-31T12:00:00.5', '9999-12-31T23:59:59.999999',
       '2025-03-30T02:30:00']
TEXT = ['utf8', 'ascii', 'latin1', 'dev']
DECIMAL = [None, {'prec': 3}, {'rounding': 'ROUND_DOWN'}, {'rounding': 'ROUND_UP', 'prec': 60}, {'capitals': 0}]
WARN = [None, 'ignore', 'once', 'always']
CWD = [None, 'data', '/', 'other', 'gone']
GC = [None, 'off', 'often']
_reference = {}


def run(d, env, options, flags=()):
    p = subprocess.run(
        [sys.executable, '-B', *flags, '-m', 'checks.environment', str(d), json.dumps(options)],
        env=env, cwd=str(ROOT), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        return json.loads(p.stdout)
    except ValueError:
        return [['process', ['exc', 'process', (p.stdout + p.stderr).decode('utf8', 'replace')[-2000:]]]]


def environment(seed='0'):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('LC_', 'LANG', 'PYTHON')) and k not in ('TZ', 'TMPDIR')}
    env.update(PYTHONPATH=os.pathsep.join([str(ROOT), str(pathlib.Path(csvw.__file__).resolve().parent.parent)]), PYTHONHASHSEED=seed, PYTHONUTF8='1', TZ='UTC')
    return env


def processes(c):
    """The same operations in processes with different environments."""
    env = environment(c.choose('hash seed', SEEDS))
    loc = c.choose('locale', LOCALES)
    if loc is not None:
        env[c.choose('variable', VARIABLES)] = loc
    env['TZ'] = c.choose('time zone', ZONES)
    text = c.choose('text', TEXT)
    flags = []
    if text == 'ascii':
        env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LC_ALL='C')
    elif text == 'latin1':
        env.update(PYTHONIOENCODING='latin1')
    elif text == 'dev':
        flags = ['-X', 'dev']
    w = c.choose('warnings', WARN)
    if w:
        env['PYTHONWARNINGS'] = w
    options = {'now': c.choose('now', NOW), 'decimal': c.choose('decimal', DECIMAL), 'gc': c.choose('gc', GC)}
    cwd = c.choose('directory', CWD)
    base = c.dir
    d = base / 'd'
    d.mkdir()
    if cwd:
        (base / 'other').mkdir()
        (base / 'gone').mkdir()
        options['cwd'] = {'data': str(d), '/': '/'}.get(cwd) or str(base / cwd)
    if c.choose('temporary directory', [False, True]):
        (base / 'temporary files').mkdir()
        env['TMPDIR'] = str(base / 'temporary files')
    sample = json.loads(json.dumps([{k: v for k, v in env.items() if k.startswith(('LC_', 'LANG', 'PYTHON', 'TZ', 'TMP')) and k != 'PYTHONPATH'}, options]).replace(
        str(base), ''))
    c.describe(sample)
    if 'ref' not in _reference:
        r = base / 'reference'
        r.mkdir()
        _reference['ref'] = run(r, environment(), {})
        ok = [name for name, out in _reference['ref'] if out[0] == 'ok']
        c.check(len(ok) > 60, 'reference', lambda: repr([x for x in _reference['ref'] if x[1][0] != 'ok'])[:3000])
    ref = _reference['ref']
    res = run(d, env, options, flags)
    for (name, expected), (name_, out) in zip(ref, res):
        c.check(name == name_ and expected == out, json.dumps([name_, sample]),
                lambda: '{}: {} instead of {}'.format(name_, *differing(out, expected)))
        c.state(json.dumps(sample), name)
        c.trace()
        c.outcome(name, json.dumps(out)[:300])
    c.check(len(ref) == len(res), 'number of operations', lambda: repr(res[-1])[:2000])
    left = [p.name for p in base.rglob('*') if p.parent != d and not str(p).startswith((str(d), str(base / 'reference')))
            and p.name not in ('d', 'other', 'gone', 'reference', 'temporary files')]
    c.check(not left, 'files left behind', lambda: repr(left))


def differing(a, b):
    """The first difference."""
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                a, b = x, y
                break
        else:
            break
    return json.dumps(a)[:500], json.dumps(b)[:500]


HARNESSES = [
    Harness('processes', processes, 2, 2),
]
