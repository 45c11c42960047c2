import io
import csv
import warnings
import itertools

from mc.explore import Harness
from checks import sizes
from .common import ref_cell, norm

from csvw import TableGroup
from csvw.metadata import Column, Schema

ASSUMPTIONS = [
    'datatypes other than the five used here are decided by C08 to C12',
    'settings of the column itself; inheritance is decided by C07']

UNSET = object()

SETTINGS = [
    ('default', [UNSET, 'd', 'NA', 'x;1', '5', '']),
    ('null', [UNSET, 'NA', ['NA', '-'], [], ['', 'NA'], ['5'], 'x', [' ']]),
    ('separator', [UNSET, ';', ' ', '; ', ',', '|', '\\', '.']),
    ('required', [UNSET, True, False]),
    ('datatype', [UNSET, 'string', 'integer', {'base': 'string', 'format': 'a.*'}, 'boolean',
                  {'base': 'string', 'minLength': 2}, {'base': 'integer', 'minimum': 0},
                  {'base': 'string', 'maxLength': 3}]),
]

ATOMS = ['', 'NA', '-', 'a', 'd', '1', '5', 'x', ' ', 'true', '-1', 'ab', 'NAN', 'na', '0', 'abcd']
CELLS = ATOMS + [
    'a;b', ';', 'a;', ';a', ';;', 'NA;a', 'NA;NA', '1;2', '1;x', '1;;5', 'x;1', ' a', 'a ', '1 2',
    '1,5', '; ', '1; 2', 'NA ', '-;1', '1|5', 'a|', '5|x', ';;;', ' ; ', 'a;NA;b;NA', '\n', 'a\nb',
    '1;-1', 'a\\b', '1.5', 'NA;', 'd;', '0;0', 'true;0', '""', "'"]


def effective(spec):
    eff = {k: v for k, v in spec.items()}
    null = eff.get('null', [''])
    eff['null'] = [null] if isinstance(null, str) else null
    return eff


def expected(cell, spec):
    try:
        return norm(ref_cell(cell, **effective(spec)))
    except ValueError:
        return 'ValueError'


def column(c, free):
    spec = {}
    for name, opts in SETTINGS:
        v = (c.every if free else c.choose)(name, opts)
        if v is not UNSET:
            spec[name] = v
    return spec


def direct(c):
    """Column.read on every cell of the alphabet, for all combinations of settings."""
    spec = column(c, True)
    c.state(sorted(spec.items(), key=str))
    c.describe(spec)
    col = Schema.fromvalue({'columns': [dict(name='c', **spec)]}).columns[0]
    cells = CELLS
    if c.tier == 'thorough':
        cells = CELLS + [x + s + y for x in ATOMS for y in ATOMS for s in ';| ,']
    for cell in cells:
        exp = expected(cell, spec)
        for strict in (True, False):
            if not strict and exp == 'ValueError':
                continue
            try:
                got = norm(col.read(cell, strict=strict))
            except ValueError:
                got = 'ValueError'
            if got != exp:
                c.fail('read:{}:{!r}'.format(spec, cell), 'got {}, expected {}'.format(got, exp))
        c.trace()
    c.outcome([expected(cell, spec) for cell in cells])


def table(c):
    """The same through reading a file, with several columns, in both reading modes."""
    spec = column(c, False)
    other = dict(c.choose('other column', [
        (), (('separator', ';'), ('datatype', 'integer')), (('null', 'd'),), (('default', 'zz'),),
        (('required', True),)]))
    pos = c.choose('position', [0, 1])
    cols = [dict(name='c', **spec), dict(name='o', **other)]
    if pos:
        cols = cols[::-1]
    mode = c.choose('strict', [True, False])
    tg = TableGroup.fromvalue({
        '@context': 'http://www.w3.org/ns/csvw',
        'tables': [{'url': 't.csv', 'tableSchema': {'columns': cols}}]})
    tg._fname = c.dir / 'md.json'
    rows, log_rows = [], []
    for cell in CELLS:
        for o in ['a', '', 'd', '7']:
            rows.append([o, cell] if pos else [cell, o])
    buf = io.StringIO(newline='')
    w = csv.writer(buf, lineterminator='\n')
    w.writerow([x['name'] for x in cols])
    w.writerows(rows)
    (c.dir / 't.csv').write_text(buf.getvalue(), encoding='utf-8', newline='')
    c.state(spec, other, pos, mode)
    c.describe(dict(columns=cols))
    exp = []
    for row in rows:
        item, bad = {}, False
        for x, cell in zip(cols, row):
            s = {k: v for k, v in x.items() if k != 'name'}
            e = expected(cell, s)
            if e == 'ValueError':
                bad = True
                e = 'ValueError'
            item[x['name']] = e
        if mode and bad:
            continue
        exp.append(item)

    class Log:
        def warning(self, msg):
            pass
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = list(tg.tables[0].iterdicts(log=Log(), strict=mode))
    c.check(len(got) == len(exp), 'rows', lambda: 'got {}, expected {}'.format(len(got), len(exp)))
    for g, e in zip(got, exp):
        c.tick()
        c.check(list(g) == list(e), 'keys', list(g))
        for k in e:
            if e[k] != 'ValueError':
                c.check(norm(g[k]) == e[k], 'value', lambda: 'got {}, expected {}'.format(g, e))
    c.outcome(exp)


HARNESSES = [
    Harness('direct', direct, None),
    Harness('table', table, 2, 4),
    Harness('sizes', sizes.c06, None),
]
