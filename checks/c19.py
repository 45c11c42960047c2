import json
import decimal
import warnings

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup

ASSUMPTIONS = [
    'rows with invalid cells are ignored, as documented; the columns of the key exist',
    'durations and NaN are not used in keys',
]
D = decimal.Decimal
# name -> (spec, [(cell, what it denotes)])
TYPES = {
    'integer': ({'datatype': 'integer'}, [('1', 1), ('01', 1), ('2', 2), ('', None), ('x', KeyError)]),
    'string': ({}, [('a', 'a'), ('A', 'A'), ('b', 'b'), ('a ', 'a '), ('', None), ('1', '1')]),
    'null': ({'null': ['NA', '-']}, [('a', 'a'), ('NA', None), ('-', None), ('', '')]),
    'default': ({'default': 'a'}, [('a', 'a'), ('', 'a'), ('b', 'b')]),
    'decimal': ({'datatype': 'decimal'}, [('1', D(1)), ('1.0', D(1)), ('+1.00', D(1)), ('1.5', D('1.5')),
                                          ('10000000000000000000000000001', D('10000000000000000000000000001')),
                                          ('10000000000000000000000000002', D('10000000000000000000000000002'))]),
    'float': ({'datatype': 'double'}, [('1', 1.0), ('1e0', 1.0), ('1.5', 1.5), ('0', 0.0), ('-0', 0.0)]),
    'boolean': ({'datatype': 'boolean'}, [('true', True), ('1', True), ('false', False), ('0', False)]),
    'dateTime': ({'datatype': 'dateTime'}, [
        ('2020-01-01T01:00:00Z', 1), ('2020-01-01T02:00:00+01:00', 1), ('2020-01-01T02:00:00Z', 2)]),
    'date': ({'datatype': {'base': 'date', 'format': 'dd.MM.yyyy'}}, [
        ('01.02.2020', 1), ('02.01.2020', 2), ('01.02.2021', 3)]),
    'hexBinary': ({'datatype': 'hexBinary'}, [('a0', b'\xa0'), ('A0', b'\xa0'), ('a1', b'\xa1')]),
    'json': ({'datatype': 'json'}, [('{"a":1,"b":[1]}', 1), ('{"b":[1],"a":1 }', 1), ('[1,2]', 2), ('[2,1]', 3)]),
    'list': ({'datatype': 'integer', 'separator': ';'}, [
        ('1;2', (1, 2)), ('01;2', (1, 2)), ('2;1', (2, 1)), ('1', (1,)), ('', ())]),
    'stringlist': ({'separator': ' '}, [('a b', ('a', 'b')), ('b a', ('b', 'a')), ('ab', ('ab',))]),
    'anyURI': ({'datatype': 'anyURI'}, [('http://x.org/a', 1), ('http://x.org/b', 2), ('c', 3)]),
    'time': ({'datatype': 'time'}, [('10:00:00', 1), ('10:00:01', 2)]),
    'pattern': ({'datatype': {'base': 'decimal', 'format': '#,##0.0#'}}, [
        ('1,000.0', D(1000)), ('1,000.00', D(1000)), ('1,000.01', D('1000.01'))]),
}


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg):
        self.msgs.append(msg)


def keys(c):
    """All files of up to three rows over an alphabet of equal and different cells."""
    types = [c.choose('type' + n, sorted(TYPES, key=lambda t: (t != d, list(TYPES).index(t))))
             for n, d in zip('ab', ['integer', 'string'])]
    pk = c.choose('key', [['a', 'b'], ['a'], ['b'], 'a', ['b', 'a'], [], None, ['a', 'v'], ['w'],
                          ['a', 'c'], ['c']])
    mode = c.choose('mode', ['log', 'none'])
    kind = c.choose('file', ['plain', 'header', 'comments', 'swapped', 'second', 'zip'])
    plain = types[0] in ('integer', 'string', 'null', 'default')
    if pk and 'v' in pk and not plain:
        return
    default = types == ['integer', 'string']
    limit = [3, 2] if default else [4, 3]
    nrows = c.every('rows', [3, 2, 1, 0] if default or c.tier == 'thorough' else [2, 1, 0])
    rows = []
    for i in range(nrows):
        rows.append([c.every(n + str(i), TYPES[t][1][:k]) for n, t, k in zip('ab', types, limit)])
    extra = c.choose('bad or short row', [None, 'bad', 'short', 'later', 'shorter'])
    if extra == 'bad':
        if types[0] != 'integer' or not rows:
            return
        rows[0] = [('x', KeyError), rows[0][1]]
    if nrows and extra == 'short':
        rows[-1] = rows[-1][:1]
    elif nrows and extra == 'shorter':
        rows[0] = []
    elif extra == 'later':
        rows = rows + [rows[0]] if rows else [[TYPES[t][1][0] for t in types]]

    md = {'columns': [dict(TYPES[t][0], name=n) for n, t in zip('ab', types)] + [
        {'name': 'c'},
        {'name': 'v', 'virtual': True, 'valueUrl': 'http://x.org/{a}' if plain else 'x'},
        {'name': 'w', 'virtual': True, 'valueUrl': 'constant'}]}
    if pk is not None:
        md['primaryKey'] = pk
    md = {'url': 't.csv', 'tableSchema': md}
    dialect = {'header': {'header': False}, 'comments': {'commentPrefix': '#'}}.get(kind)
    if dialect:
        md['dialect'] = dialect
    md = {'tables': ([{'url': 'o.csv'}] if kind == 'second' else []) + [md]}
    lines = [] if kind == 'header' else [['c', 'b', 'a'] if kind == 'swapped' else ['a', 'b', 'c']]
    numbers = []
    if kind == 'comments':
        lines.insert(0, ['# comment'])
    for i, row in enumerate(rows):
        if kind == 'comments' and i == 1:
            lines.append(['#x', '1'])
        cells = [x[0] for x in row] + ([str(i)] if len(row) == 2 else [])
        if kind == 'swapped':
            if len(cells) < 3:
                return
            cells.reverse()
        lines.append(cells)
        numbers.append(len(lines))
    text = ''.join(','.join(
        '"{}"'.format(x.replace('"', '""')) if set(x) & set(',"') else x for x in line) + '\n'
        for line in lines)
    c.describe((md, text))
    c.state(md, text)
    key = json.dumps([md, text, mode])
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    if kind == 'zip':
        import zipfile
        with zipfile.ZipFile(c.dir / 't.csv.zip', 'w') as z:
            z.writestr('t.csv', text)
    else:
        (c.dir / 't.csv').write_text(text, encoding='utf8')

    # -- the model
    seen, dups = [], []
    for i, row in enumerate(rows):
        if any(x[1] is KeyError for x in row):
            continue
        d = {'a': row[0][1] if row else None, 'b': row[1][1] if len(row) > 1 else None,
             'c': i if len(row) == 2 else None, 'w': 0}
        d['v'] = d['a']
        k = [d[x] for x in pk or []]
        if k and any(k == s for s in seen):
            dups.append(numbers[i])
        seen.append(k)

    # -- the code
    t = TableGroup.from_file(c.dir / 'md.json').tables[-1]
    for turn in (1, 2):
        log, exc, res = Log() if mode == 'log' else None, None, None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                res = t.check_primary_key(log=log) if log else t.check_primary_key()
            except ValueError as e:
                exc = e
        c.tick()
        if log:
            c.check(exc is None and res is (not dups), key, lambda: 'returned {!r}, {!r}, expected {}'.format(
                res, exc, dups))
            prefix = str(c.dir / 't.csv') + ':'
            got = [int(m[len(prefix):].split(' ')[0]) if m.startswith(prefix) else m for m in log.msgs]
            c.check(got == dups, key, lambda: 'reported {}, expected {}'.format(log.msgs, dups))
        elif dups:
            c.check(exc is not None, key, 'no error')
            c.check('{}:{} '.format(c.dir / 't.csv', dups[0]) in str(exc), key, lambda: repr(exc))
        else:
            c.check(res is True, key, lambda: 'result {!r}, {!r}'.format(res, exc))
    c.outcome(dups, mode)


def dense(c):
    """Longer files with one key column, exhaustively."""
    t = c.every('type', ['integer', 'string', 'null', 'decimal', 'boolean', 'list'])
    n = 5 if c.tier == 'quick' else 7
    rows = [c.every('cell{}'.format(i), TYPES[t][1][:4]) for i in range(c.every('rows', range(n + 1)))]
    md = {'url': 't.csv', 'tableSchema': {
        'columns': [dict(TYPES[t][0], name='a'), {'name': 'b'}], 'primaryKey': 'a'}}
    (c.dir / 'md.json').write_text(json.dumps({'tables': [md]}), encoding='utf8')
    (c.dir / 't.csv').write_text('a,b\n' + ''.join(s + ',x\n' for s, _ in rows), encoding='utf8')
    t = TableGroup.from_file(c.dir / 'md.json').tables[0]
    dups = [i + 2 for i in range(len(rows)) if rows[i][1] in [r[1] for r in rows[:i]]]
    log = Log()
    res = t.check_primary_key(log=log)
    c.describe(rows)
    c.state(rows)
    c.outcome(dups)
    c.check(res is (not dups), str(rows), lambda: 'returned {}'.format(res))
    got = [int(m[len(str(c.dir / 't.csv')) + 1:].split(' ')[0]) for m in log.msgs]
    c.check(got == dups, str(rows), lambda: 'reported {}, expected {}'.format(log.msgs, dups))


HARNESSES = [
    Harness('keys', keys, 2),
    Harness('dense', dense, None),
    Harness('sizes', sizes.c19, None),
]
