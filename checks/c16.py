import json
import itertools
import urllib.parse
import warnings

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup, Table, Column
from csvw.metadata import Schema

ASSUMPTIONS = [
    'headers within a file and the names of columns are distinct, and no two cells of a header '
    'identify the same column; virtual columns come last, are not required, and have a value URL of '
    'their own; in non-strict mode no more cells than columns if there are virtual columns',
    'a column with only titles in specific languages appears as _col.N',
    'the header is matched to names first, then per column to titles and property URL',
    'a completely empty file has no rows, and no missing columns',
]
P = 'http://example.org/p/'
# How a column is identified: description -> (spec, key in the result, other names)
IDENT = {
    'name': lambda n, i: ({'name': n}, n, []),
    'title': lambda n, i: ({'titles': 'T ' + n}, 'T ' + n, []),
    'name+title': lambda n, i: ({'name': n, 'titles': 'T ' + n}, n, ['T ' + n]),
    'name+titles': lambda n, i: ({'name': n, 'titles': [n + '1', n + '2']}, n, [n + '1', n + '2']),
    'titles': lambda n, i: ({'titles': [n + '1', n + '2']}, n + '1', [n + '2']),
    'languages': lambda n, i: (
        {'name': n, 'titles': {'en': [n + ' en', n + ' uk'], 'de': n + ' de'}}, n,
        [n + ' en', n + ' uk', n + ' de']),
    'language titles': lambda n, i: (
        {'titles': {'en': n + ' en'}}, '_col.{}'.format(i), [n + ' en']),
    'property': lambda n, i: ({'propertyUrl': P + n}, '_col.{}'.format(i), [P + n]),
    'name+property': lambda n, i: ({'name': n, 'propertyUrl': P + n}, n, [P + n]),
    'all': lambda n, i: (
        {'name': n, 'titles': {'und': n + ' u', 'en': n + ' en'}, 'propertyUrl': P + n}, n,
        [n + ' u', n + ' en', P + n]),
    'nothing': lambda n, i: ({}, '_col.{}'.format(i), []),
    'title of the next': lambda n, i: (
        {'name': n, 'titles': [chr(ord(n) + 1), n + 'x']}, n, [n + 'x']),
    'case': lambda n, i: ({'name': n, 'titles': [n.upper()]}, n, [n.upper()]),
}
# Typed, so that a value read with the wrong column is seen.
TYPES = [
    ({'datatype': 'integer'}, lambda s: int(s) if s else None),
    ({'null': ['1']}, lambda s: None if s == '1' else s),
    ({'separator': ';', 'datatype': 'integer'}, lambda s: [int(x) for x in s.split(';')] if s else []),
    ({}, lambda s: s or None),
    ({'default': '7'}, lambda s: s or '7'),
]


def pct(v):
    if isinstance(v, list):
        return ','.join(pct(x) for x in v)
    return urllib.parse.quote(str(v), safe='')


def query(**kw):
    s = '&'.join('{}={}'.format(k, pct(v)) for k, v in kw.items() if v is not None and v != [])
    return '?' + s if s else ''


def val(d, k):
    return '' if d.get(k) is None else pct(d[k])


VIRTUAL = [
    [('http://x.org/1', lambda d: 'http://x.org/1')],
    [('http://x.org/{a}#f', lambda d: 'http://x.org/{}#f'.format(val(d, 'a')))],
    [('x{?a,b}', lambda d: 'x' + query(a=d.get('a'), b=d.get('b')))],
    [('{b}', lambda d: val(d, 'b')), ('{v0}/{a}', lambda d: val(d, 'v0') + '/' + val(d, 'a'))],
    [None],
]


def csv(rows, eol='\r\n'):
    return ''.join(('""' if row == [''] else ','.join(
        '"{}"'.format(c.replace('"', '""')) if set(c) & set(',"\r\n') else c for c in row)) + eol
        for row in rows)


def match(c):
    """Schemas x headers x rows."""
    n = c.choose('columns', [2, 3, 1, 0])
    cols = []
    for i in range(n):
        ident = c.choose('ident{}'.format(i), list(IDENT))
        spec, key, other = IDENT[ident]('abc'[i], i + 1)
        tspec, read = TYPES[c.choose('type{}'.format(i), [i, (i + 1) % 5, 3])]
        cols.append((dict(spec, **tspec), key, [key] + other, read))
    if len({col[1] for col in cols}) < n:
        return
    required = c.choose('required', [None, 'column', 'last', 'schema', 'table', 'group']) if n else None
    virtual = c.choose('virtual', [[]] + VIRTUAL)
    header = c.choose('header', [True, 'headerRowCount', False, 'no header'])
    has_header = header in (True, 'headerRowCount')
    strict = c.choose('strict', [True, False])
    where = c.choose('via', ['iter', 'iterdicts', 'fname', 'metadata'])

    # The columns of the file: positions of the schema's columns or 'u' (unknown).
    orders = [list(range(n)) + ['u'] * k for k in (0, 1)]
    if has_header:
        for perm in itertools.permutations(range(n)):
            orders.extend([list(perm), list(perm) + ['u'], ['u'] + list(perm)])
        orders.extend([list(range(n))[:-1], list(range(n))[1:], ['u', 'u'], ['u']])
        orders.extend(list(reversed(range(n)))[1:] + ['u'] for _ in range(1))
    else:
        orders.append(list(range(n))[:-1])
    uniq = []
    for o in orders:
        if o not in uniq:
            uniq.append(o)
    order = c.choose('order', [o for o in uniq if o or n or not has_header])
    if has_header and not order:  # a header line without cells
        return
    names = []
    for j, o in enumerate(order):
        if o == 'u':
            names.append(c.choose('unknown{}'.format(j), ['zz', 'z z', 'a b', '', P + 'z', 'A ']) + (
                '2' if 'u' in order[:j] else ''))
        else:
            names.append(c.choose('by{}'.format(j), cols[o][2]))
    if len(set(names)) < len(names):
        return
    nrows = c.choose('rows', [2, 1, 0, 'empty'])
    rows = []
    for i in range(0 if nrows == 'empty' else nrows):
        cells = [c.choose('cell{},{}'.format(i, j), [str(i + j + 1), '', '1', '01'])
                 for j in range(len(order))]
        shape = c.choose('shape{}'.format(i), ['full', 'short', 'long', 'blank'])
        if shape == 'short':
            cells = cells[:-1]
        elif shape == 'long':
            cells.append('9')
        elif shape == 'blank':
            cells = []
        if cells == [''] or not cells:
            cells = []
        rows.append(cells)
    if nrows == 'empty' and required:
        return
    if not strict and virtual and len(order) > n:
        return

    # -- the description
    md = {'columns': [dict(col[0]) for col in cols]}
    req = set()
    if required == 'column':
        md['columns'][0]['required'] = True
        req = {0}
    elif required == 'last':
        md['columns'][-1]['required'] = True
        req = {n - 1}
    elif required:
        req = set(range(n))
    vcols = []
    for i, v in enumerate(virtual):
        md['columns'].append({'name': 'v{}'.format(i), 'virtual': True})
        if v:
            vcols.append(('v{}'.format(i), v[1]))
            md['columns'][-1]['valueUrl'] = v[0]
    if required == 'schema':
        md['required'] = True
    md = {'url': 't.csv', 'tableSchema': md}
    if required == 'table':
        md['required'] = True
    if header == 'headerRowCount':
        md['dialect'] = {'headerRowCount': 1}
    elif header is False:
        md['dialect'] = {'header': False}
    elif header == 'no header':
        md['dialect'] = {'headerRowCount': 0}
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [md]}
    if required == 'group':
        md['required'] = True
    content = '' if nrows == 'empty' else csv(([names] if has_header else []) + rows)
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    (c.dir / 't.csv').write_bytes(content.encode('utf8'))
    key = json.dumps([md, content, strict])
    c.describe((md, content, strict))
    c.state(md, content, strict)

    # -- the model
    bypos = (not has_header) or (not strict and n)
    if bypos:
        order = [o if o < n else 'x' for o in range(len(order))]
    if not has_header and n == 0:  # the first row which is not blank says how many there are
        k = next((len(r) for r in rows if r), 0)
        order = ['x'] * k
    elif not has_header:
        order = list(range(n))
    exp, error, unspecified = [], None, False
    present = {o for o in order if isinstance(o, int)}
    if nrows != 'empty' and req - present:
        error = 'missing'
    else:
        started = bool(has_header or n)
        for row in rows:
            res = {}
            if not started and row:
                started = True
            for j, (o, s) in enumerate(zip(order if started else [], row)):
                if o == 'x':
                    res['_col.{}'.format(j + 1)] = s or None
                elif o == 'u':
                    res[names[j]] = s
                    unspecified = True
                else:
                    if o in req and s in (['1'] if 'null' in cols[o][0] else ['']) and not (
                            s == '' and 'default' in cols[o][0]):
                        error = 'required'
                        break
                    res[cols[o][1]] = cols[o][3](s)
            if not error and any(o in req and j >= len(row) for j, o in enumerate(order)):
                error = 'short'
            if error:
                break
            for col in cols:
                res.setdefault(col[1], None)
            for k, f in vcols:
                res[k] = f(res)
            exp.append(res)
    if not strict and error in ('required', 'short'):  # see C17
        return

    # -- the code
    t = TableGroup.from_file(c.dir / 'md.json').tables[0]
    kw = {'strict': strict} if not strict else {}
    got, exc = [], None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            if where == 'iter' and strict:
                it = iter(t)
            elif where == 'fname':
                it = t.iterdicts(fname=str(c.dir / 't.csv'), **kw)
            elif where == 'metadata':
                it = t.iterdicts(with_metadata=True, **kw)
            else:
                it = t.iterdicts(**kw)
            for r in it:
                c.tick()
                got.append(r[2] if where == 'metadata' else r)
        except ValueError as e:
            exc = e
    c.check((exc is not None) == bool(error), key,
            lambda: 'exception {!r}, expected {}'.format(exc, error))
    if error == 'missing':
        c.check(all(repr(cols[i][1]) in str(exc) for i in req - present), key, lambda: repr(exc))
        c.check(not any(repr(cols[i][1]) in str(exc) for i in range(n) if i not in req - present),
                key, lambda: repr(exc))
    c.check(len(got) == len(exp) and all(
        g == e and all(type(g[k]) == type(e[k]) for k in e) for g, e in zip(got, exp)),
        key, lambda: 'got {}, expected {}'.format([dict(g) for g in got], exp))
    if strict and not error:
        c.check(any('Unspecified column' in str(x.message) for x in w) == unspecified, key,
                lambda: 'unspecified columns: {}'.format([str(x.message) for x in w]))
    c.outcome(exp, error)


def lookup(c):
    """Schema.get_column and TableLike.get_column on all schemas of up to three columns."""
    n = c.every('columns', [1, 2, 3])
    ids = [c.every('ident{}'.format(i), list(IDENT)) for i in range(n)]
    cols = [IDENT[k]('abc'[i], i + 1) for i, k in enumerate(ids)]
    keys = [col[1] for col in cols]
    if len(set(keys)) < n:
        return
    spec = {'columns': [dict(col[0]) for col in cols]}
    c.state(spec)
    c.describe(spec)
    schema = Schema.fromvalue(spec)
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': spec})
    for name in sorted({x for col in cols for x in [col[1]] + col[2]} | {'zz', 'a', 'b', 'c', 'd', '', 'A'}):
        c.tick()
        exp = None
        if name in keys:
            exp = keys.index(name)
        else:
            for i, (spec_, key, other) in enumerate(cols):
                titles = spec_.get('titles', [])
                titles = titles.values() if isinstance(titles, dict) else [titles]
                flat = [x for t_ in titles for x in (t_ if isinstance(t_, list) else [t_])]
                if name in flat or spec_.get('propertyUrl') == name:
                    exp = i
                    break
        for obj in (schema, t):
            got = obj.get_column(name)
            columns = (obj.tableSchema if obj is t else obj).columns
            got = None if got is None else [got is x for x in columns].index(True)
            c.check(got == exp, json.dumps([spec, name]),
                    lambda: 'column {}, expected {}'.format(got, exp))
            c.outcome(name, exp)


def edits(c):
    """Editing the columns of a table takes effect in all following reads."""
    base = [('a', int), ('b', str), ('c', str)]
    (c.dir / 't.csv').write_text('a,c,b\n1,3,2\n', encoding='utf8')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': 'integer'}, {'name': 'b'}, {'name': 'c'}]}})
    t._fname = c.dir / 'md.json'
    cols = [['a', [], True], ['b', [], False], ['c', [], False]]
    hist = []
    for i in range(c.every('length', [0, 1, 2, 3])):
        op = c.every('op{}'.format(i), ['swap', 'pop', 'rename', 'title', 'append', 'retype', 'read'])
        hist.append(op)
        columns = t.tableSchema.columns
        if op == 'swap':
            columns.reverse()
            cols.reverse()
        elif op == 'pop' and cols:
            columns.pop()
            cols.pop()
        elif op == 'rename' and cols:
            columns[0].name = cols[0][0] = 'x{}'.format(i)
        elif op == 'title' and cols:
            old = cols[-1][0]
            columns[-1].titles = Column.fromvalue({'titles': ['t', 'b']}).titles
            cols[-1][1] = ['t', 'b']
        elif op == 'append':
            columns.append(Column.fromvalue({'name': 'n{}'.format(i)}))
            cols.append(['n{}'.format(i), [], False])
        elif op == 'retype' and cols:
            columns[0].datatype = None
            cols[0][2] = False
        elif op == 'read':
            list(t)
        c.tick()
        exp = {}
        for h, s in zip('acb', '132'):
            col = next((x for x in cols if x[0] == h), None) or next(
                (x for x in cols if h in x[1]), None)
            if col is None:
                exp[h] = s
            elif col[0] in exp:
                exp = None
                break
            else:
                exp[col[0]] = int(s) if col[2] else s
        if exp is None:  # two columns of the file are the same column: out of the domain
            return
        for x in cols:
            exp.setdefault(x[0], None)
        c.state(cols)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = list(t)
        c.check(got == [exp], str(hist), lambda: 'got {}, expected {}'.format(got, exp))
        c.outcome(got)


HARNESSES = [
    Harness('match', match, 3, 4),
    Harness('lookup', lookup, None),
    Harness('edits', edits, None),
    Harness('sizes', sizes.c16, None),
]
