import json

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup
from csvw.db import Database

ASSUMPTIONS = [
    'names of tables and columns are distinct also ignoring case; values '
    'are such as read from data, i.e. items of lists do not contain the separator; foreign keys '
    'reference the primary key, tables with list-valued foreign keys have a primary key of one '
    'column, and keys are not null',
    'tables whose primary key is a single integer column are read in the order of the key (SQLite '
    'keeps such rows in this order)',
]
# Texts of cells; the values are what reading the cell yields (see C06, C08-C11).
CELLS = {
    'string': ['a', '', 'a b', "it's", '`q`', 'x\ny', '\u00e4', 'NULL', '1', 'a||b', '"', '0', ' '],
    'integer': ['1', '', '0', '-5', '9007199254740993', '9223372036854775807'],
    'decimal': ['1.5', '', '0.1', '0', '-1000.25', '100', '123456789.123456', '0.30'],
    'boolean': ['true', '', 'false'],
    'date': ['2020-01-02', '', '0999-12-31', '2020-01-02+01:00'],
    'dateTime': ['2020-01-02T03:04:05', '', '2020-01-02T03:04:05.123456', '2020-01-02T03:04:05+01:00'],
    'double': ['1.5', '', '0.1', '1e300', '0', '-5', '1e-7'],
    'hexBinary': ['a0', '', '00ff', '61'],
    'base64Binary': ['YQ==', '', 'AP8='],
    'anyURI': ['http://example.org/a?b#c', '', 'x', 'a%20b'],
    'json': ['{"a": [1, null]}', '', '1', '[]', '"s"', '[1, "x"]', 'true', '0', '""', '{}'],
    'time': ['03:04:05', '', '23:59:59'],
    'duration': ['P1Y2M3DT4H', '', 'P1D'],
    'dayTimeDuration': ['P3DT4H', '', 'PT0.5S'],
    'yearMonthDuration': ['P1Y2M', ''],
    'dateTimeStamp': ['2020-01-02T03:04:05Z', '', '2020-01-02T03:04:05-05:30'],
    'int': ['1', '', '0', '-7', '10'],
    'nonNegativeInteger': ['1', '', '0', '18446744073709551616'],
    'unsignedLong': ['1', '18446744073709551615'],
    'number': ['1.5', '', '100'],
    'float': ['1.5', '', '-0'],
    'NMTOKEN': ['a', '', 'b:c'],
    'gYear': ['2020', '', '0001'],
    'language': ['en', '', 'de-AT'], 'xml': ['<a/>', ''], 'any': ['x', ''], 'datetime': ['2020-01-02T03:04:05', ''],
    'binary': ['YQ==', ''], 'normalizedString': ['a  b', ''], 'long': ['5', '-9223372036854775808'],
    'byte': ['5', '0'], 'negativeInteger': ['-5', '-1'],
}
DATATYPES = {
    'decimal': [None, '#,##0.0#'], 'date': [None, 'dd.MM.yyyy'], 'boolean': [None, 'Y|N'],
    'dateTime': [None, 'dd.MM.yyyy HH:mm:ss'], 'time': [None, 'HH:mm'], 'string': [None, '[^z]*'],
}
LISTS = {
    'string': ['a;b', '', 'a', 'a b; c', 'a;;b', 'b;a;b', "it's;\u00e4", '1;2', ';', 'NA;a', 'a;NA'],
    'integer': ['1;2', '', '0', '2;1;2', '1;;3', ';'],
}
KEYS = {
    'string': ['a', 'b c', '0', 'd||e', "f's"],
    'integer': ['2', '0', '-1', '10', '3'],
    'decimal': ['1.5', '0', '0.1', '-2', '10'],
    'date': ['2020-01-02', '1999-12-31', '2020-01-03', '2020-01-04', '2020-01-05'],
    'anyURI': ['http://x.org/b', 'http://x.org/a', 'c', 'd', 'e'],
    'int': ['2', '0', '10', '9', '-1'],
    'hexBinary': ['b0', 'a0', '00', '01', '02'],
    'empty': ['', 'a', 'b', 'c', 'd'],
    'boolean': ['false', 'true', '1', '0', ''],
}
NAMES = ['a', 'order', 'x y', '\u00e4', 'a.b', 'context', "q'q", 'b`c"', '{0}', 'T', 'group', '1']


def translators():
    return {
        None: None,
        'prefix': lambda t, c=None: 'c_' + c if c else 'T_' + t,
        'table': lambda t, c=None: t.replace('.csv', '') + '_' + c if c else t.replace('.csv', ''),
        'columns': lambda t, c=None: {'a': 'b1', 'id': 'pk', 'f': 'fkey', 'context': 'ctx'}.get(c, c) if c else t,
    }


def datatype(name, fmt=None):
    if name == 'empty':
        name = 'string'
    return {'base': name, 'format': fmt} if fmt else name


def same(a, b):
    if isinstance(b, (list, tuple)) and not isinstance(a, (list, tuple)):
        return False
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return a == b
    return type(a) == type(b) and a == b


def compare(c, key, tables, got, exp, translate):
    tr = translate or (lambda t, col=None: col or t)
    names = [tr(n) for n in tables]
    c.check(sorted(got) == sorted(tr(n) for n, rows in exp.items() if rows), key,
            lambda: 'tables {}, expected {}'.format(sorted(got), names))
    order = [n for n in got]
    c.check(order == [tr(n) for n in tables if exp.get(n)], key, lambda: 'order of tables {}'.format(order))
    for n, rows in exp.items():
        want = [{tr(n, k): v for k, v in row.items()} for row in rows]
        have = [dict(r) for r in got.get(tr(n), [])]
        c.tick(len(want))
        c.check(len(want) == len(have) and all(
            set(h) == set(w) and all(same(h[k], w[k]) for k in w) for h, w in zip(have, want)),
            key, lambda: 'table {}: got {}, expected {}'.format(n, have, want))


def values(c):
    """Every datatype x separator x null marker x value, with and without translation."""
    typ = c.choose('type', list(CELLS))
    fmt = c.choose('format', DATATYPES.get(typ, [None]))
    listval = c.choose('list', [False, True])
    null = c.choose('null', [[''], ['NA'], ['NA', '']])
    name = c.choose('name', NAMES)
    url = c.choose('url', ['t.csv', 't', "it's.csv", 'sub/t.csv', 'a b'])
    pk = c.choose('pk', ['string', None, 'integer', 'composite', 'first'])
    where = c.choose('inherited from', ['column', 'schema', 'group'])
    tr = c.choose('translate', [None, 'prefix', 'table', 'columns'])
    path = c.choose('write', ['items', 'tg', 'twice', 'keys', 'missing'])
    storage = c.choose('storage', ['memory', 'file'])
    if pk == 'first' and (listval or typ in ('json', 'duration', 'dayTimeDuration', 'yearMonthDuration')):
        return
    alphabet = CELLS[typ]
    if listval:
        alphabet = LISTS.get(typ) or [';'.join(reversed(CELLS[typ][:2])), '', CELLS[typ][0], ';'.join(
            [CELLS[typ][0]] + CELLS[typ])]
        if typ in ('json', 'anyURI'):
            alphabet = [a for a in alphabet]
    n = c.choose('rows', [3, 1, 2, 0])
    col = {'name': name, 'null': null}
    inh = {}
    if typ != 'string' or fmt:
        inh['datatype'] = datatype(typ, fmt)
    if listval:
        inh['separator'] = ';'
    cols = [{'name': 'id', 'datatype': 'integer' if pk == 'integer' else 'string', 'separator': None}, col,
            {'name': 'k', 'datatype': 'string', 'separator': None}]
    for x in cols:
        if 'separator' in x:
            del x['separator']
    md = {'url': url, 'tableSchema': {'columns': cols}}
    if where == 'column':
        col.update(inh)
    else:
        if listval:  # which would make lists of all columns
            return
        (md['tableSchema'] if where == 'schema' else md).update(inh)
    keys = {'string': ['id'], 'integer': ['id'], 'composite': ['k', 'id'], 'first': [name]}.get(pk)
    if keys:
        md['tableSchema']['primaryKey'] = keys
    cells = [c.choose('cell{}'.format(i), alphabet[i:] + alphabet[:i]) for i in range(n)]
    md = {'tables': [md]}
    c.describe((md, cells, tr, path))
    key = json.dumps([md, cells, tr, path, storage])
    c.state(md, cells, tr, path, storage)
    tg = TableGroup.fromvalue(md)
    t = tg.tables[0]
    column = t.tableSchema.columns[1]
    vals = []
    if fmt:  # the texts are in the default format
        std = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [
            dict(inh, name='x', null=null, datatype=typ)]}}]}).tables[0].tableSchema.columns[0]
    else:
        std = column
    for s in cells:
        try:
            vals.append(std.read(s))
        except ValueError:  # e.g. the empty string, if this is not null
            return
    if pk == 'first' and (any(v is None for v in vals) or len(set(map(repr, vals))) < n):
        return
    rows = [{'id': [3, 1, 2][i] if pk == 'integer' else 'r{}'.format(3 - i), name: v, 'k': 'k'}
            for i, v in enumerate(vals)]
    translate = translators()[tr]
    db = Database(tg, fname=c.dir / 'db.sqlite' if storage == 'file' else None, translate=translate)
    exp = [dict(r) for r in rows]
    if path == 'tg':
        if '/' in url:
            (c.dir / 'sub').mkdir()
        tg._fname = c.dir / 'md.json'
        try:
            t.write(rows)
            exp = [dict(r) for r in t]
        except ValueError:
            return
        db.write_from_tg()
    elif path == 'twice':
        if storage == 'file':
            db.write(**{url: rows[:1]})
            db.write(force=True, **{url: rows})
        else:
            db.write(**{url: rows[:1]})
            db.write(**{url: rows[1:]})
    elif path == 'keys':  # the order of the keys does not matter
        db.write(**{url: [dict(reversed(list(r.items()))) if i % 2 else r for i, r in enumerate(rows)]})
    elif path == 'missing':
        rows = [{k: v for k, v in r.items() if v is not None and not (i == 0 and k == 'k' and pk != 'composite')}
                for i, r in enumerate(rows)]
        if exp and pk != 'composite':
            exp[0]['k'] = None
        db.write(**{url: rows})
    else:
        db.write(**{url: rows})
    if pk == 'integer' or pk == 'first' and typ == 'integer':
        exp.sort(key=lambda r: r[keys[0]])
    got = db.read()
    if db._connection:
        db._connection.close()
    compare(c, key, [url], got, {url: exp}, translate)
    c.outcome(repr(exp))


def relations(c):
    """Foreign keys of all kinds."""
    kind = c.choose('kind', [
        'list', 'single', 'two lists', 'list self', 'self', 'composite', 'crossed', 'list and single',
        'two tables', 'chain', 'list chain', 'other column', 'list other', 'other columns'])
    ptype = c.choose('parent key', list(KEYS))
    ttype = c.choose('key', list(KEYS))
    order = c.choose('tables', ['ptq', 'tpq', 'qtp', 'tqp'])
    tr = c.choose('translate', [None, 'prefix', 'table', 'columns'])
    path = c.choose('write', ['items', 'tg', 'reversed', 'file'])
    fname = c.choose('fk column', ['f', 'context', 'id_x'])
    extra = c.choose('extra column', [False, True])
    def idcol(typ):
        res = {'name': 'id', 'datatype': datatype(typ)}
        if typ == 'empty':
            res['null'] = ['NA']
        return res

    def keys(typ, n):
        return KEYS[typ][:n]
    np = c.choose('parents', [2, 1, 3, 0])
    nt = c.choose('rows', [2, 1, 3])
    if np == 3 and ptype == 'boolean' or nt == 3 and ttype == 'boolean':
        return
    p = {'columns': [idcol(ptype), {'name': 'n'}], 'primaryKey': ['id']}
    t = {'columns': [idcol(ttype)], 'primaryKey': ['id']}
    q = {'columns': [{'name': 'id'}], 'primaryKey': ['id']}

    def fk(cols, table, ref):
        return {'columnReference': cols, 'reference': {'resource': table, 'columnReference': ref}}
    lists, singles, parent, ptyp = [], [], 'p.csv', ptype
    fks = t['foreignKeys'] = []
    if kind.startswith('list self'):
        parent, ptyp = 't.csv', ttype
        lists = [fname]
    elif kind == 'self':
        parent, ptyp = 't.csv', ttype
        singles = [fname]
    elif kind in ('list', 'list chain'):
        lists = [fname]
    elif kind == 'two lists':
        lists = [fname, 'g']
    elif kind == 'list and single':
        lists, singles = [fname], ['g']
    elif kind in ('single', 'chain'):
        singles = [fname]
    elif kind == 'two tables':
        lists = [fname]
    for x in lists + singles:
        col = {'name': x, 'datatype': datatype(ptyp)}
        if x in lists:
            col['separator'] = ';'
        if ptyp == 'empty':
            col['null'] = ['NA']
        t['columns'].append(col)
        fks.append(fk([x], parent, ['id']))
    if kind == 'two tables':
        t['columns'].append({'name': 'g', 'separator': ' '})
        fks.append(fk(['g'], 'q.csv', ['id']))
    elif kind == 'chain':
        q['columns'].append({'name': 'f', 'datatype': datatype(ttype)})
        if ttype == 'empty':
            q['columns'][-1]['null'] = ['NA']
        q['foreignKeys'] = [fk(['f'], 't.csv', ['id'])]
    elif kind == 'list chain':
        q['columns'].append({'name': 'f', 'datatype': datatype(ttype), 'separator': ';'})
        if ttype == 'empty':
            q['columns'][-1]['null'] = ['NA']
        q['foreignKeys'] = [fk(['f'], 't.csv', ['id'])]
    elif kind in ('other column', 'list other', 'other columns'):  # which are not the primary key
        p['columns'].insert(0, {'name': 'uid'})
        p['primaryKey'] = c.choose('primary key of parent', [['uid'], None, ['id', 'uid']])
        if not p['primaryKey']:
            del p['primaryKey']
        if kind == 'other columns':
            t['columns'].append({'name': 'm'})
            fks.append(fk(['m'], 'p.csv', ['n']))
        col = {'name': fname, 'datatype': datatype(ptyp)}
        if kind == 'list other':
            col['separator'] = ';'
            lists = [fname]
        else:
            singles = [fname]
        if ptyp == 'empty':
            col['null'] = ['NA']
        t['columns'].append(col)
        fks.append(fk([fname], parent, ['id']))
    elif kind in ('composite', 'crossed'):
        p['columns'][1:] = [{'name': 'n'}]
        p['primaryKey'] = ['id', 'n']
        # two columns whose order differs from the order of the names
        names = ['x', 'a'] if kind == 'crossed' else ['a', 'x']
        t['columns'].extend([{'name': names[0], 'datatype': datatype(ptype)}, {'name': names[1]}])
        if ptype == 'empty':
            t['columns'][-2]['null'] = ['NA']
        fks.append(fk(names, 'p.csv', ['id', 'n']))
    if extra:
        t['columns'].append({'name': 'zz', 'separator': '|'})
    tables = {'p.csv': p, 't.csv': t, 'q.csv': q}
    md = {'tables': [{'url': n + '.csv', 'tableSchema': tables[n + '.csv']} for n in order]}
    tg = TableGroup.fromvalue(md)
    cols = {n: {x.name: x for x in tg.tabledict[n].tableSchema.columns} for n in tables}
    rows = {n: [] for n in tables}
    pids = [cols['p.csv']['id'].read(s) for s in keys(ptype, np)]
    tids = [cols['t.csv']['id'].read(s) for s in keys(ttype, nt)]
    for i, v in enumerate(pids):
        rows['p.csv'].append({'id': v, 'n': 'n{}'.format(i)})
        if 'other' in kind:
            rows['p.csv'][-1]['uid'] = 'k'
            if kind == 'other columns' or p.get('primaryKey') == ['uid']:
                rows['p.csv'][-1]['uid'] += str(-i)
    for i, s in enumerate(['y', 'x']):
        rows['q.csv'].append({'id': s})
        if kind == 'chain':
            rows['q.csv'][-1]['f'] = c.choose('q{}'.format(i), [tids[0], None] + tids[1:])
        elif kind == 'list chain':
            rows['q.csv'][-1]['f'] = c.choose('q{}'.format(i), [[tids[-1], tids[0]], [], [tids[0]]])
    targets = tids if parent == 't.csv' else pids
    listopts = [list(reversed(targets)), [], targets[:1], targets[:1] * 2 + targets[1:], targets, targets[-1:]]
    for i, v in enumerate(tids):
        row = {'id': v}
        for x in lists:
            row[x] = list(c.choose('{}{}'.format(x, i), listopts[i:] + listopts[:i]))
        for x in singles:
            row[x] = c.choose('{}{}'.format(x, i), targets[i:] + [None] + targets[:i])
        if kind == 'other columns':
            row['m'] = c.choose('m{}'.format(i), ['n0', None] if np else [None])
        if kind == 'two tables':
            row['g'] = c.choose('g{}'.format(i), [['y', 'x'], [], ['x', 'x']])
        if kind in ('composite', 'crossed'):
            j = c.choose('ref{}'.format(i), list(range(np)) + [None, 'half'])
            row[names[0]] = pids[j] if isinstance(j, int) else None
            row[names[1]] = 'n{}'.format(j) if isinstance(j, int) else ('n' if j else None)
        if extra:
            row['zz'] = c.choose('zz{}'.format(i), [['u', None, 'v'], [], None])
        rows['t.csv'].append(row)
    translate = translators()[tr]
    key = json.dumps([kind, ptype, ttype, order, tr, path, fname, repr(rows)])
    c.describe((kind, md, rows))
    c.state(kind, ptype, ttype, rows, tr, path, order)
    db = Database(tg, fname=c.dir / 'x.db' if path == 'file' else None, translate=translate)
    if path == 'tg':
        tg._fname = c.dir / 'md.json'
        for n, t_ in tg.tabledict.items():
            t_.write(rows[n])
            again = [dict(r) for r in t_]
            if again != rows[n]:
                return  # not such as read from a file, e.g. lists of empty strings
        db.write_from_tg()
    elif path == 'reversed':
        db.write(**dict(reversed(list(rows.items()))))
    else:
        db.write(**rows)
    exp = {}
    for n, rr in rows.items():
        typ = {'p.csv': ptype, 't.csv': ttype, 'q.csv': 'string'}[n]
        exp[n] = sorted(rr, key=lambda r: r['id']) if typ == 'integer' and len(
            tables[n].get('primaryKey', [])) == 1 and tables[n]['primaryKey'] == ['id'] else rr
    got = db.read()
    if db._connection:
        db._connection.close()
    compare(c, key, [n + '.csv' for n in order], got, exp, translate)
    c.outcome(kind, repr(exp['t.csv']))


def inherited(c):
    """Separators, null markers and datatypes inherited from the schema, the table or the group."""
    sep = c.choose('separator from', [None, 'schema', 'table', 'group', 'column'])
    null = c.choose('null from', [None, 'schema', 'table', 'group', 'column'])
    typ = c.choose('datatype from', [None, 'schema', 'table', 'group', 'column'])
    base = c.choose('datatype', ['string', 'integer', 'anyURI', 'date', 'NMTOKEN', 'json'])
    marks = c.choose('null', [['NA'], ['NA', '-'], ['', 'NA'], 'NA', [], ['']])
    over = c.choose('overridden', [False, True])
    sepchar = c.choose('separator', [';', '|', ' ', 'x'])
    tr = c.choose('translate', [None, 'prefix', 'table', 'columns'])
    path = c.choose('write', ['items', 'tg', 'extra'])
    if typ is None and base != 'string' or null and not marks and path == 'tg':
        return  # a null value cannot be written without a marker
    md = {'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}, {'name': 'c'}]}}]}
    t = md['tables'][0]
    levels = {'schema': t['tableSchema'], 'table': t, 'group': md, 'column': t['tableSchema']['columns'][0]}
    for level, prop, value, other in [
            (sep, 'separator', sepchar, ','), (null, 'null', marks, ['?']),
            (typ, 'datatype', {'base': base}, 'string')]:
        if level:
            levels[level][prop] = value
            if over:
                t['tableSchema']['columns'][2][prop] = other
    tg = TableGroup.fromvalue(md)
    cols = tg.tables[0].tableSchema.columns
    c.describe(md)
    alphabet = {'string': ['p', 'q r', '', 'NA'], 'integer': [1, -2, 0], 'json': [{'k': 1}, 'p', 3]}
    if typ and base not in alphabet:
        parse = cols[0].inherit('datatype').parse
        alphabet[base] = [parse(s) for s in (
            ('2020-01-02', '1999-12-31') if base == 'date' else ('p', 'q'))]
    rows = [{}, {}, {}, {}]
    for name, mine in [('a', True), ('b', None), ('c', not over)]:
        def has(level):
            # does this level apply to the column?
            return level and (name == 'a' or name == 'b' and level != 'column'
                              or name == 'c' and (over or level != 'column'))
        islist = has(sep)
        texts = alphabet[base if has(typ) and not (over and name == 'c') else 'string']
        char = ',' if over and name == 'c' else sepchar
        nulls = (['?'] if over and name == 'c' else [marks] if isinstance(marks, str) else marks) \
            if has(null) else ['']
        texts = [v for v in texts if v not in (nulls or ['']) and not (islist and isinstance(v, str) and char in v)]
        values = [texts[0], texts[-1], None, texts[0]]
        if islist:
            values = [texts[:1], texts[::-1], [], [texts[0], texts[0]]]
            if nulls:
                values[3] = [texts[0], None, texts[-1]]
        for row, v in zip(rows, values):
            row[name] = v
    exp = [dict(r) for r in rows]
    key = json.dumps([md, tr, path])
    c.state(md, tr, path)
    translate = translators()[tr]
    db = Database(tg, translate=translate)
    for name, col in zip('abc', cols):
        t_, n_ = ((translate or (lambda t, x=None: x or t))(*x) for x in (('t.csv',), ('t.csv', name)))
        want = col.inherit('separator')
        c.check(db.separator(t_, n_) == want, key, lambda: 'separator of {}: {}, expected {}'.format(
            name, db.separator(t_, n_), want))
        c.check(db.split_value(t_, n_, 'p' + (want or '') + 'q') == (['p', 'q'] if want else 'pq'), key, 'split_value')
    if path == 'tg':
        tg._fname = c.dir / 'md.json'
        try:
            tg.tables[0].write(rows)
        except ValueError:
            return
        exp = [dict(r) for r in tg.tables[0]]
        db.write_from_tg()
    elif path == 'extra':  # surplus keys, in all places, are skipped or rejected
        items = [dict(r) for r in rows]
        items[0] = dict(items[0], x1=1, x2=[2])
        items[1] = dict([('x1', 5)] + [p for k, v in items[1].items() for p in ((k, v), ('x' + k, [v]))])
        try:
            db.write(**{'t.csv': items})
            c.fail(key, 'surplus keys were accepted')
        except ValueError:
            pass
        db._connection.close()
        db._connection = None
        db.write(_skip_extra=True, **{'t.csv': items})
    else:
        db.write(**{'t.csv': rows})
    got = db.read()
    db._connection.close()
    compare(c, key, ['t.csv'], got, {'t.csv': exp}, translate)
    c.outcome(repr(exp))


def undescribed(c):
    """Tables without described columns: the columns are the ones of the data."""
    header = c.choose('header', [['a', 'b'], ['b', 'a'], ['x y'], ['a', 'b', 'c'], ['\u00e4', "q'q"], None])
    width = len(header or 'ab')
    n = c.choose('rows', [2, 1, 0, 3])
    rows = []
    for i in range(n):
        w = c.choose('width{}'.format(i), [width, width - 1, width + 1])
        rows.append([c.choose('cell{}{}'.format(i, k), ['v{}{}'.format(i, k), '', '1', ' ']) for k in range(w)])
    if any(not r or r == [''] for r in rows) or not header and not rows:
        return
    other = c.choose('other table', [None, 'described', 'same', 'nodata', 'described first'])
    tr = c.choose('translate', [None, 'prefix', 'table'])
    storage = c.choose('storage', ['memory', 'file'])
    sub = c.choose('url', ['t.csv', 'sub/t.csv'])
    data = '\n'.join(','.join(r) for r in ([header] if header else []) + rows) + '\n'
    path = c.dir / sub
    path.parent.mkdir(exist_ok=True)
    path.write_text(data, encoding='utf8')
    md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [{'url': sub}]}
    if not header:
        md['dialect'] = {'header': False}
    exp = {}
    if other == 'same':
        (c.dir / 'o.csv').write_text(data, encoding='utf8')
        md['tables'].append({'url': 'o.csv'})
    elif other and other.startswith('described'):
        (c.dir / 'o.csv').write_text(('b\n' if header else '') + '1\n2\n', encoding='utf8')
        md['tables'].insert(0 if 'first' in other else 1, {'url': 'o.csv', 'tableSchema': {
            'columns': [{'name': 'b', 'datatype': 'integer'}]}})
    elif other == 'nodata':
        md['tables'].append({'url': 'o.csv'})
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    key = json.dumps([md, data, tr, storage, other])
    c.describe((md, data))
    c.state(md, data, tr, storage)
    tg = TableGroup.from_file(c.dir / 'md.json')
    for t in tg.tables:  # what reading the data yields, with the same columns in all rows
        if other != 'nodata' or t is tg.tables[0]:
            got = [dict(r) for r in t]
            names = {name for r in got for name in r}
            c.check(len(got) == (n if t is not tg.tables[0] or other != 'described first' else 2)
                    or t.tableSchema.columns, key, lambda: 'rows {}'.format(got))
            exp[t.local_name] = [dict.fromkeys(names, None) | r for r in got]
    db = Database(tg, fname=c.dir / 'x.db' if storage == 'file' else None, translate=translators()[tr])
    if other == 'nodata':
        db.write(**{sub: list(tg.tables[0])})
    else:
        db.write_from_tg()
    got = db.read()
    if db._connection:
        db._connection.close()
    compare(c, key, [t['url'] for t in md['tables']], got, exp, translators()[tr])
    c.outcome(repr(exp))


LIMITS = {
    'decimal': ['0.1234567890123456', '12345678901234567890', '1234567890.123456789', '0.123456789012345'],
    'integer': ['9223372036854775808', '-9223372036854775809', '-9223372036854775808'],
}


def limits(c):
    """Numbers which need more digits than SQLite has for them."""
    typ = c.every('type', list(LIMITS))
    text = c.every('text', LIMITS[typ])
    key = '{} {}'.format(typ, text)
    c.describe(key)
    c.state(key)
    tg = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [{'name': 'x', 'datatype': typ}]}}]})
    v = tg.tables[0].tableSchema.columns[0].read(text)
    db = Database(tg)
    try:
        db.write(t=[{'x': v}])
        got = db.read()['t'][0]['x']
    except OverflowError as e:
        got = e
    db._connection.close()
    c.check(same(got, v), key, lambda: 'got {!r}'.format(got))
    c.outcome(repr(got))


HARNESSES = [
    Harness('limits', limits, None),
    Harness('values', values, 3, 4),
    Harness('relations', relations, 3, 4),
    Harness('inherited', inherited, 4, 6),
    Harness('undescribed', undescribed, 3, 5),
    Harness('sizes', sizes.c21, None),
]
