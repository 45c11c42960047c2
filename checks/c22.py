import json
import sqlite3
import contextlib

from mc.explore import Harness

from csvw import TableGroup
from csvw.db import Database, TableSpec, schema

ASSUMPTIONS = [
    'values of keys and columns with constraints: no NaN or infinite numbers, no fractions of '
    'seconds beyond milliseconds, no NUL characters, primary keys are not null',
    'constraints which are not translated (documented: regular expressions; also: the inclusive and '
    'exclusive bounds by these names, bounds of durations, lengths of base64 data, constraints on '
    'items of lists) must not make writing fail',
    'a reference with a null in one of its columns is no reference (as usual in SQL); references '
    'of a table to itself are only enforced if the caller asks for this, and then in order',
]
# Values in increasing order; those in one list are equal.
ORDERED = {
    'integer': [['-10'], ['-2'], ['-1'], ['0', '-0'], ['1', '01'], ['2'], ['10'], ['9007199254740993']],
    'decimal': [['-10.5'], ['-2'], ['-0.1'], ['0'], ['0.09'], ['0.1', '0.10'], ['1', '1.0'], ['9.5'], ['10']],
    'double': [['-1e5'], ['-2.5'], ['0', '-0'], ['1e-7'], ['0.5'], ['1'], ['9', '9.0'], ['1e1', '10'], ['1e300']],
    'float': [['-2.5'], ['-1'], ['0'], ['0.5'], ['2', '2e0'], ['10'], ['1e10']],
    'number': [['-10'], ['-2'], ['0'], ['0.5'], ['9'], ['10']],
    'int': [['-10'], ['-2'], ['0'], ['9'], ['10', '+10']],
    'nonNegativeInteger': [['0'], ['2'], ['10'], ['9007199254740993']],
    'negativeInteger': [['-10'], ['-9'], ['-1']],
    'unsignedByte': [['0'], ['3'], ['20'], ['100']],
    'long': [['-9007199254740993'], ['-3'], ['20'], ['100']],
    'date': [['0999-12-31'], ['1999-12-31'], ['2000-01-01'], ['2000-02-29'], ['2000-03-01'], ['2010-01-01']],
    'dateTime': [['1999-12-31T23:59:59'], ['2000-01-01T00:00:00'], ['2000-01-01T00:00:00.001'],
                 ['2000-01-01T00:00:00.01'], ['2000-01-01T00:00:01'], ['2000-01-01T10:00:00']],
    'datetime': [['1999-12-31T23:59:59'], ['2000-01-01T00:00:00'], ['2000-01-01T10:00:00']],
    'dateTimeStamp': [['1999-12-31T23:59:59Z'], ['2000-01-01T00:30:00+01:00', '1999-12-31T23:30:00+00:00'][::-1][1:],
                      ['2000-01-01T00:00:00Z', '1999-12-31T19:00:00-05:00'], ['2000-01-01T00:00:01Z']],
    'time': [['00:00:00'], ['03:04:05'], ['10:00:00'], ['23:59:59']],
}
ORDERED['dateTimeStamp'] = [
    ['1999-12-31T23:30:00Z', '2000-01-01T00:30:00+01:00'], ['2000-01-01T00:00:00Z', '1999-12-31T19:00:00-05:00'],
    ['2000-01-01T00:00:01Z', '2000-01-01T10:00:01+10:00'], ['2000-01-02T00:00:00Z']]
TEXTS = {
    'string': ['', 'a', 'ab', '\u00e4b', 'a\nb', 'abcd', "''", ' ', '\U0001f600', '10'],
    'anyURI': ['', 'a', 'ab', 'x:y', 'abcd', "http://example.org/"],
    'NMTOKEN': ['a', 'ab', 'a:b', '1234'],
    'hexBinary': ['', 'a0', '6162', '00ff00', 'ffffffff'],
    'language': ['en', 'de-AT', 'x'], 'token': ['', 'a', 'a b'], 'normalizedString': ['', 'a', 'a  b'],
    'base64Binary': ['', 'YQ==', 'YWI='], 'binary': ['', 'YQ==', 'YWI='],
    'xml': ['', '<a/>'], 'json': ['1'], 'html': ['', '<a>'],
}
NAMES = ['v', 'order', 'x y', "it's", '\u00e4', 'a.b', 'length', '1', '{0}', 'a{', 'a`b']
TRANSLATE = {
    None: None,
    'prefix': lambda t, c=None: 'c_' + c if c else 'T ' + t,
    'same': lambda t, c=None: 'v' if c == 'v' or c in NAMES else (c or 't'),
}


def database(c, tg, **kw):
    return Database(tg, fname=c.dir / 'x.db' if c.choose('storage', ['memory', 'file']) == 'file' else None, **kw)


def write(c, db, key, ok, rows, why):
    """Writes the rows and checks the verdict of the database."""
    c.tick()
    c.trace()
    try:
        with contextlib.redirect_stdout(None):
            db.write(**rows)
        got = 'accepted'
    except sqlite3.IntegrityError as e:
        got = 'rejected: {}'.format(e)
    c.check((got == 'accepted') == ok, key, lambda: '{}, should be {}: {}'.format(
        got, 'accepted' if ok else 'rejected', why))
    c.outcome(ok, got, rows)
    return ok


def close(db):
    if db._connection:
        db._connection.close()
        db._connection = None
    if db.fname and db.fname.exists():
        db.fname.unlink()


def column(c, base):
    """A table with one constrained column."""
    name = c.choose('name', NAMES)
    tr = c.choose('translate', list(TRANSLATE))
    sep = c.choose('separator', [None, ';'])
    required = c.choose('required', [False, True, 'schema', 'table', 'group'])
    where = c.choose('inherited from', ['column', 'schema', 'group']) if not sep else 'column'
    position = c.choose('position', [0, 1])
    others = c.choose('other columns', [0, 1, 2])
    col = {'name': name, 'null': ['NA']}
    inh = {'datatype': base}
    if required is True:
        inh['required'] = True
    if sep:
        inh['separator'] = sep
    cols = [{'name': 'o{}'.format(i), 'datatype': 'string', 'required': False} for i in range(others)]
    cols.insert(min(position, others), col)
    schema_ = {'columns': cols}
    md = {'tables': [{'url': 't', 'tableSchema': schema_}]}
    levels = {'column': col, 'schema': schema_, 'group': md, 'table': md['tables'][0]}
    levels[where].update(inh)
    if isinstance(required, str):
        levels[required]['required'] = True
    tg = TableGroup.fromvalue(md)
    column = next(x for x in tg.tables[0].tableSchema.columns if x.name == name)
    return md, tg, column, name, TRANSLATE[tr], sep, required


def bounds(c):
    """Every type x bounds x value around and at the bounds."""
    typ = c.every('type', list(ORDERED))
    order = ORDERED[typ]
    n = len(order)
    lo = c.every('minimum', [None] + list(range(n)))
    hi = c.every('maximum', [None] + [i for i in range(n) if lo is None or i >= lo])
    prop = c.choose('by', ['minimum', 'minInclusive', 'minExclusive'])
    if lo is None and hi is None or prop == 'minExclusive' and lo == hi:
        return
    alt = c.choose('spelling', [0, -1])
    base = {'base': typ}
    if lo is not None:
        base[prop] = order[lo][alt]
    if hi is not None:
        base[prop.replace('min', 'max')] = order[hi][alt]
    md, tg, col, name, tr, sep, required = column(c, base)
    c.describe(md)
    c.state(md, str(tr))
    std = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [
        {'name': 'x', 'datatype': typ}]}}]}).tables[0].tableSchema.columns[0]
    db = database(c, tg, translate=tr)
    for i, texts in list(enumerate(order)) + [(None, ['NA'])]:
        for text in texts:
            key = json.dumps([md, text])
            value = std.read(text) if i is not None else None
            ok = (lo is None or lo <= i) and (hi is None or i <= hi) if i is not None else not required
            if prop != 'minimum' and i is not None or sep and i is not None:
                ok = True
            rows = [{name: value if not sep or i is None else [value]}]
            if c.tier == 'thorough' and ok:
                rows = rows * 2
            write(c, db, key, ok, {'t': rows}, (base, text))
            if ok:
                got = [dict(r) for rr in db.read().values() for r in rr]
                c.check(len(got) == len(rows) and all(value is None or value in (v if sep else [v]) for r in got for v in [
                    r[(tr or (lambda t, x: x))('t', name)]]), key, lambda: 'reads as {}'.format(got))
            close(db)


def lengths(c):
    """Every text type x length constraints x value."""
    typ = c.every('type', list(TEXTS))
    cons = {}
    for prop in ['length', 'minLength', 'maxLength']:
        v = c.every(prop, [None, 0, 1, 2, 3, 4])
        if v is not None:
            cons[prop] = v
    if not cons:
        return
    if cons.get('minLength', 0) > cons.get('maxLength', 9) or 'length' in cons and not (
            cons.get('minLength', 0) <= cons['length'] <= cons.get('maxLength', 9)):
        return  # not valid
    if c.choose('format', [False, True]):
        if typ in ('json', 'xml', 'html', 'hexBinary', 'base64Binary', 'binary'):
            return
        cons['format'] = '[^z]*'
    md, tg, col, name, tr, sep, required = column(c, dict(cons, base=typ))
    c.describe(md)
    c.state(md, str(tr))
    std = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [
        {'name': 'x', 'datatype': typ, 'null': 'NA'}]}}]}).tables[0].tableSchema.columns[0]
    db = database(c, tg, translate=tr)
    for text in TEXTS[typ] + ['NA']:
        key = json.dumps([md, text])
        value = std.read(text)
        n = len(text) if typ not in ('hexBinary', 'base64Binary', 'binary') else len(value or '')
        if text == 'NA':
            ok = not required
        else:
            ok = bool(sep) or typ in ('base64Binary', 'binary') or (
                n == cons.get('length', n) and cons.get('minLength', n) <= n <= cons.get('maxLength', n))
        if typ == 'json':
            return
        rows = [{name: [value] if sep and text != 'NA' else value}]
        write(c, db, key, ok, {'t': rows}, (cons, text))
        close(db)


KEYS = {
    'string': ['a', 'b', ''],
    'integer': ['1', '0', '2'],
    'decimal': ['1.5', '0', '10'],
    'date': ['2000-01-02', '2000-01-03', '0999-01-01'],
    'anyURI': ['x', 'y', 'http://example.org/%20'],
    'hexBinary': ['00', 'a0', ''],
    'int': ['10', '9', '0'],
    'boolean': ['false', 'true'],
}
KINDS = ['single', 'list', 'composite', 'crossed', 'self', 'self list', 'two', 'primary', 'composite pk', 'none']


def keys(c):
    """Every combination of present, missing, null and duplicate keys in up to 2 x 3 rows."""
    kind = c.every('kind', KINDS)
    typ = c.choose('type', list(KEYS))
    tr = c.choose('translate', [None, 'prefix'])
    order = c.choose('tables', ['pt', 'tp'])
    enforce = c.choose('enforce self references', [False, True])
    required = c.choose('required', [False, True])
    split = c.choose('in', ['one write', 'two writes'])
    col = {'datatype': typ, 'null': ['NA']}
    p = {'columns': [dict(col, name='id'), {'name': 'n', 'null': ['NA']}], 'primaryKey': ['id']}
    t = {'columns': [dict(col, name='id')], 'primaryKey': ['id']}
    if kind == 'composite pk':
        t = {'columns': [dict(col, name='id'), {'name': 'm'}], 'primaryKey': ['m', 'id']}
    refs = {}

    def fk(cols, table, ref):
        t.setdefault('foreignKeys', []).append(
            {'columnReference': cols, 'reference': {'resource': table, 'columnReference': ref}})
        refs[tuple(cols)] = (table, ref)

    if kind in ('single', 'two'):
        t['columns'].append(dict(col, name='f'))
        fk(['f'], 'p', ['id'])
    if kind in ('list', 'two'):
        name = 'f' if kind == 'list' else 'g'
        t['columns'].append(dict(col, name=name, separator=';'))
        fk([name], 'p', ['id'])
    if kind in ('self', 'self list'):
        t['columns'].append(dict(col, name='f', **({'separator': ';'} if kind == 'self list' else {})))
        fk(['f'], 't', ['id'])
    if kind in ('composite', 'crossed'):
        p['primaryKey'] = ['id', 'n']
        names = ['f', 'g'] if kind == 'composite' else ['z', 'g']
        t['columns'].extend([dict(col, name=names[0]), {'name': names[1], 'null': ['NA']}])
        fk(names, 'p', ['id', 'n'])
    if kind == 'primary':  # the primary key is a foreign key, too
        fk(['id'], 'p', ['id'])
    if required:
        t['columns'][-1]['required'] = True
    tables = {'p': p, 't': t}
    md = {'tables': [{'url': n, 'tableSchema': tables[n]} for n in order]}
    tg = TableGroup.fromvalue(md)
    val = tg.tabledict['p'].tableSchema.columns[0].read
    vals = [val(s) for s in KEYS[typ]]
    cols = [x['name'] for x in t['columns']]
    prows = [{'id': v, 'n': 'n'} for v in vals[:c.every('parents', [1, 0, 2])]]
    if kind in ('composite', 'crossed') and c.choose('same id', [False, True]):
        prows = [dict(r, id=vals[0], n='n{}'.format(i) if i else 'n') for i, r in enumerate(prows)]
    if c.choose('duplicate parent', [False, True]):
        prows.extend(prows[:1])
    trows = []
    nrows = c.every('rows', [1, 2] if c.tier == 'quick' else [1, 2, 3])
    for i in range(nrows):
        row = {'id': vals[(i if c.every('id{}'.format(i), ['new', 'old']) == 'new' else 0) % len(vals)]}
        if kind == 'composite pk':
            row['m'] = c.every('m{}'.format(i), ['x', 'y'])
        for name in cols[1:]:
            if name == 'm':
                continue
            isl = any(x['name'] == name and 'separator' in x for x in t['columns'])
            if isl:
                opts = [[], vals[:1], [vals[1], vals[0]], vals[1:], vals[:1] * 2]
                if required:
                    opts = opts[1:]
                row[name] = c.choose('{}{}'.format(name, i), opts) if kind == 'two' else c.every(
                    '{}{}'.format(name, i), opts)
            elif name == 'g':
                row[name] = c.every('{}{}'.format(name, i), ['n', None, 'n1'])
            else:
                row[name] = c.every('{}{}'.format(name, i), vals[:2] + [None])
        trows.append(row)

    # The verdict
    def dup(rows, pk):
        ids = [tuple(repr(r[k]) for k in pk) for r in rows]
        return len(set(ids)) < len(ids)

    problems = []
    if dup(prows, p['primaryKey']):
        problems.append('duplicate in p')
    if dup(trows, t['primaryKey']):
        problems.append('duplicate in t')
    for names, (target, ref) in refs.items():
        for i, row in enumerate(trows):
            values = [row[n] for n in names]
            if isinstance(values[0], list):
                there = [[r[ref[0]]] for r in (prows if target == 'p' else trows)]
                wanted = [[v] for v in values[0]]
            else:
                if any(v is None for v in values):
                    continue
                if target == 't' and not enforce:
                    continue
                there = [[r[k] for k in ref] for r in (prows if target == 'p' else trows[:i + 1])]
                wanted = [values]
            for w in wanted:
                if w not in there:
                    problems.append('{} not in {}'.format(w, there))
    if required:
        name = cols[-1]
        if any(r[name] is None for r in trows):
            problems.append('required')
        if any(name == 'g' and isinstance(r[name], list) for r in trows):
            pass
    key = json.dumps([kind, md, repr(prows), repr(trows), enforce, split])
    c.describe((kind, typ, prows, trows))
    c.state(kind, typ, prows, trows, enforce, required)
    db = database(c, tg, translate=TRANSLATE[tr], drop_self_referential_fks=not enforce)
    ok = not problems
    if split == 'two writes' and not db.fname:
        if dup(prows, p['primaryKey']):
            return
        db.write(p=prows)
        write(c, db, key, ok, {'t': trows}, problems)
        got = db.read()
    else:
        write(c, db, key, ok, {'t': trows, 'p': prows}, problems)
        if ok:
            got = db.read()
    if ok and kind != 'none' and c.choose('delete', [False, True]):
        # Deleting rows which are referenced deletes the ones referencing them (and the lists' items).
        deletions(c, key, db, kind, TRANSLATE[tr] or (lambda x, y=None: y or x), prows, trows, refs, enforce)
    elif ok:
        name = TRANSLATE[tr] or (lambda x, y=None: y or x)
        c.check(len(got.get(name('t'), [])) == len(trows) and len(got.get(name('p'), [])) == len(prows), key,
                lambda: 'got {}'.format(got))
    close(db)


def deletions(c, key, db, kind, name, prows, trows, refs, enforce):
    target = 't' if kind.startswith('self') else 'p'
    if not (prows if target == 'p' else trows):
        return
    with contextlib.ExitStack() as stack:
        conn = db.connection()
        if db.fname:
            conn = stack.enter_context(conn)
        conn.execute('PRAGMA foreign_keys = ON')
        first = conn.execute('SELECT "{}" FROM "{}" ORDER BY rowid'.format(
            name(target, 'id'), name(target))).fetchone()[0]
        conn.execute('DELETE FROM "{}" WHERE "{}" = ?'.format(name(target), name(target, 'id')), (first,))
        conn.commit()
    gone = (prows if target == 'p' else trows)[0]['id']
    left = [r for r in trows if target == 'p' or r['id'] != gone]
    n = None
    while n != len(left):
        n = len(left)
        for names in refs:
            if not isinstance(trows[0][names[0]], list) and (target == 'p' or enforce):
                ids = [r['id'] for r in left] if target == 't' else [r['id'] for r in prows if r['id'] != gone]
                left = [r for r in left if any(r[x] is None for x in names) or r[names[0]] in ids]
    for r in left:
        for names in refs:
            if isinstance(r[names[0]], list):
                r[names[0]] = [v for v in r[names[0]] if v != gone]
    got = [dict(r) for r in db.read().get(name('t'), [])]
    exp = [{name('t', k): v for k, v in r.items()} for r in left]
    c.check(sorted(map(repr, map(sorted_items, got))) == sorted(map(repr, map(sorted_items, exp))), key,
            lambda: 'after the deletion of {}: {}, expected {}'.format(gone, got, exp))


def sorted_items(d):
    return sorted((k, repr(v)) for k, v in d.items())


def order(c):
    """All graphs of references between 4 tables, in all orders of the tables."""
    n = c.every('n', [1, 2, 3] if c.tier == 'quick' else [1, 2, 3, 4])
    if c.tier == 'quick' and c.flag('four'):
        n = 4
    names = ['b', 'a', 'd', 'c'][:n]
    kinds = [None, 'fk'] + (['list'] if n < 4 else [])
    perm, rest = [], list(names)
    while rest:
        x = c.choose('next', rest) if n == 4 else c.every('next', rest)
        rest.remove(x)
        perm.append(x)
    tables = {x: {'columns': [{'name': 'id'}], 'primaryKey': ['id']} for x in names}
    edges = {}
    for x in names:
        for y in names:
            if x == y:
                k = c.choose('self', [None, 'fk', 'list'])
            elif n == 4 and c.tier == 'quick':
                k = c.choose('edge', kinds) if (x, y) not in list(zip('ba', 'ad')) else c.every('edge', kinds)
            else:
                k = c.every('edge', kinds)
            if k:
                edges[x, y] = k
                col = {'name': 'to_' + y}
                if k == 'list':
                    col['separator'] = ' '
                tables[x]['columns'].append(col)
                tables[x].setdefault('foreignKeys', []).append({
                    'columnReference': [col['name']], 'reference': {'resource': y, 'columnReference': ['id']}})
    verdict(c, perm, tables, edges, c.choose('drop', [True, False]))


def large(c):
    """Many tables, in the worst order."""
    n = c.every('tables', [99, 100, 101, 150])
    shape = c.every('shape', ['chain', 'star', 'lists', 'cycle'])
    names = ['t{}'.format(i) for i in range(n)]
    tables = {x: {'columns': [{'name': 'id'}, {'name': 'f'}], 'primaryKey': ['id']} for x in names}
    edges = {}
    for i, x in enumerate(names):
        y = names[0] if shape == 'star' else names[(i + 1) % n]
        if (i == n - 1 and shape != 'cycle') or x == y:
            continue
        if shape == 'lists':
            tables[x]['columns'][1]['separator'] = ' '
        edges[x, y] = 'list' if shape == 'lists' else 'fk'
        tables[x]['foreignKeys'] = [
            {'columnReference': ['f'], 'reference': {'resource': y, 'columnReference': ['id']}}]
    verdict(c, names, tables, edges, True)


def verdict(c, perm, tables, edges, drop):
    key = json.dumps([perm, sorted(map(list, edges)), sorted(edges.values()), drop])
    c.describe((perm, sorted(edges.items())))
    c.state(perm, sorted(edges.items()), drop)
    # Is there a cycle, other than from a table to itself?
    left = set(perm)
    while left:
        free = {x for x in left if not any(
            k == 'fk' and a == x and b in left and b != x for (a, b), k in edges.items())}
        if not free:
            break
        left -= free
    tg = TableGroup.fromvalue({'tables': [{'url': n, 'tableSchema': tables[n]} for n in perm]})
    try:
        db = Database(tg, drop_self_referential_fks=drop)
        got = [t.name for t in db.tables]
    except ValueError:
        got = None
    c.tick()
    c.check((got is None) == bool(left), key, lambda: 'cyclic: {}, got {}'.format(bool(left), got))
    c.outcome(got)
    if got is None:
        return
    c.check(sorted(got) == sorted(perm + ['{}_{}'.format(a, b) for (a, b), k in edges.items() if k == 'list']),
            key, lambda: 'tables {}'.format(got))
    for (a, b), k in edges.items():
        ok = got.index(b) <= got.index(a) if k == 'fk' else max(got.index(a), got.index(b)) < got.index(
            '{}_{}'.format(a, b))
        c.check(ok, key, lambda: '{} before {}: {}'.format(a, b, got))
    # and rows can be written in this order, including references to everything
    rows = {}
    for x in perm:
        rows[x] = [{'id': x + '1'}]
        for (a, b), k in edges.items():
            if a == x:
                name = 'f' if len(perm) > 4 else 'to_' + b
                rows[x][0][name] = [b + '1'] if k == 'list' else b + '1'
    db.write(**rows)
    back = db.read()
    for x in perm:
        for col in tables[x]['columns']:
            rows[x][0].setdefault(col['name'], None)
    c.check({k: [dict(r) for r in v] for k, v in back.items()} == rows, key, lambda: 'rows {}'.format(back))
    # ... the schema object is the same for a function and a database
    c.check([t.name for t in schema(tg, drop_self_referential_fks=drop)] == got, key, 'schema()')
    close(db)


def names(c):
    """The SQL of a table mentions every column, key and constraint (whatever the names)."""
    cols = [c.every('c{}'.format(i), NAMES[i:] + NAMES[:i]) for i in range(2)]
    if len(set(cols)) < 2:
        return
    tname = c.choose('table', ['t', 'order', "it's", 'x y', 'a.csv', 'select'])
    pname = c.choose('parent', ['p', 'group', 'p q', "p's"])
    tr = c.choose('translate', [None, 'prefix'])
    kind = c.choose('kind', ['single', 'list'])
    md = {'tables': [
        {'url': pname, 'tableSchema': {'columns': [{'name': cols[0]}], 'primaryKey': [cols[0]]}},
        {'url': tname, 'tableSchema': {
            'columns': [{'name': cols[0], 'datatype': {'base': 'string', 'maxLength': 3}}, dict(
                {'name': cols[1]}, **({'separator': '|'} if kind == 'list' else {}))],
            'primaryKey': [cols[0]],
            'foreignKeys': [{'columnReference': cols[1], 'reference': {
                'resource': pname, 'columnReference': cols[0]}}]}}]}
    key = json.dumps([md, tr])
    c.describe(md)
    c.state(md, tr)
    tg = TableGroup.fromvalue(md)
    translate = TRANSLATE[tr]
    db = database(c, tg, translate=translate)
    for ok, v, w in [(True, 'abc', 'a'), (False, 'abcd', 'a'), (False, 'abc', 'b'), (True, 'x', 'a')]:
        rows = {pname: [{cols[0]: 'a'}], tname: [{cols[0]: v, cols[1]: [w] if kind == 'list' else w}]}
        if write(c, db, key, ok, rows, rows):
            tt = translate or (lambda t, x=None: x or t)
            got = db.read()
            exp = {tt(t): [{tt(t, k): x for k, x in r.items()} for r in rr] for t, rr in rows.items()}
            c.check({k: [dict(r) for r in rr] for k, rr in got.items()} == exp, key, lambda: 'got {}'.format(got))
        close(db)


HARNESSES = [
    Harness('bounds', bounds, 1, 2),
    Harness('lengths', lengths, 1, 2),
    Harness('keys', keys, 1, 2),
    Harness('order', order, 1, 2),
    Harness('large', large, None),
    Harness('names', names, 1, 2),
]
