import json
import decimal
import warnings

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup

ASSUMPTIONS = [
    'data is valid with respect to the columns; references name columns of the tables by name; '
    'references by schema are not checked, as documented; null items in a list-valued foreign key '
    'are left open',
    'references which do not match the schemas (missing table or column, other number of columns, '
    'other base datatype) are reported instead of checking the data',
]
D = decimal.Decimal
# spec, cells of the key, cells of the reference
INT = ({'datatype': 'integer'}, [('1', 1), ('2', 2), ('', None)],
       [('1', 1), ('01', 1), ('3', 3), ('', None)])
STR = ({}, [('a', 'a'), ('b', 'b'), ('', None)], [('a', 'a'), ('A', 'A'), ('b', 'b'), ('', None)])
DEC = ({'datatype': 'decimal'}, [('1.5', D('1.5')), ('2', D(2)), ('', None)],
       [('1.50', D('1.5')), ('3', D(3)), ('2.0', D(2)), ('', None)])
NUL = ({'null': ['-', 'NA']}, [('a', 'a'), ('', ''), ('-', None)],
       [('a', 'a'), ('', ''), ('b', 'b'), ('NA', None)])
TYPES = {'integer': INT, 'string': STR, 'decimal': DEC, 'null': NUL}
LISTS = {
    'integer': [('1', [1]), ('1;3', [1, 3]), ('', []), ('01;2;2', [1, 2, 2]), ('3;4', [3, 4]), ('2;1', [2, 1])],
    'string': [('a', ['a']), ('a;A', ['a', 'A']), ('', []), ('b;a', ['b', 'a'])],
    'decimal': [('1.50', [D('1.5')]), ('2;3', [D(2), D(3)]), ('', [])],
    'null': [('a', ['a']), ('NA', None), ('b', ['b']), ('', [])],
}
# Foreign keys: (child, columns, parent, columns). The columns of all tables: k, l (keys), f, g.
GRAPHS = {
    'single': [('c', 'f', 'p', 'k')],
    'composite': [('c', 'fg', 'p', 'kl')],
    'crossed': [('c', 'fg', 'p', 'lk')],
    'swapped': [('c', 'gf', 'p', 'lk')],
    'self': [('p', 'f', 'p', 'k')],
    'composite self': [('p', 'fg', 'p', 'kl')],
    'two keys': [('c', 'f', 'p', 'k'), ('c', 'g', 'p', 'l')],
    'same key': [('c', 'f', 'p', 'k'), ('c', 'g', 'p', 'k')],
    'two parents': [('c', 'f', 'p', 'k'), ('c', 'g', 'q', 'k')],
    'two children': [('c', 'f', 'p', 'k'), ('q', 'f', 'p', 'k')],
    'chain': [('c', 'f', 'p', 'k'), ('q', 'f', 'c', 'k')],
    'cycle': [('c', 'f', 'p', 'k'), ('p', 'f', 'c', 'k')],
    'mixed': [('c', 'f', 'p', 'k'), ('c', 'fg', 'p', 'kl')],
    'sorted': [('q', 'f', 'p', 'l'), ('c', 'f', 'p', 'k'), ('c', 'g', 'p', 'l'), ('q', 'g', 'p', 'k')],
    'key of the child': [('c', 'k', 'p', 'k')],
    'none': [],
}


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg):
        self.msgs.append(msg)

    def error(self, msg):
        self.msgs.append('error: ' + msg)


def has_null(key):
    return any(x is None for x in key)


def model(tables, fks, listcols):
    """[(table, line)] of dangling references, number of null keys, references to duplicate keys."""
    dangling, nulls, ambiguous = [], 0, False
    for child, cols, parent, pcols in fks:
        keys = [[row[x] for x in pcols] for _, row in tables[parent]]
        for line, row in tables[child]:
            key = [row[x] for x in cols]
            if has_null(key):
                nulls += 1
                continue
            refs = [key]
            if len(cols) == 1 and isinstance(key[0], list):
                refs = [[x] for x in key[0]]
            for ref in refs:
                n = sum(k == ref for k in keys)
                if n == 0:
                    dangling.append((child, line))
                elif n > 1:
                    ambiguous = True
    return dangling, nulls, ambiguous


def description(fks, typ, lists, pk, order, names):
    def schema(n):
        t = TYPES[typ][0]
        res = {'columns': [dict({'name': x}, **t) for x in 'klfg'[::order]]}
        for col in res['columns']:
            if (n, col['name']) in lists:
                col['separator'] = ';'
        if pk:
            res['primaryKey'] = ['k']
        for child, cols, parent, pcols in fks:
            if child == n:
                res.setdefault('foreignKeys', []).append({
                    'columnReference': cols[0] if len(cols) == 1 and parent == 'p' else list(cols),
                    'reference': {'resource': parent + '.csv', 'columnReference': (
                        pcols[0] if len(pcols) == 1 and child == 'c' else list(pcols))}})
        return res
    return {'tables': [{'url': n + '.csv', 'tableSchema': schema(n)} for n in names]}


def run(c, tg, key, strict, uselog, expected, twice=True):
    dangling, nulls, ambiguous = expected
    ok = not dangling and not (strict and (nulls or ambiguous))
    kw = {'strict': True} if strict else {}
    for turn in (1, 2) if twice else (1,):
        log, exc, res = None, None, None
        if uselog:
            log = kw['log'] = Log()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                res = tg.check_referential_integrity(**kw)
            except ValueError as e:
                exc = e
        c.tick()
        if log:
            c.check(exc is None and res is ok, key, lambda: 'returned {!r} {!r}, expected {}: {}'.format(
                res, exc, ok, expected))
            got = sorted(
                m.split(' ')[0].split('/')[-1] for m in log.msgs if 'is null' not in m)
            exp = sorted('{}.csv:{}'.format(n, line) for n, line in dangling)
            c.check(got == exp, key, lambda: 'reported {}, expected {}'.format(log.msgs, exp))
            c.check(bool(strict and nulls) == any('is null' in m for m in log.msgs), key, lambda: log.msgs)
        elif dangling or (strict and nulls):
            c.check(exc is not None, key, lambda: 'returned {}, expected {}'.format(res, expected))
        else:
            c.check(exc is None and res is ok, key, lambda: 'returned {!r} {!r}, expected {}: {}'.format(
                res, exc, ok, expected))


def integrity(c):
    """Reference graphs x all small contents of the tables taking part."""
    graph = c.choose('graph', list(GRAPHS))
    fks = GRAPHS[graph]
    typ = c.choose('type', list(TYPES))
    lists = set()
    if c.choose('list', [False, True]):
        if graph not in ('single', 'self', 'two children', 'same key', 'chain', 'cycle', 'two parents'):
            return
        lists = {(fk[0], fk[1]) for fk in fks if fk[1] == 'f'}
    pk = c.choose('primary key', [False, True])
    names = c.choose('tables', ['pcq', 'qcp', 'cp'])
    strict = c.choose('strict', [False, True])
    uselog = c.choose('log', [True, False])
    order = c.choose('columns', [1, -1])
    source = c.choose('source', ['plain', 'zip', 'header', 'short'])
    involved = {fk[0] for fk in fks} | {fk[2] for fk in fks}
    if not involved <= set(names):
        return
    keycols = {(fk[2], x) for fk in fks for x in fk[3]}
    refcols = {(fk[0], x) for fk in fks for x in fk[1]}
    _, keycells, refcells = TYPES[typ]
    simple = len(involved) <= 2 and len(keycols | refcols) <= 2
    big = c.tier == 'thorough'
    tables = {}
    text = {}
    for n in names:
        count = 0
        if n in involved:
            count = c.every('rows ' + n, [2, 1, 0, 3] if (simple and n == 'c' and (big or typ == 'integer' and not lists)) else [2, 1, 0])
        tables[n] = []
        head = source == 'header'
        lines = [] if head else [','.join('klfg'[::order])]
        for i in range(count):
            row, cells = {}, []
            for x in 'klfg'[::order]:
                if (n, x) in lists:
                    opts = LISTS[typ]
                elif (n, x) in refcols:
                    opts = refcells
                elif (n, x) in keycols:
                    opts = keycells
                else:
                    opts = [keycells[-1]]
                if not simple and not big:
                    # fewer kinds of cells, if there are many of them
                    opts = [opts[0], opts[-2 + (i % 2)]] if len(opts) > 2 else opts
                    if i == 1 and x == 'g':
                        opts = opts[:1]
                s, v = c.every('cell {}{}{}'.format(n, i, x), opts)
                row[x] = v
                cells.append(s)
            if source == 'short' and typ != 'null':
                while cells and cells[-1] == '':
                    x = 'klfg'[::order][len(cells) - 1]
                    cells.pop()
                    row[x] = None
            lines.append(','.join(cells))
            tables[n].append((len(lines), row))
        text[n] = ''.join(s + '\n' for s in lines)
    md = description(fks, typ, lists, pk, order, names)
    if source == 'header':
        md['dialect'] = {'header': False}
    key = json.dumps([graph, typ, sorted(lists), text, strict, uselog, source])
    c.describe((graph, typ, sorted(lists), text, strict, uselog))
    c.state(graph, typ, sorted(lists), text)
    expected = model(tables, fks, lists)
    c.outcome(graph, expected)
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    for n, s in text.items():
        if source == 'zip':
            import zipfile
            with zipfile.ZipFile(c.dir / (n + '.csv.zip'), 'w') as z:
                z.writestr(n + '.csv', s)
        else:
            (c.dir / (n + '.csv')).write_text(s, encoding='utf8')
    run(c, TableGroup.from_file(c.dir / 'md.json'), key, strict, uselog, expected, twice=simple)


def schemas(c):
    """References which do not match the schemas."""
    problem = c.every('problem', [
        None, 'table', 'column', 'parent column', 'datatype', 'number', 'number2', 'inherited'])
    uselog = c.every('log', [True, False])
    strict = c.every('strict', [True, False])
    where = c.every('position', [0, 1])
    fk = {'columnReference': ['f'], 'reference': {'resource': 'p.csv', 'columnReference': ['k']}}
    p = [{'name': 'k', 'datatype': 'integer'}, {'name': 'l'}]
    ch = [{'name': 'f', 'datatype': 'integer'}, {'name': 'g'}]
    extra = {}
    if problem == 'table':
        fk['reference']['resource'] = 'missing.csv'
    elif problem == 'column':
        fk['columnReference'] = ['x']
    elif problem == 'parent column':
        fk['reference']['columnReference'] = ['x']
    elif problem == 'datatype':
        p[0]['datatype'] = 'string'
    elif problem == 'number':
        fk['columnReference'] = ['f', 'g']
    elif problem == 'number2':
        fk['reference']['columnReference'] = ['k', 'l']
    elif problem == 'inherited':  # no problem
        del p[0]['datatype'], ch[0]['datatype']
        extra = {'datatype': 'integer'}
    fks = [{'columnReference': 'g', 'reference': {'resource': 'p.csv', 'columnReference': 'l'}}]
    fks.insert(where, fk)
    md = {'tables': [
        {'url': 'c.csv', 'tableSchema': dict(columns=ch, foreignKeys=fks, **extra)},
        {'url': 'p.csv', 'tableSchema': dict(columns=p, **extra)}]}
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    (c.dir / 'c.csv').write_text('f,g\n01,5\n', encoding='utf8')
    (c.dir / 'p.csv').write_text('k,l\n1,5\n', encoding='utf8')
    key = json.dumps([md, uselog, strict])
    c.describe((problem, md))
    c.state(md)
    tg = TableGroup.from_file(c.dir / 'md.json')
    ok = problem in (None, 'inherited')
    c.outcome(problem)
    try:
        tg.validate_schema()
        c.check(ok, key, 'schema is not rejected')
    except ValueError:
        c.check(not ok, key, 'schema is rejected')
    log = Log() if uselog else None
    try:
        res = tg.check_referential_integrity(log=log, strict=strict)
    except ValueError:
        c.check(not ok and not uselog, key, 'error')
        return
    c.check(ok or uselog, key, 'no error')
    c.check(res is ok, key, lambda: 'returned {}'.format(res))
    if uselog:
        c.check(bool(log.msgs) == (not ok), key, lambda: log.msgs)


HARNESSES = [
    Harness('integrity', integrity, 2),
    Harness('schemas', schemas, None),
    Harness('sizes', sizes.c20, None),
]
