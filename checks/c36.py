import copy
import json
import pickle
import decimal
import warnings
import collections

from mc.explore import Harness

from csvw import TableGroup, Table, Column, Datatype, Link
from csvw.dsv import rewrite
from csvw.db import Database
from csvw.metadata import ForeignKey, Schema, NaturalLanguage, Dialect

ASSUMPTIONS = [
    'a description which is put into another one by hand gets the other one assigned as `_parent`, '
    'and columns without names their number, as the constructors do',
]
CTX = 'http://www.w3.org/ns/csvw'
VALUES = {
    None: ['x', 'y z', '\u00e4'],
    'integer': [1, 22, -3],
    'decimal': [decimal.Decimal('1.5'), decimal.Decimal('2'), decimal.Decimal('-0.25')],
    'boolean': [True, False, True],
}


# -- The operations: on the objects, and on the JSON they should be equivalent to ------------------
OPS = collections.OrderedDict()


def op(name, enabled=lambda md: True):
    def wrap(f):
        OPS[name] = (enabled, f)
        return f
    return wrap


def has(n):
    return lambda md: len(md['tables']) >= n


def names(jt):
    return [c['name'] for c in jt['tableSchema'].get('columns', [])]


def fresh(taken, letters):
    return next((s for s in letters if s not in taken), None)


def attach(tg, t, i=None):
    t._parent = tg
    tg.tables.insert(len(tg.tables) if i is None else i, t)


def jtable(md):
    s = fresh([t['url'] for t in md['tables']], ['a.csv', 'b.csv', 'c.csv', 'd.csv', 'e.csv', 'f.csv'])
    return {'url': s, 'tableSchema': {'columns': [{'name': 'id'}, {'name': 'n', 'datatype': 'integer'}]}}


@op('add table')
def _(tg, md):
    jt = jtable(md)
    attach(tg, Table.fromvalue(copy.deepcopy(jt)))
    md['tables'].append(jt)


@op('insert table')
def _(tg, md):
    jt = jtable(md)
    attach(tg, Table(url=jt['url'], tableSchema=copy.deepcopy(jt['tableSchema'])), 0)
    md['tables'].insert(0, jt)


@op('construct table')
def _(tg, md):
    jt = jtable(md)
    t = Table(url=jt['url'])
    for i, col in enumerate(jt['tableSchema']['columns']):
        add_column(t, Column(name=col['name'], datatype=col.get('datatype')))
    attach(tg, t)
    md['tables'].append(jt)


@op('remove table', has(1))
def _(tg, md):
    jt = md['tables'].pop()
    t = tg.tabledict[jt['url']]
    tg.tables.remove(t)


@op('reverse tables', has(2))
def _(tg, md):
    tg.tables.reverse()
    md['tables'].reverse()


@op('rename table', has(1))
def _(tg, md):
    old, new = md['tables'][0]['url'], fresh([t['url'] for t in md['tables']], ['g.csv', 'h.csv', 'i.csv', 'j.csv', 'k.csv'])
    tg.tables[0].url = Link(new)
    md['tables'][0]['url'] = new
    for t, jt in zip(tg.tables, md['tables']):
        for fk in t.tableSchema.foreignKeys:
            if fk.reference.resource.string == old:
                fk.reference.resource = Link(new)
        for fk in jt['tableSchema'].get('foreignKeys', []):
            if fk['reference']['resource'] == old:
                fk['reference']['resource'] = new


def add_column(t, col, i=None):
    cols = t.tableSchema.columns
    cols.insert(len(cols) if i is None else i, col)
    col._parent = t.tableSchema
    for i, col in enumerate(cols):
        col._number = i + 1


for what, at, col in [
    ('integer', -1, {'datatype': 'integer'}),
    ('decimal', 0, {'datatype': {'base': 'decimal', 'minimum': -5, 'format': '#0.0##'}}),
    ('list', -1, {'separator': ';'}),
    ('boolean', 0, {'datatype': 'boolean', 'titles': 'Is it?', 'required': True}),
    ('null', -1, {'null': ['?'], 'propertyUrl': 'dc:title'}),
]:
    for which in [0, -1]:
        def f(tg, md, which=which, at=at, col=col, what=what):
            t, jt = tg.tables[which], md['tables'][which]
            jcols = jt['tableSchema'].setdefault('columns', [])
            jcol = dict({'name': fresh(names(jt), 'opqrstuvwxyz')}, **col)
            i = last(jt) + 1 if at == -1 else at
            if what in ('list', 'null'):
                new = Column(**jcol)
            elif what == 'boolean':
                new = Column(name=jcol['name'], datatype=Datatype.fromvalue('boolean'), titles=NaturalLanguage('Is it?'), required=True)
            else:
                new = Column.fromvalue(copy.deepcopy(jcol))
            jcols.insert(i, jcol)
            add_column(t, new, i)
        op('add {} column {}'.format(what, which), has(1 if which == 0 else 2))(f)


@op('virtual column', lambda md: has(1)(md) and not any(c.get('virtual') for c in md['tables'][0]['tableSchema'].get('columns', [])))
def _(tg, md):
    col = {'name': 'virt', 'virtual': True, 'valueUrl': 'http://example.org/{id}'}
    add_column(tg.tables[0], Column.fromvalue(dict(col)))
    md['tables'][0]['tableSchema'].setdefault('columns', []).append(col)


def last(jt):
    cols = [c for c in jt['tableSchema'].get('columns', []) if not c.get('virtual')]
    return len(cols) - 1


def some(md):
    return has(1)(md) and last(md['tables'][0]) >= 0


def used(md, jt, name):
    """Is the column part of a key?"""
    return name in jt['tableSchema'].get('primaryKey', []) or any(
        name in fk['columnReference'] for fk in jt['tableSchema'].get('foreignKeys', [])) or any(
        fk['reference']['resource'] == jt['url'] and name in fk['reference']['columnReference']
        for t in md['tables'] for fk in t['tableSchema'].get('foreignKeys', []))


@op('remove column', lambda md: some(md) and last(md['tables'][0]) > 0 and not used(
    md, md['tables'][0], md['tables'][0]['tableSchema']['columns'][last(md['tables'][0])]['name']))
def _(tg, md):
    i = last(md['tables'][0])
    del md['tables'][0]['tableSchema']['columns'][i]
    del tg.tables[0].tableSchema.columns[i]


@op('rename column', lambda md: some(md) and not used(md, md['tables'][0], md['tables'][0]['tableSchema']['columns'][0]['name']))
def _(tg, md):
    new = fresh(names(md['tables'][0]), 'KLMNOPQ')
    md['tables'][0]['tableSchema']['columns'][0]['name'] = new
    tg.tables[0].tableSchema.columns[0].name = new


@op('swap names', lambda md: some(md) and last(md['tables'][0]) > 0 and not any(
    used(md, md['tables'][0], s) for s in names(md['tables'][0])[:2]))
def _(tg, md):
    for (a, b), get in [
        (md['tables'][0]['tableSchema']['columns'][:2], None), (tg.tables[0].tableSchema.columns[:2], True)
    ]:
        if get:
            a.name, b.name = b.name, a.name
        else:
            a['name'], b['name'] = b['name'], a['name']


@op('use')
def _(tg, md):
    # Everything that is derived from the description.
    tg.asdict(), tg.tabledict, tg.base
    for t, jt in zip(tg.tables, md['tables']):
        t.local_name, t.base, t.asdict(), str(t.url), t.tableSchema.columndict
        for col in t.tableSchema.columns:
            t.get_column(col.name), t.get_column('nope'), str(col), col.header, col.inherit('datatype'), col.inherit_null()
        if t.tableSchema.columns:
            t.write(rows(md, jt), fname=None)
    if len(list(tg.tabledict)) == len(tg.tables):
        try:
            tg.foreign_keys(), tg.validate_schema()
        except (KeyError, ValueError):
            pass  # Dangling references


@op('reverse columns', lambda md: some(md) and last(md['tables'][0]) > 0)
def _(tg, md):
    i = last(md['tables'][0]) + 1
    for cols in (md['tables'][0]['tableSchema']['columns'], tg.tables[0].tableSchema.columns):
        cols[:i] = cols[:i][::-1]


@op('titles', some)
def _(tg, md):
    md['tables'][0]['tableSchema']['columns'][0]['titles'] = {'en': ['T 1', 'T 2']}
    tg.tables[0].tableSchema.columns[0].titles = NaturalLanguage({'en': ['T 1', 'T 2']})


@op('more titles', lambda md: some(md) and 'titles' in md['tables'][0]['tableSchema']['columns'][0])
def _(tg, md):
    col = md['tables'][0]['tableSchema']['columns'][0]
    if not isinstance(col['titles'], dict):
        col['titles'] = {'und': [col['titles']]}
    col['titles'] = {k: list(v) for k, v in col['titles'].items()}
    col['titles'].setdefault('de', []).append('Neu')
    tg.tables[0].tableSchema.columns[0].titles.add('Neu', 'de')


@op('separator', lambda md: some(md) and not used(md, md['tables'][0], md['tables'][0]['tableSchema']['columns'][0]['name']))
def _(tg, md):
    md['tables'][0]['tableSchema']['columns'][0]['separator'] = '|'
    tg.tables[0].tableSchema.columns[0].separator = '|'


@op('primary key', lambda md: has(1)(md) and 'id' in names(md['tables'][-1]))
def _(tg, md):
    md['tables'][-1]['tableSchema']['primaryKey'] = ['id']
    tg.tables[-1].tableSchema.primaryKey = ['id']


@op('no primary key', has(1))
def _(tg, md):
    md['tables'][-1]['tableSchema'].pop('primaryKey', None)
    tg.tables[-1].tableSchema.primaryKey = None


def scalar(md, i, name):
    jt = md['tables'][i]
    return any(c['name'] == name and not inherited(md, jt, c, 'separator') and c.get('datatype') == {'n': 'integer'}.get(name) for c in jt['tableSchema'].get('columns', []))


@op('foreign key', lambda md: has(2)(md) and scalar(md, 0, 'n') and scalar(md, -1, 'n'))
def _(tg, md):
    tg.tables[0].add_foreign_key('n', md['tables'][-1]['url'], 'n')
    md['tables'][0]['tableSchema'].setdefault('foreignKeys', []).append(
        {'columnReference': ['n'], 'reference': {'resource': md['tables'][-1]['url'], 'columnReference': ['n']}})


@op('foreign key to id', lambda md: has(2)(md) and scalar(md, 0, 'id') and scalar(md, -1, 'id'))
def _(tg, md):
    fk = {'columnReference': ['id'], 'reference': {'resource': md['tables'][0]['url'], 'columnReference': ['id']}}
    tg.tables[-1].tableSchema.foreignKeys.append(ForeignKey.fromdict(copy.deepcopy(fk)))
    md['tables'][-1]['tableSchema'].setdefault('foreignKeys', []).append(fk)


@op('foreign key of unknown column', has(1))
def _(tg, md):
    try:
        tg.tables[0].add_foreign_key(['id', 'unknown'], md['tables'][-1]['url'], ['id', 'n'])
    except ValueError:
        return
    raise AssertionError('no ValueError')


@op('no foreign keys', lambda md: any(t['tableSchema'].get('foreignKeys') for t in md['tables']))
def _(tg, md):
    for t, jt in zip(tg.tables, md['tables']):
        jt['tableSchema'].pop('foreignKeys', None)
        del t.tableSchema.foreignKeys[:]


@op('schema', has(1))
def _(tg, md):
    if any(used(md, md['tables'][-1], s) for s in names(md['tables'][-1])):
        return
    new = {'columns': [{'name': 'id'}, {'name': 'n', 'datatype': 'integer'}, {'name': 'new', 'default': 'z'}]}
    md['tables'][-1]['tableSchema'] = copy.deepcopy(new)
    t = tg.tables[-1]
    t.tableSchema = Schema.fromvalue(new)
    t.tableSchema._parent = t


@op('dialect', has(1))
def _(tg, md):
    md['tables'][-1]['dialect'] = {'delimiter': ';', 'header': False}
    tg.tables[-1].dialect = Dialect(delimiter=';', header=False)


@op('group dialect')
def _(tg, md):
    md['dialect'] = {'delimiter': '\t', 'quoteChar': "'"}
    tg.dialect = Dialect(delimiter='\t', quoteChar="'")


@op('group null')
def _(tg, md):
    md['null'] = ['NA', '']
    tg.null = ['NA', '']


@op('table separator', lambda md: has(1)(md) and not any(
    used(md, md['tables'][0], s) for s in names(md['tables'][0])))
def _(tg, md):
    md['tables'][0]['separator'] = ','
    tg.tables[0].separator = ','


@op('property', has(1))
def _(tg, md):
    for o, jo in [(tg, md), (tg.tables[0], md['tables'][0])]:
        o.common_props['dc:title'] = {'@value': 'T'}
        jo['dc:title'] = {'@value': 'T'}


COPIES = ['none', 'deepcopy', 'pickle', 'fromvalue', 'file']


# -- The rows of the tables ------------------------------------------------------------------------
def inherited(md, jt, col, prop, default=None):
    for d in (col, jt['tableSchema'], jt, md):
        if prop in d:
            return d[prop]
    return default


def rows(md, jt):
    res = []
    for i in range(3):
        row = collections.OrderedDict()
        for col in jt['tableSchema'].get('columns', []):
            if col.get('virtual'):
                continue
            dt = inherited(md, jt, col, 'datatype')
            dt = dt['base'] if isinstance(dt, dict) else dt
            v = VALUES[dt][i]
            if inherited(md, jt, col, 'separator'):
                v = [[v], [v, v] if col.get('required') or 'default' in col else [], [v, VALUES[dt][0]]][i]
            elif i == 1 and not col.get('required') and 'default' not in col and col['name'] not in ('id', 'n'):
                v = None
            row[col['name']] = v
        res.append(row)
    return res


def plain(rows):
    """Virtual columns and order of columns aside"""
    return [{k: v for k, v in row.items() if k != 'virt'} for row in rows]


def virtual(jt, rows_):
    return not any(c.get('virtual') for c in jt['tableSchema'].get('columns', [])) or all(
        str(r.get('virt')).startswith('http://example.org/') for r in rows_)


def canonical(d):
    """Omitting what is the default."""
    d = json.loads(json.dumps(d))
    for jt in d.setdefault('tables', []):
        schema = jt.setdefault('tableSchema', {})
        schema.setdefault('columns', [])
        for k in ('primaryKey',):
            if isinstance(schema.get(k), str):
                schema[k] = [schema[k]]
        if not schema.get('foreignKeys'):
            schema.pop('foreignKeys', None)
        for fk in schema.get('foreignKeys', []):
            for o in (fk, fk['reference']):
                if isinstance(o['columnReference'], str):
                    o['columnReference'] = [o['columnReference']]
        for col in schema['columns']:
            if isinstance(col.get('datatype'), dict):
                if list(col['datatype']) == ['base']:
                    col['datatype'] = col['datatype']['base']
                elif 'minimum' in col['datatype']:
                    col['datatype']['minimum'] = float(col['datatype']['minimum'])
            if isinstance(col.get('null'), str):
                col['null'] = [col['null']]
            titles = col.get('titles')
            if titles is not None:
                if not isinstance(titles, dict):
                    titles = {'und': titles}
                col['titles'] = {k: [v] if isinstance(v, str) else v for k, v in titles.items()}
    return d


class Log:
    def warning(self, *args):
        pass


def steps(c, n, copies):
    md = {'@context': CTX, 'tables': []}
    start = c.every('start', ['empty', 'json', 'loaded'])
    if start != 'empty':
        md['tables'] = [{'url': 'x.csv', 'tableSchema': {
            'columns': [{'name': 'id'}, {'name': 'n', 'datatype': 'integer'}], 'primaryKey': ['id']}}]
    if start == 'empty':
        tg = TableGroup(at_props={'context': CTX})
    elif start == 'json':
        tg = TableGroup.fromvalue(copy.deepcopy(md))
    else:
        (c.dir / 'first.json').write_text(json.dumps(md), encoding='utf8')
        tg = TableGroup.from_file(c.dir / 'first.json')
    history = [start]
    for i in range(n):
        enabled = [k for k, (e, _) in OPS.items() if e(md)]
        name = c.every('op', ['stop'] + enabled if i else enabled)
        if name == 'stop':
            break
        history.append(name)
        try:
            OPS[name][1](tg, md)
        except AssertionError as e:
            c.check(False, json.dumps(history), str(e))
            return
    how = c.every('copy', copies)
    history.append(how)
    key = json.dumps(history)
    c.describe(history)
    c.state(json.dumps(md, sort_keys=True), how)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if how == 'deepcopy':
            tg = copy.deepcopy(tg)
        elif how == 'pickle':
            tg = pickle.loads(pickle.dumps(tg))
        elif how == 'fromvalue':
            tg = TableGroup.fromvalue(tg.asdict())
        elif how == 'file':
            tg.to_file(c.dir / 'second.json')
            tg = TableGroup.from_file(c.dir / 'second.json')
        behaves(c, key, tg, md)


def behaves(c, key, tg, md):
    """Like the same description in a file."""
    c.tick()
    got, exp = canonical(tg.asdict()), canonical(md)
    c.check(got == exp, key, lambda: 'description {}, expected {}'.format(json.dumps(got), json.dumps(exp)))
    data = {jt['url']: rows(md, jt) for jt in md['tables']}
    described = {jt['url'] for jt in md['tables'] if jt['tableSchema'].get('columns')}
    order = [jt['url'] for jt in md['tables']]
    c.check([t.local_name for t in tg.tables] == order and list(tg.tabledict) == order, key, 'tables')
    # Written, with the edited object and one read from an equivalent file.
    outs = []
    for name in ('edited', 'equal'):
        d = c.dir / name
        d.mkdir()
        if name == 'equal':
            (c.dir / 'equal.json').write_text(json.dumps(md), encoding='utf8')
            obj = TableGroup.from_file(c.dir / 'equal.json')
        else:
            obj = tg
        if md['tables']:
            obj.write(d / 'md.json', **copy.deepcopy(data))
        else:
            obj.to_file(d / 'md.json')
        outs.append({p.name: p.read_bytes() for p in d.iterdir() if p.name != 'md.json'})
        c.check(canonical(json.loads((d / 'md.json').read_text(encoding='utf8'))) == exp, key, name + ' metadata')
        again = TableGroup.from_file(d / 'md.json')
        read = {k: list(v) for k, v in again.read().items()}
        c.check({k: plain(v) for k, v in read.items()} == {k: plain(v) for k, v in data.items()} or not described, key,
                lambda: '{} read: {}, expected {}'.format(name, read, data))
        c.check(all(virtual(jt, read[jt['url']]) for jt in md['tables']), key, name + ' virtual')
        if name == 'edited':
            # The object itself is able to read what it has written, too.
            tg._fname = d / 'md.json'
            read = {k: plain(v) for k, v in tg.read().items()}
            c.check(read == {k: plain(v) for k, v in data.items()} or not described, key, lambda: 'own: {}, expected {}'.format(read, data))
            integrity(c, key, tg, md, data)
            # Columns in another order
            for t, jt in zip(tg.tables, md['tables']):
                dialect = t.inherit('dialect') or Dialect()
                if dialect.header and t.tableSchema.columns:
                    rewrite(d / jt['url'], lambda i, row: row[::-1], dialect=dialect)
                    read = plain(t)
                    c.check(read == plain(data[jt['url']]), key, lambda: 'reversed: {}, expected {}'.format(read, data[jt['url']]))
                    rewrite(d / jt['url'], lambda i, row: row[::-1], dialect=dialect)
    c.check(outs[0] == outs[1], key, lambda: 'files differ: {}'.format(outs))
    database(c, key, tg, md, data)
    c.outcome(sorted(outs[0].items()))


def integrity(c, key, tg, md, data):
    fks = [(jt['url'], fk['columnReference'], fk['reference']['resource'], fk['reference']['columnReference'])
           for jt in md['tables'] for fk in jt['tableSchema'].get('foreignKeys', [])]
    missing = any(target not in data for _, _, target, _ in fks)
    if not missing:
        got = [(t.local_name, ref, target.local_name, tref) for target, tref, t, ref in tg.foreign_keys()]
        c.check(got == fks, key, lambda: 'foreign keys {}, expected {}'.format(got, fks))
        c.check(tg.check_referential_integrity(log=Log()) is True, key, 'integrity')
    for t, jt in zip(tg.tables, md['tables']):
        c.check(t.check_primary_key(log=Log()) is True, key, 'primary key')
    # The last row of each table in turn is dropped, or repeated
    for t, jt in zip(tg.tables, md['tables']):
        url, some = jt['url'], data[jt['url']]
        if not some or not some[0] or missing:
            continue
        t.write(some[:-1])
        dangling = any(target == url != src for src, _, target, _ in fks)
        got = tg.check_referential_integrity(log=Log())
        c.check(got is not dangling, key, lambda: '{} without the last row: integrity {}'.format(url, got))
        t.write(some + some[-1:])
        ok = t.check_primary_key(log=Log())
        c.check(ok is not bool(jt['tableSchema'].get('primaryKey')), key, lambda: '{} with the last row twice: key {}'.format(url, ok))
        t.write(some)


def database(c, key, tg, md, data):
    keys = {jt['url']: jt['tableSchema'].get('primaryKey') for jt in md['tables']}
    for jt in md['tables']:
        if not jt['tableSchema'].get('columns'):
            return
        for fk in jt['tableSchema'].get('foreignKeys', []):
            target = fk['reference']['resource']
            if target not in keys or keys[target] != fk['reference']['columnReference']:
                return
            if target == jt['url'] or any(
                    f['reference']['resource'] == jt['url'] for t in md['tables'] if t['url'] == target
                    for f in t['tableSchema'].get('foreignKeys', [])):
                return  # Cycles
    if not md['tables']:
        return
    db = Database(tg, fname=c.dir / 'db.sqlite')
    db.write(**copy.deepcopy(data))
    got = db.read()
    c.check({k: normal(v) for k, v in got.items()} == {k: normal(v) for k, v in data.items()}, key,
            lambda: 'database {}, expected {}'.format(dict(got), data))


def normal(rows_):
    return sorted(json.dumps({k: v for k, v in row.items() if v not in (None, [])}, sort_keys=True, default=float) for row in rows_)


def built(c):
    """Two steps of building a group of tables, and all that may be done with it."""
    steps(c, 2, COPIES)


def longer(c):
    """More steps"""
    steps(c, 4 if c.tier == 'thorough' else 3, COPIES[:1])


HARNESSES = [
    Harness('built', built, None),
    Harness('longer', longer, None),
]
