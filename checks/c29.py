import io
import re
import json
import copy
import shutil
import pathlib
import warnings
import functools
import contextlib

from mc.explore import Harness

from csvw import CSVW, Table, TableGroup, Column, Datatype, Link, URITemplate, NaturalLanguage
from csvw.metadata import Dialect, ForeignKey
from csvw.db import Database
from csvw.utils import metadata2markdown

ASSUMPTIONS = [
    'properties are set to values of the types they have after loading; parts added to a '
    'description are linked to their parent (`_parent`), as is done when loading',
    'CSVW.warnings collects the messages of the last validation; the list itself is not compared',
]
CSVW_NS = 'http://www.w3.org/ns/csvw'
A = """#first comment
id,refs,n,when,flag
a1,b1 b2,1,2020-01-01,yes
a2,,-,,no
#second comment
a3,b2,30,2021-12-31,
"""
B = """id,name
b1,"x ""q"" y"
b2, "z" \\w
"""
GROUP = {
    '@context': [CSVW_NS, {'@language': 'en'}],
    'dc:title': 'dataset',
    'dialect': {'commentPrefix': '#'},
    'tables': [
        {
            'url': 'a.csv',
            'dc:description': 'table a',
            'tableSchema': {
                'columns': [
                    {'name': 'id', 'titles': {'en': ['ID']}},
                    {'name': 'refs', 'separator': ' '},
                    {'name': 'n', 'datatype': {'base': 'integer', 'maximum': '50'}, 'null': ['-']},
                    {'name': 'when', 'datatype': 'date'},
                    {'name': 'flag', 'datatype': {'base': 'boolean', 'format': 'yes|no'}},
                    {'name': 'v', 'virtual': True, 'valueUrl': 'http://example.org/{id}',
                     'propertyUrl': 'http://example.org/p'},
                ],
                'primaryKey': ['id'],
                'foreignKeys': [{
                    'columnReference': ['refs'],
                    'reference': {'resource': 'b.csv', 'columnReference': ['id']}}],
                'aboutUrl': '#{id}',
            }
        },
        {
            'url': 'b.csv',
            'notes': [{'a': 1}],
            'tableSchema': {
                'columns': [{'name': 'id'}, {'name': 'name', 'dc:description': 'the name'}],
                'primaryKey': ['id'],
            }
        },
    ],
}


# -- variants of the dataset: (metadata, data files) ---------------------------------------------
def variant(name):
    md, files = copy.deepcopy(GROUP), {'a.csv': A, 'b.csv': B, 'c.csv': A.replace('b2', 'b1')}
    if name == 'errors':
        files['a.csv'] = A.replace('a3', 'a1').replace('b2,30', 'bx,30').replace('2021-12-31', 'x')
    elif name == 'base':
        md['@context'][1]['@base'] = 'sub/'
        files = dict(
            {'sub/' + k: v for k, v in files.items()},
            **{'sub/sub/' + k: v.replace('1', '7') for k, v in files.items()},
            **{k: v.replace('1', '5') for k, v in files.items()})
    elif name == 'dialect':
        md['dialect'] = {'commentPrefix': '#', 'skipInitialSpace': True, 'trim': True}
        md['tables'][1]['dialect'] = {
            'doubleQuote': False, 'encoding': 'latin-1', 'lineTerminators': '\r\n'}
        files['b.csv'] = 'id,name\r\nb1,"x \\"q\\" \xe9"\r\nb2 , z\r\n'
    elif name == 'titles':
        for t in md['tables']:
            for col in t['tableSchema']['columns']:
                if col.get('virtual') or col['name'] in ('id', 'refs'):
                    continue
                col['titles'] = [col.pop('name')]
    return md, files


VARIANTS = ['plain', 'errors', 'base', 'dialect', 'titles']
ENCODING = {'dialect': 'latin-1'}


def create(d, md, files, encoding, single=False):
    for name, text in files.items():
        p = d / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(text.encode(
            encoding if encoding and name.endswith('b.csv') else 'utf8'))
    (d / 'md.json').write_text(json.dumps(md), encoding='utf8')


def single(md, n=0):
    res = dict(copy.deepcopy(md['tables'][n]))
    for k, v in copy.deepcopy(md).items():
        if k not in ('tables', 'dc:title'):
            res.setdefault(k, v)
    res['tableSchema'].pop('foreignKeys', None)
    return res


LOADERS = {
    'TableGroup': lambda d: TableGroup.from_file(d / 'md.json'),
    'TableGroup/str': lambda d: TableGroup.from_file(str(d / 'md.json')),
    'Table': lambda d: Table.from_file(d / 'md.json'),
    'CSVW': lambda d: CSVW(str(d / 'md.json'), validate=True),
    'CSVW/Table': lambda d: CSVW(str(d / 'md.json'), validate=True),
}


def parts(obj):
    """The description and the tables of whatever was loaded."""
    desc = obj.t if isinstance(obj, CSVW) else obj
    return desc, (desc.tables if isinstance(desc, TableGroup) else [desc])


# -- operations ----------------------------------------------------------------------------------
class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg):
        self.msgs.append(msg)
    error = warning


def plain(v, d):
    """Values such that types and order matter, but not the scratch directory `d`."""
    if isinstance(v, dict):
        return ['dict', [(k, plain(x, d)) for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [plain(x, d) for x in v]]
    if v is None or isinstance(v, (int, float, bool)):
        return [type(v).__name__, v]
    return [type(v).__name__, (repr(v) if not isinstance(v, (str, pathlib.Path)) else str(v)).replace(
        str(d), 'DIR')]


def rows(table, **kw):
    res = []
    try:
        for row in table.iterdicts(**kw):
            res.append(row)
    except Exception as e:
        res.append(('error', type(e).__name__, str(e)))
    return res


OPS = {}


def op(on=None):
    def wrap(f):
        OPS[f.__name__] = (on, f)
        return f
    return wrap


@op()
def iterate(obj, d):
    return [rows(t) for t in parts(obj)[1]]


@op()
def lenient(obj, d):
    return [rows(t, strict=False, with_metadata=True) for t in parts(obj)[1]]


@op()
def logged(obj, d):
    log = Log()
    return [[rows(t, log=log) for t in parts(obj)[1]], log.msgs]


@op()
def partial(obj, d):
    res = []
    for t in parts(obj)[1]:
        it = t.iterdicts(with_metadata=True)
        try:
            res.append(next(it, None))
        except ValueError as e:
            res.append(str(e))
        it.close()
    return res


@op()
def interleaved(obj, d):
    res = []
    for t in parts(obj)[1]:
        i1, i2 = iter(t), t.iterdicts(strict=False)
        try:
            for r1 in i1:
                res.append((r1, next(i2)))
                res.append(next(i2, None))
                for x in t:
                    res.append(x)
        except (ValueError, StopIteration) as e:
            res.append(str(e))
    return res


@op()
def mutilated(obj, d):
    """Changing the rows yielded must not matter."""
    for t in parts(obj)[1]:
        for row in t.iterdicts(strict=False):
            for k, v in list(row.items()):
                if isinstance(v, list):
                    v.append(1)
                row[k] = 'changed'
            row.clear()
    return None


@op()
def elsewhere(obj, d):
    return [rows(t, fname=d / 'c.csv', strict=False) for t in parts(obj)[1]]


@op()
def primary_key(obj, d):
    log, res = Log(), []
    for t in parts(obj)[1]:
        try:
            res.append(t.check_primary_key(log=log))
        except KeyError as e:
            res.append(str(e))
    return res, log.msgs


@op('group')
def integrity(obj, d):
    desc, _ = parts(obj)
    log = Log()
    return [desc.check_referential_integrity(log=log, strict=s) for s in (True, False)], log.msgs


@op('group')
def read(obj, d):
    try:
        return parts(obj)[0].read()
    except ValueError as e:
        return str(e)


@op()
def serialize(obj, d):
    desc, _ = parts(obj)
    return [desc.asdict(), desc.asdict(omit_defaults=False)]


@op()
def to_file(obj, d):
    desc, _ = parts(obj)
    out = d.parent / 'out.json'
    desc.to_file(out)
    res = out.read_text(encoding='utf8')
    desc.to_file(str(out), omit_defaults=False)
    return res, out.read_text(encoding='utf8')


@op('csvw')
def validate(obj, d):
    return obj.is_valid


@op('csvw')
def to_json(obj, d):
    return obj.to_json()


@op('csvw')
def minimal(obj, d):
    return obj.to_json(minimal=True)


@op('csvw')
def tablegroup(obj, d):
    tg = obj.tablegroup
    return [[t.local_name, str(t.base), rows(t)] for t in tg.tables], tg.asdict()


@op('group')
def markdown(obj, d):
    desc, _ = parts(obj)
    return [metadata2markdown(desc), metadata2markdown(desc, link_files=True)]


@op()
def locate(obj, d):
    desc, tables = parts(obj)
    res = []
    for t in tables:
        res.append([
            t.local_name, str(t.base), str(t.url.resolve(t.base)), str(t.tableSchema.columns[0]), re.sub(' at 0x[0-9a-f]+', '', repr(t)),
            [getattr(t.get_column(s), 'header', None)
             for s in ('id', 'ID', 'n', 'name', 'http://example.org/p', 'x')],
            list(t.tableSchema.columndict),
            t.tableSchema.inherit('aboutUrl') and str(t.expand(
                t.tableSchema.inherit('aboutUrl'), {'id': 'i', 'n': 1}, _row=5)),
            [c.inherit('datatype') and c.inherit('datatype').asdict(omit_defaults=False)
             for c in t.tableSchema.columns],
            [c.inherit_null() for c in t.tableSchema.columns],
            (t.inherit('dialect') or Dialect()).as_python_formatting_parameters(),
        ])
    if isinstance(desc, TableGroup):
        res.append(list(desc.tabledict))
        res.append([(a.local_name, b, c.local_name, e) for a, b, c, e in desc.foreign_keys()])
    return res


@op()
def cells(obj, d):
    res = []
    for t in parts(obj)[1]:
        for c in t.tableSchema.columns:
            for s in ('', '-', '1', 'yes', 'b1 b2', 'b1,b2', '2020-01-01', '60'):
                try:
                    v = c.read(s)
                    res.append((v, c.write(v)))
                except (ValueError, TypeError) as e:
                    res.append(str(e))
    return res


@op()
def to_string(obj, d):
    """Serializing the rows, but not to the file."""
    res = []
    for t in parts(obj)[1]:
        try:
            res.append(t.write(t.iterdicts(strict=False), fname=None))
        except Exception as e:
            res.append(repr(e))
    return res


@op('group')
def load(obj, d):
    desc, _ = parts(obj)
    try:
        db = Database(desc)
        with contextlib.closing(db.connection()):
            db.write_from_tg(_force=True)
            return db.read()
    except Exception as e:
        return type(e).__name__, str(e)


@op()
def copied(obj, d):
    """A copy is independent."""
    desc, tables = parts(obj)
    other = copy.deepcopy(desc)
    res = other == desc
    dialect = parts(other)[1][0]._get_dialect()
    dialect.delimiter = '|'
    other.common_props['x'] = 1
    for t in parts(other)[1]:
        t.tableSchema.columns[:] = []
    return res


def suits(on, obj):
    desc, _ = parts(obj)
    return on is None or (on == 'csvw' and isinstance(obj, CSVW)) or \
        (on == 'group' and isinstance(desc, TableGroup))


# -- changes: of the objects and of the metadata ---------------------------------------------------
CHANGES = {}


def jtab(md, n=0):
    return md['tables'][n] if 'tables' in md else md


def dialect_change(key, value, json_value=None, via='set', on='top'):
    def obj(o):
        desc, tables = parts(o)
        target = desc if on == 'top' else tables[-1]
        if target.dialect is None:
            target.dialect = Dialect()
        if via == 'set':
            setattr(target.dialect, key, value)
        else:
            target.dialect = target.dialect.updated(**{key: value})

    def js(md):
        target = md if on == 'top' else jtab(md, -1)
        target.setdefault('dialect', {})[key] = value if json_value is None else json_value
    CHANGES['dialect {} {!r} {} {}'.format(key, value, via, on)] = (on != 'top', obj, js)


for key, value in [
    ('delimiter', ';'), ('commentPrefix', None), ('commentPrefix', 'a'), ('quoteChar', "'"),
    ('quoteChar', None), ('doubleQuote', False), ('skipRows', 2), ('header', False),
    ('skipColumns', 1), ('trim', 'true'), ('trim', 'end'), ('skipBlankRows', True),
    ('skipInitialSpace', True), ('lineTerminators', ['\r\n']), ('lineTerminators', '|'),
    ('encoding', 'utf-16'),
]:
    for via in ('set', 'updated'):
        dialect_change(key, value, via=via)
        dialect_change(key, value, via=via, on='table')
dialect_change('trim', True, via='updated')
dialect_change('trim', False, via='updated', on='table')


def column_change(name, col, key, value, json_value=None, datatype=False):
    def find(columns, get):
        for c in columns:
            if get(c) == col:
                return c
        return columns[0]

    def obj(o):
        c = find(parts(o)[1][0].tableSchema.columns, lambda c: c.name)
        c = c.inherit('datatype') if datatype else c
        if c is not None:
            setattr(c, key, value() if callable(value) else value)

    def js(md):
        c = find(jtab(md)['tableSchema']['columns'], lambda c: c.get('name'))
        if datatype:
            if 'datatype' not in c:
                return
            if isinstance(c['datatype'], str):
                c['datatype'] = {'base': c['datatype']}
            c = c['datatype']
        v = json_value if json_value is not None else value
        if v is None:
            c.pop(key, None)
        else:
            c[key] = v
    CHANGES['column {} {} {}'.format(name, col, key)] = (False, obj, js)


column_change('', 'n', 'datatype', lambda: Datatype.fromvalue('string'), 'string')
column_change('decimal', 'n', 'datatype', lambda: Datatype.fromvalue('decimal'), 'decimal')
column_change('none', 'n', 'datatype', None)
column_change('', 'n', 'null', [''], [''])
column_change('', 'when', 'required', True)
column_change('', 'n', 'default', '7')
column_change('', 'refs', 'separator', ',')
column_change('none', 'refs', 'separator', None)
column_change('list', 'n', 'separator', '0')
column_change('', 'n', 'name', 'm')
column_change('', 'n', 'titles', lambda: NaturalLanguage('ID'), 'ID')
column_change('', 'n', 'propertyUrl', lambda: URITemplate('http://example.org/q'),
              'http://example.org/q')
column_change('', 'v', 'valueUrl', lambda: URITemplate('{refs}/{n}'), '{refs}/{n}')
column_change('', 'id', 'valueUrl', lambda: URITemplate('x{refs}/{n}'), 'x{refs}/{n}')
column_change('', 'n', 'suppressOutput', True)
column_change('', 'flag', 'virtual', True)
column_change('', 'n', 'base', 'decimal', datatype=True)
column_change('', 'n', 'maximum', 2, '2', datatype=True)
column_change('', 'flag', 'format', 'no|yes', datatype=True)
column_change('dt', 'n', 'minimum', 2, '2', datatype=True)




def other(name, obj, js, group=False):
    CHANGES[name] = (group, obj, js)


def tab(o, n=0):
    return parts(o)[1][n]


def schema(o, n=0):
    return tab(o, n).tableSchema


def jschema(md, n=0):
    return jtab(md, n)['tableSchema']


def put(d, **kw):
    d.update(kw)


FK = {'columnReference': ['n'], 'reference': {'resource': 'b.csv', 'columnReference': ['id']}}
other('primaryKey', lambda o: setattr(schema(o), 'primaryKey', ['n', 'when']),
      lambda md: put(jschema(md), primaryKey=['n', 'when']))
other('no primaryKey', lambda o: setattr(schema(o), 'primaryKey', None),
      lambda md: jschema(md).pop('primaryKey'))
other('aboutUrl', lambda o: setattr(schema(o), 'aboutUrl', URITemplate('x#{n}')),
      lambda md: put(jschema(md), aboutUrl='x#{n}'))
other('rowTitles', lambda o: schema(o).rowTitles.append('n'),
      lambda md: put(jschema(md), rowTitles=['n']))
other('add_foreign_key', lambda o: tab(o).add_foreign_key('id', 'b.csv', 'id'),
      lambda md: jschema(md).setdefault('foreignKeys', []).append(
          dict(FK, columnReference=['id'])), True)
other('no foreignKeys', lambda o: schema(o).foreignKeys.clear(),
      lambda md: jschema(md).pop('foreignKeys'), True)
other('foreignKey replaced', lambda o: setattr(schema(o), 'foreignKeys', [ForeignKey.fromdict(FK)]),
      lambda md: put(jschema(md), foreignKeys=[FK]), True)
other('foreignKey column',
      lambda o: setattr(schema(o).foreignKeys[0].reference, 'columnReference', ['name']),
      lambda md: put(jschema(md)['foreignKeys'][0]['reference'], columnReference=['name']), True)
other('url', lambda o: setattr(tab(o), 'url', Link('c.csv')), lambda md: put(jtab(md), url='c.csv'))
other('suppressOutput', lambda o: setattr(tab(o), 'suppressOutput', True),
      lambda md: put(jtab(md), suppressOutput=True))
other('common property', lambda o: put(parts(o)[0].common_props, **{'dc:title': 'new'}),
      lambda md: put(md, **{'dc:title': 'new'}))
other('table property', lambda o: put(tab(o).common_props, **{'dc:description': 'new'}),
      lambda md: put(jtab(md), **{'dc:description': 'new'}))
other('notes', lambda o: tab(o).notes.append({'b': [1]}), lambda md: put(jtab(md), notes=[{'b': [1]}]))
other('schema null', lambda o: setattr(schema(o), 'null', ['a1', 'b1']),
      lambda md: put(jschema(md), null=['a1', 'b1']))
other('table null', lambda o: setattr(tab(o), 'null', ['a1', 'yes']),
      lambda md: put(jtab(md), null=['a1', 'yes']))
other('group null', lambda o: setattr(parts(o)[0], 'null', ['a1', 'b1']),
      lambda md: put(md, null=['a1', 'b1']))
other('schema required', lambda o: setattr(schema(o), 'required', True),
      lambda md: put(jschema(md), required=True))
other('group separator', lambda o: setattr(parts(o)[0], 'separator', '-'),
      lambda md: put(md, separator='-'))
other('table default', lambda o: setattr(tab(o), 'default', 'x'),
      lambda md: put(jtab(md), default='x'))
other('group datatype',
      lambda o: setattr(parts(o)[0], 'datatype', Datatype.fromvalue({'base': 'string', 'maxLength': 3})),
      lambda md: put(md, datatype={'base': 'string', 'maxLength': 3}))
other('group aboutUrl', lambda o: setattr(parts(o)[0], 'aboutUrl', URITemplate('y#{id}')),
      lambda md: put(md, aboutUrl='y#{id}'))
other('group propertyUrl', lambda o: setattr(parts(o)[0], 'propertyUrl', URITemplate('y#{_name}')),
      lambda md: put(md, propertyUrl='y#{_name}'))


def add_column(o):
    s = schema(o, -1)
    s.columns.append(Column.fromvalue({'name': 'extra', 'valueUrl': 'x{id}', 'virtual': True}))
    s.columns[-1]._parent = s
    s.columns[-1]._number = len(s.columns)


other('column added', add_column, lambda md: jschema(md, -1)['columns'].append(
    {'name': 'extra', 'valueUrl': 'x{id}', 'virtual': True}))
other('column removed', lambda o: schema(o).columns.pop(), lambda md: jschema(md)['columns'].pop())


def add_table(o):
    desc, tables = parts(o)
    desc.tables.append(Table.fromvalue({
        'url': 'c.csv', 'tableSchema': {'columns': [{'name': 'id'}, {'name': 'refs'}]}}))
    desc.tables[-1]._parent = desc


other('table added', add_table, lambda md: md['tables'].append({
    'url': 'c.csv', 'tableSchema': {'columns': [{'name': 'id'}, {'name': 'refs'}]}}), True)
other('tables reversed', lambda o: parts(o)[0].tables.reverse(), lambda md: md['tables'].reverse(),
      True)
# Any other file in place of a data file.
FILE_CHANGES = {
    'data edited': lambda d, sub: (d / sub / 'a.csv').write_text(
        A.replace('a2', 'a9').replace('b2', 'zz'), encoding='utf8'),
    'data truncated': lambda d, sub: (d / sub / 'a.csv').write_text('', encoding='utf8'),
    'data removed': lambda d, sub: (d / sub / 'b.csv').unlink()
    if (d / sub / 'b.csv').exists() else None,
}


# -- histories -------------------------------------------------------------------------------------
def snapshot(d):
    return {
        str(p.relative_to(d)): (p.read_bytes() if p.is_file() else None, p.stat().st_mtime_ns)
        for p in sorted(d.rglob('*'))}


def run(name, obj, d):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always', UserWarning)
        try:
            with contextlib.redirect_stdout(io.StringIO()):  # Failing SQL is printed.
                res = OPS[name][1](obj, d)
        except Exception as e:
            res = ['exception', type(e).__name__, str(e)]
    return plain([res, [str(x.message) for x in w if issubclass(x.category, UserWarning)]], d)


EXPECTED = {}


def differ(got, want, path=()):
    """The first place where results differ."""
    if type(got) == type(want) and isinstance(got, (list, tuple)) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return differ(a, b, path + (i,))
    return '{!r} != {!r} at {}'.format(got, want, path)


def load_ds(loader, d):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return LOADERS[loader](d)


def setup(c, variants):
    vname = c.choose('dataset', variants)
    loader = c.choose('loader', list(LOADERS))
    md, files = variant(vname)
    if loader.endswith('Table'):
        md = single(md)
    d = c.dir / 'data'
    d.mkdir()
    create(d, md, files, ENCODING.get(vname))
    return vname, loader, md, d


def expected(c, vname, loader, chname, opname, md, sub):
    """The result of the operation on a freshly loaded dataset."""
    key = (vname, loader, chname, opname)
    if key not in EXPECTED:
        d = c.dir / 'data'
        (d / 'md.json').write_text(json.dumps(md), encoding='utf8')
        EXPECTED[key] = run(opname, load_ds(loader, d), d)
    return EXPECTED[key]


def histories(c, variants, changes, last):
    vname, loader, md, d = setup(c, variants)
    sub = 'sub' if vname == 'base' else ''
    (c.dir / 'data' / 'md.json').write_text(json.dumps(md), encoding='utf8')
    obj = load_ds(loader, d)
    ops = [name for name, (on, _) in OPS.items() if suits(on, obj)]
    chs = [None] + [
        name for name, (group, _, _) in CHANGES.items()
        if not group or isinstance(parts(obj)[0], TableGroup)] + list(FILE_CHANGES) \
        if changes else [None]
    seq = [c.every('first', ops)]
    chname = c.every('change', chs)
    if chname is None:
        seq.append(c.every('second', ops))
    before = snapshot(d)
    for i, name in enumerate(seq):
        want = expected(c, vname, loader, None, name, md, sub)
        got = run(name, obj, d)
        c.tick()
        c.check(got == want, 'history {} {} {}'.format(vname, loader, seq[:i + 1]),
                lambda: '{}, {}: {} result differs from freshly loaded: {}'.format(
                    vname, loader, seq[:i + 1], differ(got, want)))
    after = snapshot(d)
    diff = [k for k in set(before) | set(after)
            if k != 'md.json' and before.get(k) != after.get(k)]
    if (d / 'md.json').read_text(encoding='utf8') != json.dumps(md):
        diff.append('md.json')
    c.check(not diff, 'files {} {}'.format(loader, seq), lambda: str(diff))
    md2 = copy.deepcopy(md)
    if chname in CHANGES:
        CHANGES[chname][2](md2)
        CHANGES[chname][1](obj)
    elif chname:
        FILE_CHANGES[chname](d, sub)
    for name in (ops if last is None else [c.every('last', ops)]):
        want = expected(c, vname, loader, chname, name, md2, sub)
        got = run(name, obj, d)
        c.tick()
        c.trace()
        c.outcome(name, got)
        c.check(got == want, 'history {} {} {} {} {}'.format(vname, loader, seq, chname, name),
                lambda: '{}, {}: after {}, {}, {} differs from freshly loaded: {}'.format(
                    vname, loader, seq, chname, name, differ(got, want)))
    c.state(vname, loader, chname, *seq)
    c.describe({'dataset': vname, 'loader': loader, 'history': seq + [chname, 'all operations']})


def reading(c):
    """Two read-only operations, then each one, in one go."""
    histories(c, VARIANTS, False, None)


def changing(c):
    """An operation, a change of the description or of the data, then each operation."""
    histories(c, VARIANTS[:-1], True, None)


HARNESSES = [
    Harness('reading', reading, 2, 9),
    Harness('changing', changing, 1, 9),
]
