import io
import re
import copy
import json
import types
import zipfile
import warnings
import fractions
import contextlib

import requests_mock

from mc.explore import Harness
from checks import sizes

from csvw import CSVW
from csvw.__main__ import csvwvalidate

ASSUMPTIONS = [
    'HTTP is answered by a stand-in for the transport adapter of requests (requests_mock)',
    'foreign keys reference tables by resource (schemaReference is not supported by csvw)',
    'columns may be missing in the data unless they are required, and rows may be shorter or longer '
    'than the header; only headers which do not match the titles of a column, or with more cells '
    'than columns described, count as mismatching',
    'headers of columns with a name but without titles are the name',
    'the headers harness covers titles with languages; tables without a language or with language und '
    'and headers which only match titles of some language are not judged',
    'null foreign keys count as invalid (strict validation), empty lists do not',
]
URL = 'http://example.org/d/'
OK, BAD, ERR, NOT = 'valid', 'invalid', 'error', 'invalid or error'

MD = {
    "@context": "http://www.w3.org/ns/csvw",
    "dc:title": "x",
    "tables": [
        {"url": "p.csv", "tableSchema": {
            "columns": [
                {"name": "id", "titles": "id", "datatype": "integer", "required": True},
                {"name": "lang", "titles": {"und": ["lang", "l"]}, "datatype": {"base": "string", "maxLength": 3}},
                {"name": "n", "datatype": {"base": "decimal", "minimum": 0}, "null": "NA"}],
            "primaryKey": "id", "aboutUrl": "#{id}"}},
        {"url": "q.csv", "tableSchema": {
            "columns": [
                {"name": "k"},
                {"name": "pid", "datatype": "integer"},
                {"name": "tags", "separator": ";"},
                {"name": "v", "virtual": True, "valueUrl": "http://x.org/{k}"}],
            "primaryKey": ["k", "pid"],
            "foreignKeys": [{"columnReference": "pid", "reference": {"resource": "p.csv", "columnReference": "id"}}]}}]}
P = [['id', 'lang', 'n'], ['1', 'de', '0.5'], ['2', 'en', 'NA'], ['3', 'fr', '7']]
Q = [['k', 'pid', 'tags'], ['a', '1', 'x;y'], ['a', '2', ''], ['b', '1', 'z']]

DEL = object()
T = ('tables', 0)
S = T + ('tableSchema',)
C0, C1, C2 = [S + ('columns', i) for i in range(3)]
D1, D2 = C1 + ('datatype',), C2 + ('datatype',)
T2 = ('tables', 1)
S2 = T2 + ('tableSchema',)
FK = S2 + ('foreignKeys', 0)
CTX = "http://www.w3.org/ns/csvw"
DESCRIPTION = [  # properties of all kinds of descriptions
    ('foo', 'x', BAD), ('dc:foo', 'x', OK), ('schema:x', {'@value': 'a', '@language': 'en'}, OK), ('@id', '_:x', ERR),
    ('@type', 'Foo', ERR),
]
INHERITED = [
    ('aboutUrl', 5, BAD), ('propertyUrl', 5, BAD), ('valueUrl', 5, BAD), ('separator', 5, BAD), ('default', 5, BAD),
    ('null', 5, BAD), ('null', ['a', 5], BAD), ('textDirection', 'up', BAD), ('textDirection', 'rtl', OK), ('ordered', 'x', BAD),
    ('ordered', True, OK), ('lang', 'xx1-', BAD), ('required', 'x', BAD),
    ('propertyUrl', 'http://x.org/{_name}', OK), ('datatype', 'foo', BAD), ('datatype', {'base': 'foo'}, BAD),
    ('datatype', {'base': 'string', 'foo': 1}, BAD),
    ('datatype', {'base': 'integer', 'minimum': 5, 'maximum': 3}, ERR), ('datatype', {'base': 'integer', 'length': 3}, ERR),
    ('datatype', {'base': 'string', 'minimum': 3}, ERR),
]
# slot -> [(value, verdict)]: what may be changed in the metadata. For valid metadata (no verdict), see judge.
METADATA = {
    ('@context',): [
        (DEL, ERR), ('http://x.org', ERR), ([CTX, {'@language': 'en'}], OK), ([CTX, {'@language': 'xxx-1'}], BAD),
        ([CTX, {'foo': 'x'}], ERR), ([CTX, 5], ERR), ([CTX], OK)],
    ('tables',): [([], ERR), (DEL, ERR), ({}, ERR)],
    ('tableDirection',): [('up', BAD), 'rtl', 'auto'],
    ('notes',): [('x', BAD), ([], OK), ([{'dc:x': 'y'}], OK)],
    ('dialect',): [
        (5, BAD), ({'foo': 1}, BAD), ({'delimiter': 5}, BAD), ({'header': 'x'}, BAD), ({'headerRowCount': -1}, BAD),
        ({'encoding': 'xx'}, BAD), ({'skipRows': -1}, BAD), ({'@id': '_:a'}, ERR), ({'trim': 'zz'}, ERR), ({}, OK),
        ({'delimiter': ','}, OK), ({'trim': True}, OK), ({'doubleQuote': False}, OK), ({'skipBlankRows': True}, OK),
        ({'commentPrefix': '#'}, OK), ({'lineTerminators': ['\n']}, OK)],
    ('transformations',): [('x', BAD), ([], OK)],
    T + ('url',): [(DEL, ERR), (5, ERR)],
    T + ('suppressOutput',): [('x', BAD), (True, OK), (False, OK)],
    T + ('tableDirection',): [('up', BAD), 'ltr'],
    S: [(DEL, OK)],
    S + ('columns',): [({}, BAD)],
    S + ('primaryKey',): [('xx', BAD), (5, BAD), ([], BAD), (DEL, OK), (['id'], OK), (['id', 'lang'], OK), 'lang'],
    S + ('rowTitles',): ['id', (['id', 'lang'], OK)],
    S + ('foreignKeys',): [(5, BAD), ([], OK), ([5], BAD), ([{}], ERR),
                           ([{'columnReference': 'id', 'reference': {'resource': 'p.csv', 'columnReference': 'id'}}], OK)],
    C0 + ('name',): [('_x', BAD), (5, BAD), ('a b', BAD), ('lang', ERR)],
    C0 + ('titles',): [(5, BAD), ({'x1x1': 'y'}, BAD), ({'und': 5}, BAD), 'ID', (['x', 'id'], OK), (DEL, OK)],
    C1 + ('titles',): ['language', ({'en': 'x'}, OK), (DEL, OK), (['lang', 'lang'], OK)],
    C1 + ('virtual',): [('x', BAD)],
    C1 + ('suppressOutput',): [('x', BAD), (True, OK)],
    C1 + ('required',): [(True, OK), (False, OK)],
    D1: ['string', (DEL, OK), ({'base': 'string', 'format': '[a-z]{2}'}, OK), ({'base': 'string', 'format': '['}, BAD),
         ({'base': 'string', 'format': '[a-d]*'}, OK), ({'base': 'string', 'length': 2}, OK), ({'base': 'string', 'length': 3}, OK),
         ({'base': 'string', 'minLength': 3}, OK), ({'base': 'string', 'minLength': 2, 'maxLength': 2}, OK),
         ({'base': 'string', 'length': 'x'}, ERR), ({'base': 'string', 'length': -1}, BAD),
         ({'base': 'string', 'minLength': 3, 'maxLength': 2}, ERR), ({'base': 'string', 'length': 3, 'minLength': 4}, ERR),
         ({'base': 'string', 'length': 3, 'maxLength': 2}, ERR), 'integer', 'date', 'boolean',
         ({'base': 'string', 'format': 5}, BAD), ({'base': 'boolean', 'format': 'x'}, BAD),
         ({'base': 'date', 'format': 'yyy'}, BAD), 'any', 'anyURI', 'language', 'NMTOKEN', 'QName', 'token', 'Name', 'anyAtomicType', 'normalizedString'],
    D2: ['decimal', 'number', 'integer', 'string', (DEL, OK), 'double', 'float',
         ({'base': 'decimal', 'minimum': 1}, OK), ({'base': 'decimal', 'maximum': 7}, OK), ({'base': 'decimal', 'maximum': 6}, OK),
         ({'base': 'decimal', 'maxExclusive': 7}, OK), ({'base': 'decimal', 'minExclusive': 0.5}, OK),
         ({'base': 'decimal', 'minInclusive': 0.5, 'maxInclusive': 7}, OK), ({'base': 'decimal', 'minimum': 'x'}, ERR),
         ({'base': 'decimal', 'minimum': 5, 'minExclusive': 5}, ERR), ({'base': 'decimal', 'maximum': 5, 'maxExclusive': 5}, ERR),
         ({'base': 'decimal', 'minimum': 5, 'maxExclusive': 5}, ERR), ({'base': 'decimal', 'minExclusive': 5, 'maximum': 5}, ERR),
         ({'base': 'decimal', 'format': '0.0x#'}, BAD), ({'base': 'decimal', 'format': '#0.0'}, OK)],
    C2 + ('null',): [(['NA', ''], OK), (['NA', 'x'], OK), (DEL, OK), ''],
    S2 + ('primaryKey',): [(DEL, OK), 'k', 'pid', (['pid', 'k'], OK), (['k', 'pid', 'tags'], OK), 'tags'],
    S2 + ('columns', 0, 'required'): [(True, OK)],
    S2 + ('columns', 1, 'datatype'): ['string', 'int', (DEL, OK), ({'base': 'integer', 'maximum': 1}, OK)],
    S2 + ('columns', 2, 'required'): [(True, OK)],
    S2 + ('columns', 3, 'virtual'): [(False, OK)],
    FK + ('columnReference',): ['xx', 'k', (['pid'], OK), (DEL, ERR), (['pid', 'k'], OK), (5, ERR)],
    FK + ('reference',): [
        ({'resource': 'zz.csv', 'columnReference': 'id'}, OK), ({'resource': 'p.csv', 'columnReference': 'zz'}, OK),
        ({'resource': 'p.csv', 'columnReference': 'lang'}, OK), ({'resource': 'p.csv', 'columnReference': ['id', 'lang']}, OK),
        ({'columnReference': 'id'}, ERR), ({'resource': 'p.csv'}, ERR), ({'resource': 'p.csv', 'columnReference': ['id']}, OK),
        ({'resource': 'p.csv', 'schemaReference': 'x', 'columnReference': 'id'}, ERR),
        ({'resource': 'p.csv', 'columnReference': 'id', 'foo': 1}, ERR)],
    FK + ('foo',): [(1, ERR)],
    FK + ('dc:foo',): [(1, ERR)],
}
for path, props in [((), DESCRIPTION), (T, DESCRIPTION), (S, DESCRIPTION + INHERITED[:6]), (C1, DESCRIPTION + INHERITED)]:
    for name, value, verdict in props:
        if path + (name,) != D1:
            METADATA.setdefault(path + (name,), []).append((value, verdict))
METADATA[D1].extend((v, x) for n, v, x in INHERITED if n == 'datatype')
METADATA['@type',].append('TableGroup')
METADATA[T + ('@type',)].append('Table')
METADATA[C1 + ('@id',)].append('http://x.org/c')
METADATA = {k: [x if isinstance(x, tuple) else (x, OK) for x in v] for k, v in METADATA.items()}

# row, column -> [cell]
DATA = {
    'p': {
        (0, 0): ['ID', '', 'lang'],
        (0, 1): ['xx', 'LANG', '', 'l', ' lang'],
        (0, 3): ['x'],
        (1, 0): ['x', '', '2', '1.0', '+1', '01'],
        (3, 0): ['x', '', '1', '+2', '4'],
        (1, 1): ['abcd', '', '"d,e"', 'a\u0308\u0308'],
        (2, 1): ['abcd'],
        (1, 2): ['-1', 'x', '', 'NA', '0', '-0', '1e1', 'na'],
        (3, 2): ['-0.001', 'NA'],
    },
    'q': {
        (0, 3): ['x', 'v'],
        (1, 1): ['9', '', 'x', '+1', '2', '3'],
        (3, 0): ['a', ''],
        (3, 1): ['9', '', '01'],
        (3, 2): ['', ';;', 'a;b;c'],
    }
}


class World:
    def __init__(self, c, where):
        self.c, self.where = c, where

    def verdict(self, md, files, how, filters=None, single=None, zipped=False):
        with contextlib.ExitStack() as stack:
            m = stack.enter_context(requests_mock.Mocker())
            stack.enter_context(warnings.catch_warnings())
            warnings.simplefilter(filters or 'default')
            stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
            if self.where == 'local':
                for n, text in files.items():
                    p = self.c.dir / n
                    if zipped:
                        with zipfile.ZipFile(str(p) + '.zip', 'w') as z:
                            z.writestr(n, text)
                    else:
                        p.write_text(text, encoding='utf8', newline='')
                p = self.c.dir / ((single + '-metadata.json') if single else 'md.json')
                p.write_text(json.dumps(md), encoding='utf8')
                url = str(self.c.dir / single) if single else str(p)
            else:
                m.head(requests_mock.ANY, status_code=200)
                m.get(requests_mock.ANY, status_code=404)
                for n, text in files.items():
                    m.get(URL + n, text=text)
                name = (single + '-metadata.json') if single else 'md.json'
                m.get(URL + name, text=json.dumps(md))
                url = URL + (single or name)
            if how.startswith('cli'):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    ret = csvwvalidate(types.SimpleNamespace(url=url, verbose='verbose' in how), test=True)
                shown = 'OK' if 'OK' in out.getvalue().splitlines()[0] else 'FAIL'
                self.c.check((shown == 'OK') == (ret == 0) and ret in (0, 1, 2), 'output', lambda: (shown, ret))
                return [OK, BAD, ERR][ret]
            try:
                obj = CSVW(url, validate=True)
            except ValueError:
                return ERR
            res = obj.is_valid
            self.c.check(isinstance(res, bool) and res == (not obj.warnings), 'warnings', lambda: (res, obj.warnings))
            if how == 'twice':
                again = obj.is_valid
                self.c.check(again == res, 'twice', lambda: (res, again))
            return OK if res else BAD


def csv(rows):
    return ''.join(','.join(row) + '\n' for row in rows)


HOWS = ['api', 'twice', 'cli', 'cli verbose']


def set_path(md, path, value):
    """Returns whether the slot exists (still)"""
    o = md
    for k in path[:-1]:
        try:
            o = o[k]
        except (KeyError, IndexError, TypeError):
            return False
        if not isinstance(o, (dict, list)):
            return False
    if isinstance(o, list) != isinstance(path[-1], int):
        return False
    if value is DEL:
        if path[-1] not in o:
            return False
        del o[path[-1]]
    else:
        o[path[-1]] = copy.deepcopy(value)
    return True


class Unknown(Exception):
    pass


# An independent validator, for valid descriptions of the properties varied here

def parse(s, dt):
    """Value of a non-null cell; raises ValueError"""
    dt = {'base': dt} if isinstance(dt, str) else dict(dt or {})
    base, fmt = dt.get('base', 'string'), dt.get('format')
    if base in ('integer', 'int', 'decimal', 'number', 'double', 'float'):
        if base in ('integer', 'int'):
            pattern = '[+-]?[0-9]+'
        elif base == 'decimal':
            pattern = '[+-]?([0-9]+([.][0-9]*)?|[.][0-9]+)'
        else:
            pattern = '[+-]?([0-9]+([.][0-9]*)?|[.][0-9]+)([eE][+-]?[0-9]+)?'
        if fmt == '#0.0':
            pattern = '[+-]?[0-9]+[.][0-9]'
        if not re.fullmatch(pattern, s):
            raise ValueError(s)
        v = fractions.Fraction(s)
        for k, test in [('minimum', v.__ge__), ('minInclusive', v.__ge__), ('minExclusive', v.__gt__),
                        ('maximum', v.__le__), ('maxInclusive', v.__le__), ('maxExclusive', v.__lt__)]:
            if k in dt and not test(fractions.Fraction(str(dt[k]))):
                raise ValueError(s)
        return v
    pattern = {
        'date': '[0-9]{4}-[0-9]{2}-[0-9]{2}', 'boolean': 'true|false|0|1',
        'NMTOKEN': r'[\w.:-]+'}.get(base) or fmt
    if pattern and not re.fullmatch(pattern, s):
        raise ValueError(s)
    if base == 'language' and not s.isalpha():
        raise Unknown  # not validated by csvw
    if not dt.get('length', len(s)) == len(s) or not dt.get('minLength', 0) <= len(s) <= dt.get('maxLength', 99):
        raise ValueError(s)
    return s


def judge(tables, rows, trim=False):
    data, res = {}, OK
    for t in tables:
        if t['url'] not in ('p.csv', 'q.csv', 'u.csv'):
            raise ValueError(t)
        schema = t.get('tableSchema', {})
        cols = [x for x in schema.get('columns', []) if not x.get('virtual')]
        header, body = rows[t['url'][0]][0], rows[t['url'][0]][1:]
        if trim:
            header = [h.strip() for h in header]
        if cols and len(header) > len(cols):
            res = BAD
        for h, col in zip(header, cols):
            titles = col.get('titles')
            if isinstance(titles, dict):
                titles = [x for y in titles.values() for x in (y if isinstance(y, list) else [y])]
            titles = [titles] if isinstance(titles, str) else (titles or [])
            if h != col['name'] and h not in titles:
                if not titles:
                    raise Unknown  # only names: see ASSUMPTIONS
                res = BAD
        if any(col.get('required') and i >= len(header) for i, col in enumerate(cols)):
            res = BAD
        data[t['url']] = items = []
        for row in body:
            item = {}
            for s, col in zip(row[:len(header)], cols):
                if s[:1] == '"':
                    s = s[1:-1]
                null = col.get('null', [''])
                null = [null] if isinstance(null, str) else null
                sep = col.get('separator')
                try:
                    if sep:
                        item[col['name']] = tuple(None if x in null else parse(x, col.get('datatype')) for x in s.split(sep)) if s else ()
                        if col.get('required') and s in null:
                            raise ValueError(s)
                    elif s in null:
                        item[col['name']] = None
                        if col.get('required'):
                            raise ValueError(s)
                    else:
                        item[col['name']] = parse(s, col.get('datatype'))
                except ValueError:
                    res = BAD
            items.append(item)
        pk = schema.get('primaryKey') or []
        pk = [pk] if isinstance(pk, str) else pk
        keys = [tuple(item.get(k) for k in pk) for item in items]
        if pk and len(set(keys)) < len(keys):
            res = BAD
    for t in tables:
        for fk in t.get('tableSchema', {}).get('foreignKeys', []):
            src, ref = fk['columnReference'], fk['reference']['columnReference']
            src, ref = [src] if isinstance(src, str) else src, [ref] if isinstance(ref, str) else ref
            target = [x for x in tables if x['url'] == fk['reference']['resource']]
            if not target or len(src) != len(ref):
                return NOT
            dts = []
            for table, names in [(t, src), (target[0], ref)]:
                cols = {x['name']: x.get('datatype') for x in table.get('tableSchema', {}).get('columns', [])}
                if not set(names) <= set(cols):
                    return NOT
                dts.append([(cols[n] if isinstance(cols[n], (str, type(None))) else cols[n]['base']) for n in names])
            if any(a and b and a != b for a, b in zip(*dts)):
                return NOT
            keys = [tuple(item.get(k) for k in ref) for item in data[target[0]['url']]]
            for item in data[t['url']]:
                key = tuple(item.get(k) for k in src)
                if None in key:
                    res = BAD
                for k in key[0] if len(key) == 1 and isinstance(key[0], tuple) else [key]:
                    if keys.count(k if isinstance(k, tuple) else (k,)) != 1:
                        res = BAD
    return res


def problems(c):
    """A valid dataset with changes of the metadata and the cells."""
    where = c.choose('where', ['local', 'http'])
    how = c.choose('how', HOWS)
    shape = c.choose('shape', ['group', 'table', 'table of csv', 'zipped'])
    if shape == 'zipped' and where == 'http':
        return
    filters = c.choose('filters', [None, 'ignore', 'error'])
    md = copy.deepcopy(MD)
    verdicts, done = [], []
    for path in sorted(METADATA, key=lambda p: (len(p), repr(p))):
        i = c.choose('.'.join(map(str, path)), [None] + list(range(len(METADATA[path]))))
        if i is not None:
            value, verdict = METADATA[path][i]
            if shape.startswith('table'):
                if path[0] == 'tables' and path[1:2] != (0,) or path in (('@type',), ('tables',)):
                    return
                if path == S + ('foreignKeys',):
                    return
                if len(path) == 1 and path[0] != '@context' and T + path in METADATA:
                    return
            if not set_path(md, path, value):
                return
            if where == 'http' and shape == 'table of csv' and path == T + ('url',):
                return  # does not describe the data
            done.append((path, 'DEL' if value is DEL else value))
            verdicts.append(verdict)
    rows = {'p': [list(r) for r in P], 'q': [list(r) for r in Q]}
    for t in 'pq':
        for (i, j), options in DATA[t].items():
            k = c.choose('{}[{}][{}]'.format(t, i, j), [None] + list(range(len(options))))
            if k is not None:
                cell = options[k]
                if shape.startswith('table') and t == 'q':
                    return
                if j == len(rows[t][i]):
                    rows[t][i].append(cell)
                else:
                    rows[t][i][j] = cell
                done.append((t, i, j, cell))
    if ERR in verdicts:
        exp = [ERR]
    elif BAD in verdicts:
        # Remote groups: foreign keys must only use named columns.
        exp = [BAD, ERR] if where == 'http' and not shape.startswith('table') else [BAD]
    else:
        try:
            v = judge(md['tables'][:1] if shape.startswith('table') else md['tables'], rows, md.get('dialect', {}).get('trim'))
        except Unknown:
            return
        exp = [BAD, ERR] if v == NOT else [v]
    if shape.startswith('table'):
        rest = {k: v for k, v in md.items() if k != 'tables'}
        md = dict(rest, **md['tables'][0]) if md.get('tables') else rest
    files = {'p.csv': csv(rows['p']), 'q.csv': csv(rows['q'])}
    c.describe((done, where, how, shape))
    c.state(done, where, how, shape, filters)
    got = World(c, where).verdict(
        md, files, how, filters, 'p.csv' if shape == 'table of csv' else None, shape == 'zipped')
    c.tick()
    c.check(got in exp, json.dumps([[repr(d) for d in done], where, how, shape, filters]),
            lambda: '{}: expected {}, got {}'.format(done, exp, got))
    c.outcome(got, exp)


def data(c):
    """All contents of small tables with a primary key, and a foreign key of each kind."""
    kind = c.every('foreign key', ['single', 'composite', 'list', 'self', 'not the primary key', 'two', 'two tables'])
    np, nq = c.every('rows', [(1, 1), (2, 1), (1, 2), (2, 2), (0, 1), (1, 0)] + ([(3, 1), (2, 3)] if c.tier == 'thorough' else []))
    where = c.choose('where', ['local', 'http'])
    how = c.choose('how', HOWS)
    required = c.choose('required', [False, True])
    dt = c.choose('datatype', ['string', 'integer'])
    comp = kind == 'composite'
    ids = ['1', '2', '', '01']
    refs = ['1', '2', '3', ''] if kind != 'list' else ['1', '1;2', '', '2;3', '1;1']
    p = [[c.every('p{}'.format(i), ids), c.every('r{}'.format(i), ['1', '2']) if comp or kind == 'not the primary key' else '']
         for i in range(np)]
    q = [[c.every('q{}'.format(i), refs[:3] if comp else refs),
          c.every('s{}'.format(i), ['1', '']) if comp or kind in ('two', 'two tables') else '', 'k{}'.format(i)] for i in range(nq)]
    if kind == 'self':
        # one table: the keys of p, with references
        if nq != np:
            return
        q = [[a[0], b[0]] for a, b in zip(p, q)]
    col = {'datatype': dt}
    pcols = [dict(col, name='id', required=required), dict(col, name='r')]
    qcols = [dict(col, name='pid'), dict(col, name='s'), {'name': 'k'}]
    if kind == 'list':
        qcols[0]['separator'] = ';'
    fks = [{'columnReference': 'pid', 'reference': {'resource': 'p.csv', 'columnReference': 'id'}}]
    pk = ['id']
    if comp:
        pk = ['id', 'r']
        fks[0] = {'columnReference': ['pid', 's'], 'reference': {'resource': 'p.csv', 'columnReference': ['id', 'r']}}
    elif kind == 'not the primary key':
        fks[0]['reference']['columnReference'] = 'r'
    elif kind in ('two', 'two tables'):
        fks.append({'columnReference': 's', 'reference': {
            'resource': 'p.csv' if kind == 'two' else 'u.csv', 'columnReference': 'id'}})
    tables = [{'url': 'p.csv', 'tableSchema': {'columns': pcols, 'primaryKey': pk}},
              {'url': 'q.csv', 'tableSchema': {'columns': qcols, 'primaryKey': 'k', 'foreignKeys': fks}}]
    rows = {'p': [['id', 'r']] + p, 'q': [['pid', 's', 'k']] + q}
    if kind == 'self':
        tables = tables[1:]
        tables[0]['tableSchema'].update(columns=[pcols[0], qcols[0]], primaryKey='id')
        fks[0]['reference']['resource'] = 'q.csv'
        rows = {'q': [['id', 'pid']] + q}
    elif kind == 'two tables':
        tables.append({'url': 'u.csv', 'tableSchema': {'columns': pcols}})
        rows['u'] = [['id', 'r'], ['1', '1']] + ([['1', '2']] if c.flag('ambiguous') else [])
    md = {'@context': CTX, 'tables': tables if not c.flag('reversed') else tables[::-1]}
    files = {t + '.csv': csv(x) for t, x in rows.items()}
    exp = judge(tables, rows)
    c.describe((md, files))
    c.state(md, files, where, how)
    got = World(c, where).verdict(md, files, how)
    c.tick()
    c.check(got == exp, json.dumps([md, files, where, how]), lambda: '{}: expected {}, got {}'.format(files, exp, got))
    c.outcome(got, files)


# language -> titles
TITLES = [
    {'en': ['A']}, {'en': ['A'], 'de': ['B']}, {'de': ['B'], 'en': ['A']}, {'de': ['A'], 'en': ['A']}, {'en-GB': ['A']},
    {'und': ['A']}, {'und': ['A'], 'de': ['B']}, {'de': ['B'], 'und': ['A']}, {'de': ['A'], 'und': ['A', 'B']},
    {'en': ['B', 'A']}, {'en-GB': ['B'], 'en-US': ['A']}, {'zh-Hant': ['A', 'B'], 'zh-Hans': ['B']}, {'de-AT': ['A']}, {},
]


def matches(tag, lang):
    return all(a == b for a, b in zip(tag.split('-'), lang.split('-')))


def headers(c):
    """All headers of tables with titles in several languages."""
    n = c.choose('columns', [1, 2, 3])
    where = c.choose('where', ['local', 'http'])
    how = c.choose('how', HOWS)
    lang = c.every('lang', ['en', 'de', 'en-GB', None, 'und', 'fr', 'zh', 'en-US'])
    at = c.choose('position', list(range(n)))
    titles = c.every('titles', TITLES)
    kind = c.choose('kind', ['dict', 'single', 'plain'])
    named = c.choose('named', [True, False])
    cell = c.every('cell', ['A', 'B', 'C', 'a', 'A ', 'n', 'N', '', 'en'])
    extra = c.choose('header cells', [0, 1, 2, -1])
    swap = c.choose('swapped', [False, True])
    row = c.choose('row', [0, 1, -1, None])
    if kind == 'single' and any(len(x) > 1 for x in titles.values()):
        return
    if kind == 'plain' and (set(titles) - {'und'} or not titles):
        return
    if not titles and not named:
        return  # see ASSUMPTIONS
    cols, cells, verdicts = [], [], []
    for i in range(n):
        if i == at:
            col, text = {}, cell
            if named:
                col['name'] = 'n'
            if titles:
                col['titles'] = titles if kind == 'dict' else {k: v[0] for k, v in titles.items()}
            if kind == 'plain':
                col['titles'] = titles['und']
            found = [tag for tag, x in titles.items() if cell in x]
            if named and cell == 'n':
                verdicts.append(OK)
            elif any(tag == 'und' for tag in found) or (
                    lang not in (None, 'und') and any(matches(tag, lang) for tag in found)):
                verdicts.append(OK)
            elif found and lang in (None, 'und'):
                return
            elif titles:
                verdicts.append(BAD)
            else:
                return
        else:
            col, text = {'name': 'o{}'.format(i), 'titles': 'O{}'.format(i)}, 'O{}'.format(i)
            verdicts.append(OK)
        cols.append(col)
        cells.append(text)
    if swap:
        if n < 2:
            return
        cells[0], cells[1] = cells[1], cells[0]
        if named and set(cells[:2]) & {'n'} or not titles:
            return
        verdicts[0] = BAD
    if extra > 0:
        cells += ['X{}'.format(i) for i in range(extra)]
        verdicts.append(BAD)
    elif extra < 0:
        cells, verdicts = cells[:-1], verdicts[:n - 1]
        if not cells:
            return
    if row is None:
        rows = [cells]
    else:
        rows = [cells, ['1'] * max(1, len(cells) + row)]
    md = {'@context': CTX, 'url': 'p.csv', 'tableSchema': {'columns': cols}}
    if lang:
        md['lang'] = lang
    if rows[0] == [''] or (extra and '' in cells):
        return
    exp = BAD if BAD in verdicts else OK
    text = csv(rows)
    c.describe((md, text))
    c.state(md, text, where, how)
    got = World(c, where).verdict(md, {'p.csv': text}, how)
    c.tick()
    c.check(got == exp, json.dumps([md, text, where, how]), lambda: '{} {}: expected {}, got {}'.format(md, text, exp, got))
    c.outcome(got, verdicts)


HARNESSES = [
    Harness('headers', headers, 2, 3),
    Harness('problems', problems, 2, 2),
    Harness('data', data, 0, 1),
    Harness('sizes', sizes.c25, None),
]
