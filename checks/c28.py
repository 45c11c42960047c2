import json
import pathlib
import datetime
import warnings
import collections
from decimal import Decimal

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup
from csvw.frictionless import DataPackage

ASSUMPTIONS = [
    'a tabular file resource has scheme "file", format "csv", one path and an embedded schema',
    'constraints enum and unique, the effect of patterns for other than string types, formats of dates, '
    'lists of true and false values, bareNumber, lineTerminator and escapeChar cannot be expressed (or are documented as '
    'unsupported) and are left out',
    'data of number fields are read as float, as are the data of columns with datatype number',
]
ERR = 'error'
CTX = 'http://www.w3.org/ns/csvw'


def dt(*args):
    return datetime.datetime(*args)


# type and format -> datatype, common property, samples
FIELDS = collections.OrderedDict([
    (('string', None), ('string', None, [('a b', 'a b'), ('1', '1')])),
    ((None, None), ('string', None, [('a b', 'a b'), ('1', '1')])),
    (('any', None), ('string', None, [('a', 'a'), ('1', '1')])),
    (('geopoint', None), ('string', None, [('1,2', '1,2')])),
    (('string', 'default'), ('string', 'default', [('x', 'x')])),
    (('string', 'email'), ('string', 'email', [('a@b', 'a@b')])),
    (('string', 'uuid'), ('string', 'uuid', [('a-b', 'a-b')])),
    (('string', 'uri'), ('anyURI', None, [('http://h/a', 'http://h/a')])),
    (('string', 'binary'), ('binary', None, [('YQ==', b'a'), ('=', ERR)])),
    (('integer', None), ('integer', None, [('5', 5), ('-12', -12), ('1.5', ERR), ('x', ERR)])),
    (('number', None), ('number', None, [('1.5', 1.5), ('-2', -2.0), ('1e3', 1000.0), ('INF', float('inf')), ('1,5', ERR), ('x', ERR)])),
    (('boolean', None), ('boolean', None, [('true', True), ('0', False), ('ja', ERR), ('x', ERR)])),
    (('date', None), ('date', None, [('2020-01-02', dt(2020, 1, 2)), ('2020', ERR)])),
    (('date', 'default'), ('date', None, [('2020-01-02', dt(2020, 1, 2)), ('x', ERR)])),
    (('datetime', None), ('datetime', None, [('2020-01-02T03:04:05', dt(2020, 1, 2, 3, 4, 5)), ('x', ERR)])),
    (('time', None), ('time', None, [('03:04:05', '03:04:05'), ('x', ERR)])),
    (('duration', None), ('duration', None, [('P1D', datetime.timedelta(1)), ('1', ERR)])),
    (('year', None), ('gYear', None, [('1990', '1990')])),
    (('yearmonth', None), ('gYearMonth', None, [('1990-01', '1990-01')])),
    (('object', None), ('json', 'application/json', [('{"a": [1]}', {'a': [1]}), ('{', ERR)])),
    (('array', None), ('json', 'application/json', [('[1, "b"]', [1, 'b']), ('[', ERR)])),
    (('geojson', None), ('json', 'application/geo+json', [('{"type": "Point"}', {'type': 'Point'}), ('}', ERR)])),
])
# further properties of fields -> samples
EXTRA = {
    'integer': [({'groupChar': '.'}, [('1.234', 1234), ('5', 5), ('1,2', ERR)]), ({'bareNumber': True}, [('5', 5)]),
                ({'groupChar': ''}, [('5', 5)])],
    'number': [({'decimalChar': ','}, [('1,5', 1.5), ('2', 2.0), ('x', ERR)]),
               ({'decimalChar': ',', 'groupChar': '.'}, [('1.234,5', 1234.5), ('1,5', 1.5), ('1,5e1', 15.0)]),
               ({'groupChar': ' '}, [('1 234.5', 1234.5)]), ({'bareNumber': True, 'decimalChar': '.'}, [('1.5', 1.5)]),
               ({'decimalChar': ',', 'constraints': {'pattern': '[0-9]+,[0-9]+'}}, [('1,5', 1.5)])],
    'boolean': [({'trueValues': ['ja'], 'falseValues': ['nein']}, [('ja', True), ('nein', False), ('true', ERR), ('1', ERR)]),
                ({'trueValues': ['yes']}, [('yes', True), ('false', False), ('no', ERR)]),
                ({'falseValues': ['no']}, [('no', False), ('true', True), ('yes', ERR)]),
                ({'trueValues': ['a b', 'x'], 'falseValues': ['c', 'y']}, [('a b', True), ('c', False), ('z', ERR)]),
                ({'trueValues': ['ja'], 'falseValues': ['nein'], 'constraints': {'pattern': 'ja|nein'}},
                 [('ja', True), ('nein', False), ('x', ERR)])],
}
# constraints -> whether a sample is accepted
CONSTRAINTS = {
    'string': [({'minLength': 3}, [('abc', 'abc'), ('ab', ERR)]), ({'maxLength': 2}, [('ab', 'ab'), ('abc', ERR)]),
               ({'minLength': 2, 'maxLength': 2}, [('ab', 'ab'), ('a', ERR), ('abc', ERR)]),
               ({'minLength': 0}, [('a', 'a')]), ({'maxLength': 0}, [('a', ERR)]),
               ({'pattern': '[a-z]{2}'}, [('ab', 'ab'), ('abc', ERR), ('A', ERR)]),
               ({'pattern': 'a|ab', 'maxLength': 2}, [('ab', 'ab'), ('a', 'a'), ('b', ERR)])],
    'integer': [({'minimum': 5}, [('5', 5), ('4', ERR)]), ({'maximum': 0}, [('0', 0), ('1', ERR)]),
                ({'minimum': -1, 'maximum': 1}, [('-1', -1), ('1', 1), ('2', ERR), ('-2', ERR)])],
    'number': [({'minimum': 0.5}, [('0.5', 0.5), ('0.4', ERR)]), ({'maximum': 1}, [('1', 1.0), ('1.01', ERR)])],
    'date': [({'minimum': '2020-01-02'}, [('2020-01-02', dt(2020, 1, 2)), ('2020-01-01', ERR)]),
             ({'maximum': '2020-01-02'}, [('2020-01-03', ERR)])],
    'datetime': [({'maximum': '2020-01-02T00:00:00'}, [('2020-01-02T00:00:00', dt(2020, 1, 2)), ('2020-01-02T00:00:01', ERR)])],
    'time': [({'minimum': '03:00:00'}, [('03:00:00', '03:00:00'), ('02:59:59', ERR)])],
    'array': [({'minLength': 2}, [('[1, 2]', [1, 2]), ('[1]', ERR)]), ({'maxLength': 1}, [('[1]', [1]), ('[1, 2]', ERR)])],
    'object': [({'minLength': 1}, [('{"a": 1}', {'a': 1}), ('{}', ERR)])],
    'year': [({'pattern': '[2].*'}, [('2001', '2001'), ('1990', ERR)]), ({'minimum': 2000}, [('2000', '2000'), ('1999', ERR)])],
    'yearmonth': [({'maximum': '2000-01'}, [('2000-01', '2000-01'), ('2000-02', ERR)])],
}


def line(cells, delimiter=',', quote='"', double=True):
    return delimiter.join(
        quote + x.replace(quote, (quote if double else '\\') + quote) + quote
        if any(ch in x for ch in (delimiter, quote, '\n', ' ')) or x[:1] == '#' else x for x in cells) + '\n'


def plain(v):
    """Values of times and URIs as text"""
    if hasattr(v, 'unsplit'):
        return v.unsplit()
    return v


def same(got, exp):
    got = plain(got)
    if isinstance(got, datetime.datetime) and isinstance(exp, str):
        return got.time().isoformat() == exp
    return isinstance(got, type(exp)) and isinstance(got, bool) == isinstance(exp, bool) and got == exp


def quiet():
    w = warnings.catch_warnings()
    w.__enter__()
    warnings.simplefilter('ignore')
    return w


def fields(c):
    """Every type of field, with every format, property and constraint."""
    typ, fmt = c.every('type', list(FIELDS))
    base, common, samples = FIELDS[(typ, fmt)]
    extra, extrasamples = c.every('extra', [({}, None)] + (EXTRA.get(typ, []) if fmt is None else []))
    constraints, csamples = c.every('constraints', [(None, None), ({}, None)] + (
        CONSTRAINTS.get(typ or 'string', []) if fmt is None and not extra and typ != 'any' else []))
    samples = csamples or extrasamples or samples
    required = c.every('required', [None, True, False])
    missing = c.every('missingValues', [None, ['NA'], ['', 'NA', '-'], []])
    title = c.choose('title', [None, 'A title', ''])
    description = c.choose('description', [None, 'Some text'])
    rdf = c.choose('rdfType', [None, 'http://example.org/p'])
    name = c.choose('name', ['f', 'F x', 'f.g', 'ä'])
    header = c.choose('header', ['name', 'title', None])
    reload = c.every('reload', [False, True])
    if header == 'title' and not title:
        return
    spec = {'name': name}
    if typ:
        spec['type'] = typ
    if fmt:
        spec['format'] = fmt
    spec.update(extra)
    for k, v in [('title', title), ('description', description), ('rdfType', rdf)]:
        if v is not None:
            spec[k] = v
    if constraints is not None or required is not None:
        spec['constraints'] = dict(constraints or {}, **spec.get('constraints', {}))
        if required is not None:
            spec['constraints']['required'] = required
    schema = {'fields': [{'name': 'k', 'type': 'string'}, spec]}
    if missing is not None:
        schema['missingValues'] = missing
    rsc = {'name': 'r', 'path': 'data.csv', 'scheme': 'file', 'format': 'csv', 'profile': 'tabular-data-resource', 'schema': schema}
    if header is None:
        rsc['dialect'] = {'header': False}
    package = {'resources': [rsc]}
    before = json.dumps(package)
    key = json.dumps([spec, missing, header, reload])
    c.describe(key)
    c.state(key)
    nulls = [''] if missing is None else missing
    w = quiet()
    try:
        try:
            tg = DataPackage(package, directory=c.dir).to_tablegroup()
        except ValueError as e:
            c.fail(json.dumps([typ, constraints]), str(e))
            return
        if reload:
            tg.to_file(c.dir / 'md.json')
            tg = TableGroup.from_file(c.dir / 'md.json')
        c.check(json.dumps(package) == before, key, 'the package was changed')
        t = tg.tables[0]
        cols = t.tableSchema.columns
        col = cols[1]
        c.check([x.name for x in cols] == ['k', name], key, lambda: cols)
        c.check(col.datatype.base == base, key, lambda: 'datatype {}'.format(col.datatype))
        c.check(col.datatype.common_props.get('dc:format') == common, key, lambda: 'format {}'.format(col.datatype))
        c.check((col.titles.getfirst() if col.titles else None) == (title or None), key, lambda: 'titles {}'.format(col.titles))
        c.check(col.common_props.get('dc:description') == ([description] if description else None), key, lambda: col.common_props)
        c.check((col.propertyUrl and col.propertyUrl.uri) == rdf, key, lambda: col.propertyUrl)
        c.check(bool(col.inherit('required')) == bool(required), key, 'required {}'.format(col.required))
        c.check(sorted(col.inherit_null()) == sorted(nulls), key, lambda: 'null {}'.format(col.inherit_null()))
        head = [] if header is None else [['k', title if header == 'title' else name]]
        tests = list(samples)
        for text in ['NA', '', '-']:
            if text in nulls:
                tests.append((text, ERR if required else None))
        for text, value in tests:
            c.dir.joinpath('data.csv').write_text(''.join(line(x) for x in head + [['1', text]]), encoding='utf8')
            try:
                rows = list(t.iterdicts())
            except ValueError:
                rows = ERR
            c.tick()
            ok = rows == ERR if value is ERR else (
                rows != ERR and len(rows) == 1 and list(rows[0]) == ['k', name]
                and rows[0]['k'] == '1' and same(rows[0][name], value))
            c.check(ok, key, lambda: '{!r} read as {!r}, expected {!r}'.format(text, rows, value))
        c.outcome(base, len(tests))
    finally:
        w.__exit__(None, None, None)


KINDS = ['tabular', 'no schema', 'no path', 'other format', 'other scheme', 'no format']
METADATA = {
    'name': ('pkg', None), 'id': ('10.1/x', 'dc:identifier'), 'title': ('A "title"', 'dc:title'),
    'homepage': ('http://example.org', 'dcat:accessURL'), 'description': ('Text\nä', 'dc:description'),
    'licenses': ([{'name': 'CC0', 'path': 'http://x/y', 'title': 'Zero'}], 'dc:license'),
    'sources': ([{'title': 'S', 'path': 'p', 'email': 'e'}, {'title': 'T'}], 'dc:source'),
    'contributors': ([{'title': 'P', 'role': 'author'}], 'dc:contributor'),
    'profile': ('data-package', 'dc:conformsTo'), 'keywords': (['a', 'b'], 'dc:subject'),
    'created': ('2020-01-02T00:00:00Z', 'dc:created'), 'version': ('1.0', None), 'image': ('x.png', None),
}
KEYS = [None, 'k', ['k'], ['k', 'v'], []]
# foreign keys: fields, resource, fields
FKS = [None, [('p', 'self', 'k')], [('p', 'b', 'k')], [(['p'], 'b', ['k'])], [(['p', 'v'], 'b', ['k', 'v'])],
       [('p', 'self', 'k'), ('v', 'b', 'v')], [('p', 'omitted', 'k')], []]
DIALECTS = [None, {}, {'delimiter': ';'}, {'delimiter': '\t'}, {'quoteChar': "'"}, {'doubleQuote': False}, {'header': False},
            {'skipInitialSpace': True}, {'commentChar': '#'}, {'csv': {'delimiter': '|'}}, {'csv': {}, 'commentChar': '#'},
            {'header': False, 'csv': {'delimiter': ';'}}, {'delimiter': ';', 'lineTerminator': '\n', 'quoteChar': "'", 'commentChar': '%'}]


def packages(c):
    """Resources, keys, dialects, encodings and metadata."""
    order = c.choose('order', ['a b', 'b a'])
    kind = c.choose('other resource', [None] + KINDS[1:])
    where = c.choose('other position', [0, 1, 2])
    pk = c.choose('primaryKey', KEYS)
    fk = c.choose('foreignKeys', FKS)
    dialect = c.choose('dialect', DIALECTS)
    encoding = c.choose('encoding', [None, 'utf-8', 'latin-1', 'utf-16'])
    paths = c.choose('paths', [('a.csv', 'b.csv'), ('s/a.csv', 'b.csv'), ('a b.csv', 'ä.csv'), ('x', 'y.tsv'), ('a.csv', 't.tsv')])
    tsv = paths[1] == 't.tsv'
    dialect_b = c.choose('dialect of b', [None, {'quoteChar': "'"}, {'csv': {'doubleQuote': False}}, {'delimiter': ';'}])
    how = c.choose('how', ['dict', 'text', 'path', 'package', 'path and directory', 'from_frictionless'])
    data = c.choose('data', ['good', 'dangling', 'duplicate', 'empty'])
    missing = c.choose('missingValues', [None, ['x']])
    prop = c.choose('metadata', [None] + list(METADATA) + ['all', 'all but id', 'name and title'])
    reload = c.choose('reload', [False, True])
    scenario = (order, kind, where, pk, fk, dialect, encoding, paths, how, data, missing, prop, reload, dialect_b)
    key = json.dumps(scenario)
    c.describe(key)
    c.state(key)
    schema = {'fields': [{'name': 'k', 'type': 'string'}, {'name': 'v', 'type': 'integer'}, {'name': 'p', 'type': 'string'}]}
    a = dict(schema)
    if pk is not None:
        a['primaryKey'] = pk
    if missing:
        a['missingValues'] = missing
    if fk is not None:
        a['foreignKeys'] = [
            {'fields': f, 'reference': dict({'fields': t}, **({} if r == 'omitted' else {'resource': '' if r == 'self' else r}))}
            for f, r, t in fk]
    common = {'scheme': 'file', 'format': 'csv', 'profile': 'tabular-data-resource'}
    ra = dict(common, name='a', path=paths[0], schema=a)
    rb = dict(common, name='b', path=paths[1], schema=schema, format='tsv' if tsv else 'csv')
    if dialect is not None:
        ra['dialect'] = dialect
    if dialect_b is not None:
        rb['dialect'] = dialect_b
    if encoding:
        ra['encoding'] = encoding
    resources = [ra, rb] if order == 'a b' else [rb, ra]
    if kind:
        other = dict(common, name='other', path='other.csv', schema=schema)
        if kind == 'no schema':
            del other['schema']
        elif kind == 'no path':
            del other['path']
            other['data'] = [[1]]
        elif kind == 'other format':
            other['format'] = 'json'
        elif kind == 'other scheme':
            other['scheme'] = 'http'
        elif kind == 'no format':
            del other['format']
        resources.insert(where, other)
    package = collections.OrderedDict([('resources', resources)])
    for p in {None: [], 'all': list(METADATA), 'all but id': [x for x in METADATA if x != 'id'],
              'name and title': ['name', 'title']}.get(prop, [prop]):
        package[p] = METADATA[p][0]
    text = json.dumps(package)
    # The data
    d = dict(dialect or {})
    d.update(d.pop('csv', {}))
    delim, quote, double = d.get('delimiter', ','), d.get('quoteChar', '"'), d.get('doubleQuote', True)
    db = dict(dialect_b or {}, **(dialect_b or {}).get('csv', {}))
    rows = {'a': [['k1', 1, 'k1'], ['k"\'2', 2, 'k1'], ['k;,|\t3', 3, None]], 'b': [['k1', 1, None], ['z', 2, None], ['y', 3, None]]}
    if data == 'dangling':
        rows['a'][1][2] = 'nowhere'
    elif data == 'duplicate':
        rows['a'].append(['k1', 1, 'k1'])
    elif data == 'empty':
        rows['a'] = []
    for name, path, (de, qu, do), nul in [('a', paths[0], (delim, quote, double), (missing or [''])[0]), (
            'b', paths[1], (db.get('delimiter', '\t' if tsv else ','), db.get('quoteChar', '"'), db.get('doubleQuote', True)), '')]:
        content = ''
        if name == 'b' or d.get('header', True):
            content += line(['k', 'v', 'p'], de, qu, do)
        for i, row in enumerate(rows[name]):
            if name == 'a' and 'commentChar' in d and i == 1:
                content += d['commentChar'] + ' a comment\n'
            cells = [nul if x is None else str(x) for x in row]
            s = line(cells, de, qu, do)
            if name == 'a' and d.get('skipInitialSpace'):
                s = s.replace(de + '1' + de, de + ' 1' + de)
            content += s
        c.dir.joinpath(path).parent.mkdir(exist_ok=True)
        c.dir.joinpath(path).write_bytes(content.encode((encoding if name == 'a' else None) or 'utf-8'))
    w = quiet()
    try:
        if how == 'dict':
            dp = DataPackage(package, directory=c.dir)
        elif how == 'text':
            dp = DataPackage(text, directory=str(c.dir))
        elif how == 'package':
            dp = DataPackage(DataPackage(package, directory=c.dir))
        else:
            p = c.dir / ('dp.json' if how != 'path and directory' else 'sub/dp.json')
            p.parent.mkdir(exist_ok=True)
            p.write_text(text, encoding='utf8')
            dp = DataPackage(p) if how != 'path and directory' else DataPackage(p, directory=str(c.dir))
        if how == 'from_frictionless':
            tg = TableGroup.from_frictionless_datapackage(c.dir / 'dp.json')
        else:
            tg = dp.to_tablegroup()
            c.check(dp.to_tablegroup().asdict() == tg.asdict(), key, 'converting again')
        c.check(json.dumps(package) == text, key, 'the package was changed')
        if reload:
            tg.to_file(c.dir / 'md.json')
            tg = TableGroup.from_file(c.dir / 'md.json')
        c.tick()
        tables = [t.url.string for t in tg.tables]
        names = order.split()
        c.check(tables == [dict(zip('ab', paths))[n] for n in names], key, lambda: 'tables {}'.format(tables))
        ta, tb = [tg.tables[names.index(n)] for n in 'ab']
        sa = ta.tableSchema
        exp = [] if not pk else ([pk] if isinstance(pk, str) else pk)
        c.check((sa.primaryKey or []) == exp, key, lambda: 'primary key {}'.format(sa.primaryKey))
        c.check(not tb.tableSchema.primaryKey and not tb.tableSchema.foreignKeys, key, 'keys of the other table')

        def aslist(x):
            return [x] if isinstance(x, str) else x
        got = [(x.columnReference, x.reference.resource.string, x.reference.columnReference) for x in sa.foreignKeys]
        exp = [(aslist(f), paths[0 if r in ('self', 'omitted') else 1], aslist(t)) for f, r, t in fk or []]
        c.check(got == exp, key, lambda: 'foreign keys {}, expected {}'.format(got, exp))
        # Metadata
        cp = {k: json.loads(json.dumps(v)) for k, v in tg.common_props.items()}
        c.check(json.loads(cp.pop('dc:replaces')) == json.loads(text), key, 'dc:replaces')
        exp = {METADATA[p][1]: package[p] for p in package if p in METADATA and METADATA[p][1]}
        if 'name' in package:
            if 'id' not in package:
                exp['dc:identifier'] = 'pkg'
            elif 'title' not in package:
                exp['dc:title'] = 'pkg'
        c.check(cp == exp, key, lambda: 'metadata {}, expected {}'.format(cp, exp))
        # Data
        for t, n in [(ta, 'a'), (tb, 'b')]:
            got = [list(r.values()) for r in t.iterdicts()]
            c.check(got == rows[n], key, lambda: 'rows {}, expected {}'.format(got, rows[n]))
            c.check(all(list(r) == ['k', 'v', 'p'] for r in t.iterdicts()), key, 'names')
        idx = {'k': 0, 'v': 1, 'p': 2}

        def val(row, ref):
            return tuple(row[idx[x]] for x in aslist(ref))
        dup = bool(pk) and len({val(r, pk) for r in rows['a']}) < len(rows['a'])
        try:
            ok = ta.check_primary_key()
        except ValueError:
            ok = False
        c.check(ok == (not dup), key, lambda: 'primary key check {}'.format(ok))
        bad = False
        for f, r, t in fk or []:
            targets = {val(x, t) for x in rows['a' if r in ('self', 'omitted') else 'b']}
            bad = bad or any(val(x, f) not in targets for x in rows['a'] if None not in val(x, f))
        try:
            ok = tg.check_referential_integrity()
        except ValueError:
            ok = False
        c.check(ok == (not bad), key, lambda: 'foreign key check {}'.format(ok))
        c.outcome(len(tables), dup, bad)
    finally:
        w.__exit__(None, None, None)


HARNESSES = [
    Harness('fields', fields, 2, None),
    Harness('packages', packages, 3, 4),
    Harness('sizes', sizes.c28, None),
]
