import copy
import json
import decimal
import pathlib

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup, Table, Column, Datatype
from csvw.metadata import ForeignKey, Dialect, Schema, NaturalLanguage, Link

ASSUMPTIONS = [
    'single values and lists with one item are the same where the specification allows both, and '
    'so are properties set to their default value (at the top of inheritance) and absent ones',
    '@id, @type and common properties of dialects are not kept (the specification does not allow '
    'common properties there)',
    'common properties with an empty list or object as value are not kept',
    'bounds may be serialized as numbers or as text',
]
URL = 'http://example.org/'
INHERITED = {
    'aboutUrl': [URL + '{a}', '#r{_row}'],
    'datatype': ['integer', {'base': 'string', 'maxLength': 5}],
    'default': ['x'],
    'lang': ['de', 'en-GB'],
    'null': ['NA', ['', 'NA'], []],
    'ordered': [True, False],
    'propertyUrl': ['dc:title', URL + '{_name}'],
    'required': [True, False],
    'separator': [';', ' '],
    'textDirection': ['ltr', 'rtl', 'auto', 'inherit'],
    'valueUrl': ['{a}', URL + '#{b}'],
}
COMMON = {
    'dc:title': ['T', {'@value': 'T', '@language': 'de'}, ['T', 'U'], ''],
    'dc:source': [{'@id': URL}, [{'@id': URL}, {'dc:title': 'x', 'dc:x': [1, 2.5, True, None]}]],
    URL + 'p': [0, 1.5, True, False, None, {'@value': '1', '@type': 'xsd:integer'}, 'ä€\U0001F600'],
}
AT = {'@id': [URL + 'id'], '@type': [None]}
TABLELIKE = {
    'tableDirection': ['ltr', 'rtl'],
    'notes': [['n'], [{'dc:title': 'x', '@type': 'x'}]],
    'transformations': [[{'url': 't', 'scriptFormat': URL, 'targetFormat': URL, 'titles': 'x'}]],
}
DIALECT = {
    'encoding': ['latin1', 'UTF-8-BOM'],
    'lineTerminators': [['\n'], '\n', ['\r\n']],
    'quoteChar': ["'", None],
    'doubleQuote': [False],
    'skipRows': [1, 2],
    'commentPrefix': ['#', '%'],
    'header': [False],
    'headerRowCount': [0, 2],
    'delimiter': [';', '\t'],
    'skipColumns': [1],
    'skipBlankRows': [True],
    'skipInitialSpace': [True],
    'trim': ['true', 'start', 'end', True],
}
DATATYPES = [
    'string', {'base': 'string', 'format': '[a-z]+|1'}, {'base': 'string', 'length': 0},
    {'base': 'string', 'minLength': 0, 'maxLength': 3}, {'base': 'integer', 'minimum': 0},
    {'base': 'integer', 'maximum': 0, 'minInclusive': -5}, {'base': 'integer', 'minExclusive': '1'},
    {'base': 'decimal', 'format': '#,##0.0#', 'minimum': '1,000.5'},
    {'base': 'decimal', 'format': {'groupChar': '.', 'decimalChar': ','}, 'maximum': '1.000,5'},
    {'base': 'decimal', 'format': {'pattern': '#0.#', 'decimalChar': ','}, 'minimum': '0,5'},
    {'base': 'decimal', 'minimum': 0.1, 'maxExclusive': '1000000000000000000000.5'},
    {'base': 'double', 'minimum': -1.5, 'maximum': 'INF'},
    {'base': 'number', 'minInclusive': 0, 'maxExclusive': 1e300},
    {'base': 'date', 'minimum': '2018-01-01'},
    {'base': 'date', 'format': 'd.M.yyyy', 'minimum': '1.1.2018', 'maximum': '31.12.2018'},
    {'base': 'datetime', 'minimum': '2018-01-01T00:00:00', 'maximum': '2018-01-01T00:00:00.500000'},
    {'base': 'dateTime', 'format': 'yyyy-MM-ddTHH:mm', 'maxExclusive': '2018-01-01T00:30'},
    {'base': 'dateTimeStamp', 'minimum': '2018-01-01T00:00:00.000000+01:00'},
    {'base': 'time', 'minimum': '10:00:00'}, {'base': 'time', 'format': 'HHmm', 'maximum': '1000'},
    {'base': 'duration', 'minimum': 'P0D', 'maximum': 'P1Y'},
    {'base': 'boolean', 'format': 'Y|N'}, {'base': 'boolean'},
    {'base': 'json', 'format': '{"type": "object"}'},
    {'base': 'anyURI', 'minLength': 1}, {'base': 'binary', 'length': 3},
    {'base': 'string', '@id': URL + 'dt', 'dc:title': 'T', 'dc:x': {'dc:y': 'z'}},
    {'base': 'integer', '@id': URL + 'dt'}, {'format': 'x|1'}, {'base': 'any'},
    {'base': 'gYear'}, {'base': 'double', 'format': '0.0'},
]
TITLES = ['T', ['T', 'U'], {'en': 'T'}, {'en': ['T', 'U'], 'de': 'V'}, {'und': 'T'},
          {'und': ['T', 'U'], 'fr': ['V']}]
FK = [
    [{'columnReference': 'b', 'reference': {'resource': 't.csv', 'columnReference': 'a'}}],
    [{'columnReference': ['b', 'c'], 'reference': {
        'resource': 'u.csv', 'columnReference': ['a', 'b']}}],
    [{'columnReference': 'b', 'reference': {'schemaReference': URL, 'columnReference': 'a'}}],
    [{'columnReference': ['b'], 'reference': {'resource': 't.csv', 'columnReference': ['a']}},
     {'columnReference': ['c'], 'reference': {'resource': 'u.csv', 'columnReference': ['a']}}],
]


def slots():
    """[(path, values)]: all the properties which may be given"""
    for path, type_ in [((), 'TableGroup'), (('tables', 0), 'Table'),
                        (('tables', 0, 'tableSchema'), 'Schema'),
                        (('tables', 0, 'tableSchema', 'columns', 0), 'Column'),
                        (('tables', 1, 'tableSchema', 'columns', 1), 'Column')]:
        props = dict(AT, **{'@type': [type_]})
        props.update(COMMON)
        props.update(INHERITED)
        if type_ in ('TableGroup', 'Table'):
            props.update(TABLELIKE)
        if type_ == 'Table':
            props['suppressOutput'] = [True]
        if type_ == 'Schema':
            props.update(primaryKey=['a', ['a', 'b'], ['b']], rowTitles=['a', ['b', 'a']],
                         foreignKeys=FK)
        if type_ == 'Column':
            props.update(titles=TITLES, suppressOutput=[True], datatype=DATATYPES)
            if path[1] == 1:
                props['virtual'] = [True]
        for k, values in props.items():
            yield path + (k,), values
        if type_ in ('TableGroup', 'Table'):
            for k, values in DIALECT.items():
                yield path + ('dialect', k), values


SLOTS = list(slots())


def minimal():
    return {
        '@context': 'http://www.w3.org/ns/csvw',
        'tables': [
            {'url': 't.csv', 'tableSchema': {'columns': [
                {'name': 'a'}, {'name': 'b'}, {'name': 'c'}]}},
            {'url': 'u.csv', 'tableSchema': {'columns': [
                {'name': 'a'}, {'name': 'b'}]}},
        ]}


DEFAULTS = {
    'null': [[''], ''], 'lang': ['und'], 'tableDirection': ['auto'], 'suppressOutput': [False],
    'virtual': [False], 'foreignKeys': [[]], 'notes': [[]], 'transformations': [[]],
    'rowTitles': [[]], 'tables': [[]], 'columns': [[]],
}
DIALECT_DEFAULTS = {
    'encoding': 'utf-8', 'lineTerminators': ['\r\n', '\n'], 'quoteChar': '"', 'doubleQuote': True,
    'skipRows': 0, 'commentPrefix': None, 'header': True, 'headerRowCount': 1, 'delimiter': ',',
    'skipColumns': 0, 'skipBlankRows': False, 'skipInitialSpace': False, 'trim': 'false'}
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def as_list(v):
    return v if isinstance(v, list) else [v]


def bound(v, dt):
    if dt['base'] in ('double', 'float', 'number'):
        return float(v)
    if dt['base'] in ('integer', 'decimal') and not dt.get('format'):
        return decimal.Decimal(str(v))
    return str(v)


def canonical(d, kind):
    """What a description says, irrespective of how it says it."""
    res = {}
    for k, v in d.items():
        if kind == 'dialect':
            if k.startswith('@') or ':' in k:
                continue
            if k == 'trim' and isinstance(v, bool):
                v = str(v).lower()
            if v != DIALECT_DEFAULTS[k] or type(v) != type(DIALECT_DEFAULTS[k]):
                res[k] = v
            continue
        if ':' in k or k.startswith('@'):
            res[k] = v
            continue
        if v is None or v in DEFAULTS.get(k, []):
            continue
        if k == 'datatype':
            v = canonical({'base': v} if isinstance(v, str) else v, 'datatype')
            v.setdefault('base', 'string')
        elif kind == 'datatype' and k in BOUNDS:
            v = bound(v, dict({'base': 'string'}, **d))
        elif k == 'dialect':
            v = canonical(v, 'dialect')
            if 'headerRowCount' in v:  # determines whether there is a header
                v.pop('header', None)
            if not v:
                continue
        elif k == 'tableSchema':
            v = canonical(v, 'schema')
        elif k == 'columns':
            v = [canonical(x, 'column') for x in v]
        elif k == 'tables':
            v = [canonical(x, 'table') for x in v]
        elif k in ('null', 'primaryKey', 'rowTitles', 'columnReference'):
            v = as_list(v)
        elif k == 'foreignKeys':
            v = [{'columnReference': as_list(x['columnReference']),
                  'reference': canonical(x['reference'], 'reference')} for x in v]
        elif k == 'titles':
            v = {lang: as_list(x) for lang, x in v.items()} if isinstance(v, dict) else {
                'und': as_list(v)}
        res[k] = v
    return res


def plain(obj):
    """JSON as text, but with sorted keys."""
    return json.dumps(obj, sort_keys=True, default=repr)


def same(a, b):
    return repr_(a) == repr_(b)


def repr_(v):
    if isinstance(v, dict):
        return sorted((k, repr_(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [repr_(x) for x in v]
    return (type(v).__name__, str(v))


DATA = {
    't.csv': 'a,b,c\n1,x;1,Y\n,NA,#\nNA;,2018-01-01,\'z\'\n#c,1.5,\n5,,1\n',
    'u.csv': 'b,a\n1,x\n',
}


def rows(obj):
    res = []
    for t in getattr(obj, 'tables', [obj]):
        log = Log()
        try:
            res.append(repr(list(t.iterdicts(log=log, with_metadata=True))))
        except Exception as e:
            res.append((type(e).__name__, str(e)))
        res.append(log.msgs)
    return res


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg):
        self.msgs.append(msg)


def put(d, path, v):
    for i, k in enumerate(path[:-1]):
        if isinstance(k, str) and k not in d:
            d[k] = {}
        d = d[k]
    d[path[-1]] = v


def describe(c, cls):
    d = minimal()
    chosen = []
    for path, values in SLOTS:
        if cls is Table:
            if path[:2] != ('tables', 0) and path[:1] != ('@id',):
                continue
        v = c.choose('.'.join(str(x) for x in path), [Ellipsis] + values)
        if v is not Ellipsis:
            put(d, path, copy.deepcopy(v))
            chosen.append((path, v))
    for col in d['tables'][1]['tableSchema']['columns'][:1]:
        if d['tables'][1]['tableSchema']['columns'][1].get('virtual'):
            pass
    if cls is Table:
        t = d['tables'][0]
        t['@context'] = d['@context']
        if '@id' in d:
            t.setdefault('@id', d['@id'])
        d = t
    return d, chosen


def roundtrip(c, cls):
    d, chosen = describe(c, cls)
    c.describe(d)
    c.state(plain(d))
    for name, data in DATA.items():
        (c.dir / name).write_text(data, encoding='utf8')
    p = c.dir / 'md.json'
    p.write_text(json.dumps(d), encoding='utf8')
    obj = cls.from_file(p)
    kind = 'table' if cls is Table else 'group'
    exp = canonical(d, kind)
    key = 'lost:{}'.format([x for x in chosen])

    def text(o):
        return [json.dumps(o.asdict(omit_defaults=flag)) for flag in (True, False)]

    first = text(obj)
    for flag, s in zip((True, False), first):
        got = canonical(json.loads(s), kind)
        c.check(same(got, exp), key, lambda: 'serialized (omit_defaults={}): {}, expected {}'.format(
            flag, got, exp))
    before = rows(obj)
    c.outcome(first, repr(before).replace(str(c.dir), ''))
    for flag in (True, False):
        q = c.dir / 'out{}.json'.format(flag)
        obj.to_file(str(q) if flag else q, omit_defaults=flag)
        again = cls.from_file(q)
        c.check(text(again) == first, key, lambda: 'serialized again: {} was {}'.format(
            text(again), first))
        again._fname = obj._fname
        c.check(again == obj, key, lambda: 'not equal after reading {}'.format(q.read_text()))
        c.check(rows(again) == before, key, lambda: 'reads {} rather than {}'.format(
            rows(again), before))
        c.check(json.loads(q.read_text(encoding='utf8')) == json.loads(first[0 if flag else 1]), key)
        c.tick()
    # Serialization is no mutation.
    c.check(text(obj) == first, key, 'second serialization differs')


def group(c):
    """All table group descriptions, by the number of properties given."""
    roundtrip(c, TableGroup)


def table(c):
    """All descriptions of single tables."""
    roundtrip(c, Table)


def follow(obj, path):
    for k in path:
        obj = obj[k] if isinstance(k, int) else getattr(obj, k)
    return obj


def built(c):
    """The same descriptions, but made by setting attributes of a minimal one."""
    d, chosen = describe(c, TableGroup)
    c.describe(d)
    c.state(plain(d))
    donor = TableGroup.fromvalue(copy.deepcopy(d))
    obj = TableGroup.fromvalue(minimal())
    for path, v in chosen:
        target, k = path[:-1], path[-1]
        if target and target[-1] == 'dialect' and follow(obj, target) is None:
            follow(obj, target[:-1]).dialect = Dialect()
        src, dst = follow(donor, target), follow(obj, target)
        if k.startswith('@'):
            dst.at_props[k[1:]] = src.at_props[k[1:]]
        elif ':' in k:
            dst.common_props[k] = src.common_props[k]
        elif isinstance(getattr(src, k), list):
            # Modified in place, as lists usually are
            if getattr(dst, k) is None:
                setattr(dst, k, [])
            getattr(dst, k)[:] = getattr(src, k)
        else:
            setattr(dst, k, getattr(src, k))
    exp = canonical(d, 'group')
    got = canonical(json.loads(json.dumps(obj.asdict())), 'group')
    c.check(same(got, exp), 'built:{}'.format(chosen), lambda: '{}, expected {}'.format(got, exp))
    # No two descriptions share state.
    other = canonical(json.loads(json.dumps(TableGroup.fromvalue(minimal()).asdict())), 'group')
    c.check(same(other, canonical(minimal(), 'group')), 'shared', plain(other))
    c.outcome(plain(got))


HARNESSES = [
    Harness('group', group, 2, 3),
    Harness('table', table, 1, 3),
    Harness('built', built, 1, 2),
    Harness('sizes', sizes.c13, None),
]
