import copy
import json
import warnings

from mc.explore import Harness

from csvw import TableGroup

from .c13 import canonical, minimal, plain, put, follow, SLOTS as VALID_SLOTS

ASSUMPTIONS = [
    'Either a ValueError or at least one warning (and the description without the property) will '
    'do; which of the two is demanded where is not decided',
    'null as JSON value is no property value, and thus not in the domain',
    'open, i.e. not decided: empty strings as delimiter, quoteChar, commentPrefix, separator, name, '
    'or link; digit strings as numbers; empty lists of null values or rowTitles; values of '
    'rowTitles which name no column; objects as @type of common properties; absolute URLs which '
    'are neither http nor https in @type; references by (relative) URL to schemas and dialects',
    'invalid URI templates count as empty ones, invalid datatypes as string (as the specification '
    'says)',
    'the required property given as string "true" or "false" is reported, but effective',
    'column names which are reported (whitespace or leading underscore) stay in effect',
]
URL = 'http://example.org/'
VALUES = [
    True, False, 0, 1, -1, 1.5, float('inf'), 10 ** 20, 'x', '', ' ', 'a', 'b', 'zz', '5', 'de',
    'en-GB', 'string', 'integer', 'utf-8', 'latin1', 'rot13', 'hex', 'ltr', 'auto', 'inherit', 'LTR',
    'true', 'start', 'False', 'START', 'TRUE ', 'none', '\n', URL, '_:b', '2020-01-01', '[a-z]+', '(',
    [], [1], ['x'], ['a'], ['x', 1], ['a', 'b'], ['a', 'zz'], ['a', ['b']], [True], [1.5], [{}],
    [['x']], [None], ['\n', ''], ['de'], ['ltr'], ['string'], [URL], [{'a': 1}], [0],
    {}, {'x': 1}, {'x': 'y'}, {'en': 'x'}, {'en': ['x', 'y']}, {'en': 1}, {'en': ['x', 1]},
    {'en': {'x': 'y'}}, {'@value': 'x'}, {'base': 'integer'}, {'base': 'x'}, {'base': ['integer']},
    {'pattern': '0.0'}, {'groupChar': ' '}, {'columnReference': 'a'}, {'columns': 't.csv'},
]
# Outside of the reach of JSON booleans and numbers, but not of other types.
BUILTIN = """anyAtomicType anyURI base64Binary boolean date dateTime dateTimeStamp decimal integer
long int short byte nonNegativeInteger positiveInteger unsignedLong unsignedInt unsignedShort
unsignedByte nonPositiveInteger negativeInteger double duration dayTimeDuration yearMonthDuration
float gDay gMonth gMonthDay gYear gYearMonth hexBinary QName string normalizedString token language
Name NMTOKEN xml html json time number binary datetime any""".split()
LANGS = ['de', 'en-GB', 'en']
ENCODINGS = ['utf-8', 'latin1']


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def number(v):
    return isint(v) or isinstance(v, float)


def strings(v):
    return isinstance(v, list) and bool(v) and all(isinstance(x, str) for x in v)


# Per kind: True (valid), False (invalid), None (open)
def k_string(v):
    return isinstance(v, str)


def k_string1(v):  # the empty string is open
    return None if v == '' else isinstance(v, str)


def k_char(v):
    return None if isinstance(v, str) and len(v) != 1 else isinstance(v, str)


def k_bool(v):
    return isinstance(v, bool)


def k_required(v):
    return None if v in ('true', 'False') else isinstance(v, bool)


def k_count(v):
    return isint(v) and v >= 0


def k_length(v):
    return None if isinstance(v, str) and v.isdigit() else k_count(v)


def k_lang(v):
    return isinstance(v, str) and v in LANGS


def k_encoding(v):
    return isinstance(v, str) and v in ENCODINGS


def k_terminators(v):
    return (isinstance(v, str) and v != '') or (strings(v) and '' not in v)


def k_trim(v):
    return None if v in ('False',) else isinstance(v, bool) or (
        isinstance(v, str) and v in ('true', 'false', 'start', 'end'))


def k_null(v):
    return None if v == [] else isinstance(v, str) or strings(v)


def k_dir(v):
    return isinstance(v, str) and v in ('ltr', 'rtl', 'auto')


def k_textdir(v):
    return isinstance(v, str) and v in ('ltr', 'rtl', 'auto', 'inherit')


def k_pk(v):
    return (isinstance(v, str) and v in 'abc' and v != '') or (
        strings(v) and all(x and x in 'abc' for x in v))


def k_rowtitles(v):
    if k_pk(v) or v == [] or isinstance(v, str) or strings(v):
        return True if k_pk(v) else None
    return False


def k_list(v):
    return isinstance(v, list)


def k_transformations(v):
    if isinstance(v, list) and all(isinstance(x, dict) for x in v):
        return True if v == [] else None
    return False


def k_fks(v):
    return v == [] and isinstance(v, list)


def k_titles(v):
    if v == [] or v == {}:
        return None
    if isinstance(v, str) or strings(v):
        return True
    if v == {'en': ['x', 1]}:  # reported, but the other title may stay
        return None
    return isinstance(v, dict) and all(
        k in LANGS and (isinstance(x, str) or strings(x)) for k, x in v.items())


def k_datatype(v):
    if isinstance(v, str):
        return v in BUILTIN
    if isinstance(v, dict):
        return set(v) <= {'base'} and (k_datatype(v['base']) if 'base' in v else True)
    return False


def k_base(v):
    return isinstance(v, str) and v in BUILTIN


def k_link(v):
    return None if v == '' else isinstance(v, str)


def k_id(v):
    return isinstance(v, str) and not v.startswith('_')


def k_any(v):
    """Common properties"""
    return True if not isinstance(v, (list, dict)) or v else None


def k_never(v):
    return False


def k_min_integer(v):
    if v == '0%':
        return None
    return isint(v) or (isinstance(v, str) and v.isdigit())


def k_min_decimal(v):
    if v in (float('inf'), '0%'):
        return None
    return number(v) or (isinstance(v, str) and v.isdigit())


def k_min_double(v):
    if v == '0E0':
        return None
    return number(v) or (isinstance(v, str) and v.isdigit())


def k_min_date(v):
    return v == '2020-01-01'


def k_regex(v):
    return isinstance(v, str) and v not in ('(', '[', '*')


def k_numformat(v):
    if isinstance(v, dict):
        if v == {}:
            return None
        if not set(v) & {'pattern', 'groupChar', 'decimalChar'}:
            return False
        # Parts of the format may stay in effect.
        return True if all(
            x and isinstance(x, str) and k in ('pattern', 'groupChar', 'decimalChar')
            for k, x in v.items()) else None
    if isinstance(v, str):
        return None
    return False


def k_nonnumformat(v):
    return None if isinstance(v, str) else False


INHERITED = {
    'aboutUrl': k_string, 'datatype': k_datatype, 'default': k_string, 'lang': k_lang,
    'null': k_null, 'ordered': k_bool, 'propertyUrl': k_string, 'required': k_required,
    'separator': k_string1, 'textDirection': k_textdir, 'valueUrl': k_string,
}
TABLELIKE = {
    'tableDirection': k_dir, 'notes': k_list, 'transformations': k_transformations,
}
DIALECT = {
    'encoding': k_encoding, 'lineTerminators': k_terminators, 'quoteChar': k_char,
    'doubleQuote': k_bool, 'skipRows': k_count, 'commentPrefix': k_string1, 'header': k_bool,
    'headerRowCount': k_count, 'delimiter': k_char, 'skipColumns': k_count,
    'skipBlankRows': k_bool, 'skipInitialSpace': k_bool, 'trim': k_trim,
}
LENGTHS = ['length', 'minLength', 'maxLength']
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def slots():
    for path, type_ in [((), 'TableGroup'), (('tables', 0), 'Table'),
                        (('tables', 0, 'tableSchema'), 'Schema'),
                        (('tables', 0, 'tableSchema', 'columns', 0), 'Column'),
                        (('tables', 1, 'tableSchema', 'columns', 1), 'Column')]:
        props = {'@id': k_id, '@type': k_never, 'dc:title': k_any, URL + 'p': k_any}
        props.update(INHERITED)
        if type_ in ('TableGroup', 'Table'):
            props.update(TABLELIKE)
        if type_ == 'Table':
            props['suppressOutput'] = k_bool
        if type_ == 'Schema':
            props.update(primaryKey=k_pk, rowTitles=k_rowtitles, foreignKeys=k_fks)
        if type_ == 'Column':
            props.update(titles=k_titles, suppressOutput=k_bool)
            if path[1] == 1:
                props['virtual'] = k_bool
        props.update({'unknown': k_never, 'Separator': k_never, 'csvw': k_never})
        for k, kind in props.items():
            yield path + (k,), kind
        if type_ in ('TableGroup', 'Table'):
            for k, kind in DIALECT.items():
                yield path + ('dialect', k), kind
            yield path + ('dialect', 'Delimiter'), k_never
            yield path + ('dialect', 'unknown'), k_never
        yield path + ('datatype', 'unknown'), k_never
        for k in LENGTHS:
            yield path + ('datatype', k), k_length
    yield ('tables', 0, 'url'), k_link


SLOTS = list(slots())
DT = ('tables', 0, 'tableSchema', 'columns', 0, 'datatype')


def fresh(path, base=None):
    """The document without the property at `path`."""
    d = minimal()
    if base is not None:
        d = copy.deepcopy(base)
    if path[-2:-1] == ('datatype',):
        put(d, path[:-1] + ('base',), 'string')
    elif path[-2:-1] == ('dialect',):
        put(d, path[:-1] + ('skipRows',), 3) if path[-1] != 'skipRows' else \
            put(d, path[:-1] + ('skipColumns',), 3)
    return d


def load(d):
    """-> (description or None, warnings, exception)"""
    d = copy.deepcopy(d)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            tg = TableGroup.fromvalue(d)
        except ValueError as e:
            return None, [str(x.message) for x in w], e
    return tg, [str(x.message) for x in w], None


def effective(tg):
    return plain(normal(canonical(json.loads(json.dumps(tg.asdict())), 'group')))


def normal(v):
    """
    Explicit defaults, where csvw replaces invalid values by the default of the specification, are
    the same as absent properties.
    """
    if isinstance(v, dict):
        return {
            k: x for k, x in ((k, normal(x)) for k, x in v.items())
            if not (
                (k in ('aboutUrl', 'propertyUrl', 'valueUrl') and x == '')
                or (k == 'ordered' and x is False)
                or (k == '@id' and x is None)
                or (k == 'datatype' and x == {'base': 'string'}))}
    if isinstance(v, list):
        return [normal(x) for x in v]
    return v


def usable(tg):
    """Whatever has been accepted must be usable."""
    for t in tg.tables:
        for col in t.tableSchema.columns:
            str(col), col.header, col.has_title('x'), col.inherit('datatype'), col.inherit_null()
        t.tableSchema.get_column('x')
        dialect = t.inherit('dialect')
        if dialect:
            dialect.as_python_formatting_parameters()
            dialect.trimmer('x')


def judge(c, key, d, without, kinds):
    """`kinds`: verdicts on the properties by which `d` differs from `without`."""
    tg, w, e = load(d)
    c.outcome(repr(e), w, tg is not None and plain(tg.asdict()))
    if e is None:
        usable(tg)
        text = json.dumps(tg.asdict())
        again, _, e2 = load(json.loads(text))
        c.check(e2 is None, key, lambda: 'accepted, but not when read again: {}'.format(e2))
    if None in kinds:
        return
    if False in kinds:
        if e is not None:
            return
        c.check(w, key, lambda: 'silently accepted: {}'.format(plain(tg.asdict())))
        base, w0, e0 = load(without)
        c.check(e0 is None, key, lambda: 'document without the property fails {}'.format(e0))
        c.check(effective(tg) == effective(base), key, lambda: 'not as without: {} vs {}'.format(
            effective(tg), effective(base)))
    else:
        c.check(e is None, key, lambda: 'valid, but {!r}'.format(e))
        c.check(not w, key, lambda: 'valid, but {}'.format(w))


def single(c):
    """Each property of each object x each value, in an otherwise minimal description."""
    path, kind = c.every('property', SLOTS)
    v = c.every('value', VALUES)
    if path[-1] == '@type':
        verdict = False
    elif path[-1] == 'virtual' and v is True:
        verdict = True
    else:
        verdict = kind(v)
    without = fresh(path)
    d = copy.deepcopy(without)
    put(d, path, copy.deepcopy(v))
    c.describe(d)
    c.state(plain(d))
    judge(c, json.dumps([path, v]), d, without, [verdict])


def rich(path):
    """
    A description where all the other properties of the object (and its containers) have some valid
    value.
    """
    d = minimal()
    put(d, ('tables', 1, 'tableSchema', 'columns', 1, 'name'), 'b')
    for p, values in VALID_SLOTS:
        if p[:-1] in (path[:-1], path[:-2]) and p != path and p[-1] not in ('virtual',):
            if p + (path[-1],) == path:
                continue
            if path[:-1] and p == path[:-1]:
                continue
            put(d, p, copy.deepcopy(values[0] if values[0] is not None else 'x'))
    return d


def combined(c):
    """Each property x each value, where all other properties of the object are given."""
    path, kind = c.every('property', SLOTS)
    v = c.every('value', VALUES)
    verdict = kind(v)
    without = fresh(path, rich(path))
    d = copy.deepcopy(without)
    put(d, path, copy.deepcopy(v))
    if path[-1] == 'header':
        return  # overruled by headerRowCount
    c.describe(d)
    c.state(plain(d))
    judge(c, json.dumps(['rich', path, v]), d, without, [verdict])


def pairs(c):
    """Several properties, valid and invalid ones: each is judged on its own."""
    d, without = minimal(), minimal()
    kinds, chosen = [], []
    small = [True, 0, -1, 1.5, 'x', [], ['x', 1], {'x': 1}, 'a', 'de']
    n = 0
    for path, kind in SLOTS:
        if path[-1] in ('@type', 'csvw', 'Separator') or path[-2:-1] == ('datatype',):
            continue
        v = c.choose('.'.join(str(x) for x in path), [Ellipsis] + small)
        if v is Ellipsis:
            continue
        n += 1
        verdict = kind(v)
        kinds.append(verdict)
        chosen.append((path, v))
        put(d, path, copy.deepcopy(v))
        if verdict is not False:
            put(without, path, copy.deepcopy(v))
        elif path[-2:-1] == ('dialect',):
            put(without, path[:-1], follow_dict(without, path[:-1]))
    c.describe(d)
    c.state(plain(d))
    if any(p == ('tables', 1, 'tableSchema', 'columns', 1, 'virtual') for p, _ in chosen):
        pass
    judge(c, json.dumps(['pair', chosen]), d, without, kinds)


def follow_dict(d, path):
    for k in path:
        d = d.get(k, {}) if isinstance(d, dict) else d[k]
    return d


DT_PROPS = {
    'string': dict({k: k_length for k in LENGTHS}, **{k: k_never for k in BOUNDS},
                   format=k_regex),
    'binary': dict({k: k_length for k in LENGTHS}, **{k: k_never for k in BOUNDS},
                   format=k_nonnumformat),
    'integer': dict({k: k_never for k in LENGTHS}, **{k: k_min_integer for k in BOUNDS},
                    format=k_numformat),
    'decimal': dict({k: k_never for k in LENGTHS}, **{k: k_min_decimal for k in BOUNDS},
                    format=k_numformat),
    'double': dict({k: k_never for k in LENGTHS}, **{k: k_min_double for k in BOUNDS},
                   format=k_numformat),
    'date': dict({k: k_never for k in LENGTHS}, **{k: k_min_date for k in BOUNDS},
                 format=k_nonnumformat),
    'dateTime': dict({k: k_never for k in LENGTHS}, format=k_nonnumformat),
    'time': dict({k: k_never for k in LENGTHS}, format=k_nonnumformat),
    'duration': dict({k: k_never for k in LENGTHS}, format=k_regex),
    'boolean': dict({k: k_never for k in LENGTHS + BOUNDS}, format=k_nonnumformat),
    'anyURI': dict({k: k_length for k in LENGTHS}, **{k: k_never for k in BOUNDS}),
    'json': dict({k: k_length for k in LENGTHS}, **{k: k_never for k in BOUNDS},
                 format=k_nonnumformat),
    'gYear': dict({k: k_never for k in BOUNDS}),
}
PROBES = {'string': ['', 'x', '5', '(', 'abc'], 'integer': ['5', '1,000', '-1'],
          'decimal': ['5.5', '1,000.0', '1 000'], 'double': ['5.5', '1e3', 'INF'],
          'date': ['2020-01-01', '1.1.2020', 'x'], 'dateTime': ['2020-01-01T10:00:00', 'x'],
          'time': ['10:00:00', 'x'], 'duration': ['P1D', 'x'], 'boolean': ['true', '1', 'Y', 'x'],
          'json': ['{}', '1', '{'], 'binary': ['YQ==', '?'], 'anyURI': [URL, 'x'], 'gYear': ['2020']}


def behaviour(tg, base):
    col = tg.tables[0].tableSchema.columns[0]
    res = []
    for s in PROBES[base]:
        try:
            v = col.datatype.read(s)
            res.append((repr(v), col.datatype.formatted(v)))
        except ValueError as e:
            res.append('ValueError')
    return res


DT_VALUES = VALUES + [{'pattern': 1}, {'pattern': ''}, {'decimalChar': ',', 'unknown': 1},
                      {'pattern': '0', 'x': 'y'}, '0;0;0', 'Y|N', '|', '{', '{"type": 1}', 'yyyy',
                      'd.M.yyyy', 'HH:mm:ss X', '#0', 'E', '0E0', '0%', '[', '*']


XSD = ['http://www.w3.org/2001/XMLSchema#' + s for s in ('integer', 'date')]
DT_VALUES += XSD


def datatype(c):
    """Derived datatypes: each property x each value x base."""
    base = c.every('base', list(DT_PROPS))
    prop = c.every('property', list(DT_PROPS[base]) + ['@id', '@type', 'unknown', 'dc:title'])
    v = c.every('value', DT_VALUES)
    if prop in DT_PROPS[base]:
        verdict = DT_PROPS[base][prop](v)
    elif prop == '@id':  # which must not be the one of a built-in datatype
        verdict = False if v in XSD else k_id(v)
    else:
        verdict = k_any(v) if prop == 'dc:title' else False
    without = minimal()
    put(without, DT + ('base',), base)
    d = copy.deepcopy(without)
    put(d, DT + (prop,), copy.deepcopy(v))
    c.describe(d)
    c.state(plain(d))
    key = json.dumps(['datatype', base, prop, v])
    tg, w, e = load(d)
    c.outcome(repr(e), w, tg is not None and plain(tg.asdict()))
    if e is None:
        got = behaviour(tg, base)  # must not fail
        if verdict is False:
            ref, _, _ = load(without)
            exp = behaviour(ref, base)
            c.check(got == exp, key, lambda: 'behaves as {}, not {}'.format(got, exp))
            c.check(w, key, 'silently accepted')
            if prop != 'format':  # formats may be kept, as long as they have no effect
                c.check(effective(tg) == effective(ref), key, lambda: '{} vs {}'.format(
                    effective(tg), effective(ref)))
    if verdict is True:
        c.check(e is None and not w, key, lambda: 'valid, but {!r} {}'.format(e, w))


# -- common properties --------------------------------------------------------------------------
CP_VALUES = {
    '@value': ['x', '', 1, 1.5, True, None, [1], {'x': 1}, {}],
    '@language': ['de', 'en-GB', 'xx-invalid-language', 1, ''],
    '@type': ['xsd:integer', 'string', 'Table', URL, 'zz', 'zz:x', 'xsdx', 'dcterms', '_:b', 1, ['Table'], ['zz'],
              ['Table', '_:b'], True],
    '@id': [URL, 'x', '_:b', 1, ['x']],
    '@foo': ['x'],
    'dc:title': ['x', 1, ['x'], {'@value': 'y'}, {'@value': 'y', '@language': 'de'},
                 {'@language': 'de'}, {'@value': []}, [{'@value': 'y', '@foo': 1}], {'@type': 'zz'}],
}
TYPES_OK = ['xsd:integer', 'string', 'Table', URL]


def common_ok(v):
    """True: valid, False: must be an error, 'warn': must be reported"""
    if isinstance(v, list):
        res = [common_ok(x) for x in v]
        return next((r for r in (False, None, 'warn') if r in res), True)
    if not isinstance(v, dict):
        return True
    res = True
    if any(k.startswith('@') and k not in ('@value', '@language', '@type', '@id') for k in v):
        return False
    if '@value' in v:
        if set(v) not in ({'@value'}, {'@value', '@type'}, {'@value', '@language'}):
            return False
        if not isinstance(v['@value'], (str, int, float, bool)):
            return False
    elif '@language' in v:
        return False
    if '@type' in v:
        types = v['@type'] if isinstance(v['@type'], list) else [v['@type']]
        if any(t not in TYPES_OK for t in types):
            return False
    if '@id' in v:
        if not isinstance(v['@id'], str):
            res = 'warn'
        elif v['@id'].startswith('_:'):
            return False
    if '@language' in v and v['@language'] not in LANGS:
        res = 'warn'
    for k, x in v.items():
        if not k.startswith('@'):
            r = common_ok(x)
            if r is not True:
                return r
    return res


def common(c):
    """Objects as values of common properties, of every kind of description, possibly nested."""
    path = c.every('object', [
        (), ('tables', 0), ('tables', 0, 'tableSchema'), ('tables', 0, 'tableSchema', 'columns', 0),
        DT])
    nest = c.every('nesting', ['plain', 'list', 'object', 'list in object'])
    obj = {}
    for k, values in CP_VALUES.items():
        v = c.every(k, [Ellipsis] + values) if c.tier == 'thorough' or k in (
            '@value', '@language', '@type') and nest == 'plain' and path == () else c.choose(
            k, [Ellipsis] + values)
        if v is not Ellipsis:
            obj[k] = copy.deepcopy(v)
    v = {'plain': obj, 'list': ['x', obj], 'object': {'dc:x': obj},
         'list in object': {'dc:x': [obj]}}[nest]
    d = minimal()
    if path == DT:
        put(d, path + ('base',), 'string')
    put(d, path + (URL + 'p',), copy.deepcopy(v))
    c.describe(d)
    c.state(plain(d))
    key = json.dumps(['common', path, v])
    tg, w, e = load(d)
    c.outcome(repr(e), w, tg is not None and plain(tg.asdict()))
    ok = common_ok(v)
    if ok is True:
        c.check(e is None and not w, key, lambda: 'valid, but {!r} {}'.format(e, w))
        got = follow(tg, path).common_props[URL + 'p']
        c.check(got == v, key, lambda: 'became {}'.format(got))
    elif ok is False:
        c.check(e is not None or w, key, 'silently accepted')
    elif ok == 'warn':
        c.check(e is not None or w, key, 'not reported')
        if e is None:
            def clean(x):
                if isinstance(x, list):
                    return [clean(y) for y in x]
                if isinstance(x, dict):
                    return {k: clean(y) for k, y in x.items() if not (
                        (k == '@id' and not isinstance(y, str))
                        or (k == '@language' and y not in LANGS))}
                return x
            got = clean(follow(tg, path).common_props[URL + 'p'])
            raw = follow(tg, path).common_props[URL + 'p']
            c.check(got == clean(v), key, lambda: 'became {}'.format(got))
            c.check('@language' not in plain(raw) or '"@language": "' in plain(raw), key)


# -- structure -----------------------------------------------------------------------------------
REF = {'resource': 'u.csv', 'columnReference': 'a'}
STRUCTURES = [
    # (name, path, value, verdict)
    (('tables',), v, False) for v in (True, 0, 1.5, 'x', {}, {'x': 1}, {'url': 't.csv'})
] + [
    (('tables', 1), v, False) for v in (True, 0, 1.5, 'x', [], ['x'], {}, {'url': 1})
] + [
    (('tables', 0, 'tableSchema'), v, False) for v in (True, 0, 1, 1.5, [], ['x'], [{}])
] + [
    (p + ('dialect',), v, False) for p in ((), ('tables', 0))
    for v in (True, 0, 1, 1.5, [], ['x'], [{}], {'x': 'y'})
] + [
    (('tables', 0, 'tableSchema', 'columns'), v, False) for v in (
        True, 0, 1.5, 'x', {}, {'name': 'x'})
] + [
    (('tables', 0, 'tableSchema', 'columns', 2), v, False) for v in (True, 0, 1.5, 'x', [], ['x'])
] + [
    (('tables', 0, 'tableSchema', 'columns', 2, 'name'), v, verdict) for v, verdict in [
        (True, False), (0, False), (1.5, False), ([], False), (['x'], False), ({}, False),
        ({'x': 'y'}, False), ('a', False), ('b', False), ('x', True), (' x', 'report'),
        ('_x', 'report'), ('x y', 'report'), ('x\ty', 'report')]
] + [
    (('tables', 0, 'tableSchema'), v, verdict) for v, verdict in [
        ({'columns': [{'name': 'a'}, {'titles': 'T'}], 'primaryKey': 'a'}, True),
        ({'columns': [{'name': 'a'}, {'titles': 'T'}], 'primaryKey': 'T'}, 'report'),
        ({'columns': [{'name': 'a'}, {'titles': 'T'}], 'primaryKey': ['a', 'T']}, 'report'),
        ({'columns': [{'name': 'a'}, {'titles': 'T'}], 'primaryKey': ['T', 'a']}, 'report'),
        ({'columns': [{'name': 'a', 'titles': 'T'}], 'primaryKey': 'T'}, 'report'),
        ({'columns': [{'name': 'a'}, {'name': 'b'}], 'primaryKey': ['a', 'c']}, 'report'),
        ({'columns': [{'name': 'a'}, {'name': 'b'}], 'primaryKey': ['b', 'a']}, True),
    ]
] + [
    (('tables', 0, 'tableSchema', 'columns', i, 'virtual'), True, i == 2) for i in range(3)
] + [
    (('tables', 0, 'tableSchema', 'foreignKeys'), v, verdict) for v, verdict in [
        (True, False), (0, False), ('x', False), ({}, False), ({'x': 1}, False),
        ([1], False), (['x'], False), ([[]], False), ([{}], False),
        ([{'columnReference': 'a', 'reference': REF}], True),
        ([{'columnReference': ['a', 'b'], 'reference': dict(REF, columnReference=['a', 'b'])}],
         True),
        ([{'columnReference': 'a'}], False), ([{'reference': REF}], False),
        ([{'columnReference': 'a', 'reference': None}], False),
        ([{'columnReference': 'a', 'reference': 'x'}], False),
        ([{'columnReference': 'a', 'reference': 1}], False),
        ([{'columnReference': 'a', 'reference': []}], False),
        ([{'columnReference': 'a', 'reference': {}}], False),
        ([{'columnReference': 'a', 'reference': {'resource': 'u.csv'}}], False),
        ([{'columnReference': 'a', 'reference': {'columnReference': 'a'}}], False),
        ([{'columnReference': 'a', 'reference': dict(REF, x=1)}], False),
        ([{'columnReference': 'a', 'reference': dict(REF, resource=1)}], False),
        ([{'columnReference': 'a', 'reference': dict(REF, columnReference=1)}], False),
        ([{'columnReference': 'a', 'reference': dict(REF, columnReference=[])}], False),
        ([{'columnReference': 'a', 'reference': dict(REF, schemaReference=URL)}], False),
        ([{'columnReference': 'a', 'reference': {
            'schemaReference': URL, 'columnReference': 'a'}}], True),
        ([{'columnReference': 'a', 'reference': REF, 'x': 1}], False),
        ([{'columnReference': 'a', 'reference': REF, 'dc:x': 1}], False),
        ([{'columnReference': 1, 'reference': REF}], False),
        ([{'columnReference': [], 'reference': REF}], False),
        ([{'columnReference': [1], 'reference': REF}], False),
        ([{'columnReference': {'a': 1}, 'reference': REF}], False),
        ([{'columnReference': 'a', 'reference': REF}, 1], 'report'),
        ([{'columnReference': 'a', 'reference': REF}, {}], False),
    ]
] + [
    (('@context',), v, verdict) for v, verdict in [
        (URL, False), (1, False), (True, False), ({}, False), ({'@base': URL}, False),
        ([], None), (['x'], False), ([1], False), ([[]], False),
        (['http://www.w3.org/ns/csvw'], True),
        (['http://www.w3.org/ns/csvw', {'@language': 'de'}], True),
        (['http://www.w3.org/ns/csvw', {'@base': URL}], True),
        (['http://www.w3.org/ns/csvw', {'@base': URL, '@language': 'de'}], True),
        (['http://www.w3.org/ns/csvw', {'@foo': URL}], False),
        (['http://www.w3.org/ns/csvw', {'@language': 'de', 'x': 1}], False),
        (['http://www.w3.org/ns/csvw', {'@language': 1}], 'report'),
        (['http://www.w3.org/ns/csvw', {'@language': 'xx-invalid'}], 'report'),
        (['http://www.w3.org/ns/csvw', {'@base': 1}], False),
        (['http://www.w3.org/ns/csvw', 'http://www.w3.org/ns/csvw#'], False),
    ]
] + [
    (('tables', 0, 'transformations'), v, verdict) for v, verdict in [
        ([{'url': 'x', 'scriptFormat': URL, 'targetFormat': URL}], True),
        ([{'url': 'x', 'scriptFormat': URL, 'targetFormat': URL, 'source': 'json', 'titles': 'x',
           'dc:title': 'x', '@type': 'Template'}], True),
        ([{'url': 'x', 'scriptFormat': URL, 'targetFormat': URL, 'x': 'y'}], 'report'),
        ([{'url': 'x', 'scriptFormat': URL, 'targetFormat': URL, '@type': 'x'}], False),
    ]
] + [
    (('tables', 0, 'url'), v, False) for v in (True, 0, 1.5, [], ['x'], {}, {'x': 'y'})
]


OTHERS = [
    (('tables', 0, 'tableSchema', 'primaryKey'), ['a']),
    (('tables', 0, 'tableSchema', 'aboutUrl'), 'http://x.org/{a}'),
    (('tables', 0, 'tableSchema', 'rowTitles'), ['a']),
    (('tables', 0, 'dialect'), {'header': False}),
    (('tables', 0, 'tableSchema', 'columns', 0, 'titles'), 'A'),
    (('tables', 1, 'tableSchema', 'foreignKeys'), [
        {'columnReference': 'a', 'reference': {'resource': 't.csv', 'columnReference': 'a'}}]),
    (('lang',), 'de'),
    (('null',), ['NA']),
]


def structure(c):
    """Values which concern the structure of the description, and valid counterparts."""
    path, v, verdict = c.every('structure', STRUCTURES)
    other = c.every('together with', [None] + [x for x in OTHERS if x[0] != path[:len(x[0])] and path != x[0][:-1]])

    def start():
        d = minimal()
        if other and len(path) > 1:
            put_(d, other[0], copy.deepcopy(other[1]))
        return d
    d = start()
    put_(d, path, copy.deepcopy(v))
    c.describe(d)
    c.state(plain(d))
    key = json.dumps(['structure', path, v] + ([other[0]] if other else []))
    tg, w, e = load(d)
    c.outcome(repr(e), w, tg is not None and plain(tg.asdict()))
    if e is None:
        usable(tg)
        json.dumps(tg.asdict())
    if verdict is True:
        c.check(e is None and not w, key, lambda: 'valid, but {!r} {}'.format(e, w))
        exp = plain(canonical(d, 'group'))
        got = plain(canonical(json.loads(json.dumps(tg.asdict())), 'group'))
        c.check(exp == got, key, lambda: 'became {}'.format(got))
    elif verdict in (False, 'report'):
        c.check(e is not None or w, key, 'silently accepted')
        if verdict is False and e is None and len(path) > 1 and path[-1] not in ('name',):
            without = start()
            if isinstance(path[-1], str):
                follow_dict(without, path[:-1]).pop(path[-1], None)
            else:
                del follow_dict(without, path[:-1])[path[-1]]
            base, _, _ = load(without)
            c.check(effective(tg) == effective(base), key, lambda: '{} vs {}'.format(
                effective(tg), effective(base)))


def put_(d, path, v):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


HARNESSES = [
    Harness('single', single, None),
    Harness('combined', combined, None),
    Harness('datatype', datatype, None),
    Harness('common', common, 1, None),
    Harness('structure', structure, None),
    Harness('pairs', pairs, 1, 2),
]
