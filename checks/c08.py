import io
import math
import base64
import decimal
import datetime
import itertools
import collections
import urllib.parse

import rfc3986
from isodate.duration import Duration

from mc.explore import Harness

from csvw import Datatype, Column, TableGroup

ASSUMPTIONS = [
    'a date is a datetime at midnight without time zone, a time a datetime of which only the time '
    'counts, without fractions of seconds (that is what the default formats can express)',
    'NaN and other values that do not equal themselves are compared by their type',
    'text values of normalizedString are already normalized, those of NMTOKEN consist of letters, '
    'digits and .:-_',
    'durations carry no fractions below microseconds; Duration objects have at least a year or '
    'month',
]
D = decimal.Decimal
TZ = [None, datetime.timezone.utc] + [
    datetime.timezone(datetime.timedelta(minutes=s * m)) for s in (1, -1) for m in (
        30, 60, 345, 570, 765, 840)]


def texts(alphabet, n):
    return [''.join(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def integers(lo=-math.inf, hi=math.inf):
    res = set()
    for base in [0, 10, 100, 1000, 10 ** 6, 10 ** 9] + [2 ** k for k in (
            7, 8, 15, 16, 31, 32, 53, 63, 64, 100, 200)] + [10 ** k for k in (28, 29, 40)] + [
            123456789012345678901234567890123]:
        for d in range(-3, 4):
            for s in (1, -1):
                res.add(s * base + d)
    for b in (lo, hi):
        if math.isfinite(b):
            res |= {b, b + 1, b - 1}
    return sorted(i for i in res if lo <= i <= hi)


def decimals(tier):
    digits = [0, 1, 5, 10, 12, 99, 100, 120, 1000, 123456, 10 ** 9, 10 ** 27 + 1, 10 ** 28 + 1,
              10 ** 30 + 1, 123456789012345678901234567890123456789]
    span = 40 if tier == 'thorough' else 33
    for n, e, s in itertools.product(digits, range(-span, span), (0, 1)):
        yield D((s, tuple(int(c) for c in str(n)), e))
    for v in ['Infinity', '-Infinity', 'NaN', '1E+400', '1E-400']:
        yield D(v)


def floats():
    base = [0.0, 1.0, 0.1, 1 / 3, 2.5, 1e15, 1e16, 123456789.123456789, 1e22, 1e23, 1e100, 1e308,
            5e-324, 2.2250738585072014e-308, 1e-4, 1e-5, 1e-7, 2 ** 53, 2 ** 53 + 2, 0.30000000000004]
    for b in base:
        for v in (b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf)):
            yield float(v)
            yield -float(v)
    yield from (math.inf, -math.inf, math.nan)


def datetimes(tzs, micros=(0, 1, 10, 100000, 120000, 123456, 999999), years=None):
    for y in years or (1, 99, 999, 1000, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2024, 2038,
                       9999):
        for mo, d in [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (10, 9), (12, 31)]:
            for h, mi, s in [(0, 0, 0), (0, 0, 1), (9, 5, 7), (12, 0, 0), (13, 30, 0), (23, 59, 59)]:
                for us in micros:
                    for tz in tzs:
                        try:
                            yield datetime.datetime(y, mo, d, h, mi, s, us, tz)
                        except ValueError:
                            pass


def dates():
    for y in (1, 33, 999, 1000, 1899, 1900, 1999, 2000, 2023, 2024, 9999):
        for o in range(366):
            try:
                d = datetime.datetime(y, 1, 1) + datetime.timedelta(days=o)
            except OverflowError:
                continue
            yield d


def times():
    for h, mi, s in itertools.product(
            (0, 1, 9, 10, 11, 12, 13, 23), (0, 1, 9, 10, 30, 59), (0, 1, 9, 10, 59)):
        yield datetime.datetime(2000, 1, 1, h, mi, s)


def timedeltas():
    for d, s, us in itertools.product(
            (0, 1, 7, 30, 31, 365, 400, -1, -8), (0, 1, 59, 60, 61, 3599, 3600, 3661, 86399),
            (0, 1, 500000, 123456, 999999)):
        yield datetime.timedelta(days=d, seconds=s, microseconds=us)


def durations():
    yield from timedeltas()
    for y, m, td in itertools.product(
            (0, 1, 2, 10), (0, 1, 11, 12, 13), (
                datetime.timedelta(0), datetime.timedelta(1), datetime.timedelta(0, 3661),
                datetime.timedelta(3, 1, 500000))):
        if y or m:
            yield Duration(years=y, months=m) + td
            yield -(Duration(years=y, months=m) + td)


def jsons():
    atoms = [None, True, False, 0, 1, -1, 1.5, 10 ** 20, '', 'a', 'ä"\\\n', '\u2028', '😀']
    yield from atoms
    yield from ([], collections.OrderedDict(), [[]], [[], [1]], [{}])
    for a, b in itertools.product(atoms, repeat=2):
        yield [a, b]
        for k1, k2 in [('b', 'a'), ('', ' '), ('ä', 'a.b')]:
            yield collections.OrderedDict([(k1, a), (k2, [b])])
            yield collections.OrderedDict([(k1, collections.OrderedDict([(k2, a)]))])


def binaries():
    b = bytes([0, 9, 10, 13, 32, 43, 47, 61, 65, 127, 128, 255])
    for k in range(4):
        for t in itertools.product(b, repeat=k):
            yield bytes(t)
    for n in (54, 57, 58, 76, 77, 100, 200, 255):
        yield bytes(range(n))
    yield bytes(range(256)) * 3


CHARS = ['a', ' ', '\t', '\n', '\r', '"', ',', '0', 'ä', '\u3000', '😀', '\x00', '\\', '|', '<', '&']
TEXTS = texts(CHARS, 3)
URIS = ['', 'a', 'a/b', '/a?b=c&d#e', 'http://example.org', 'http://example.org/',
        'https://user@example.org:8080/p/q;r?x=%20y#z', 'urn:isbn:0-395-36341-1', 'mailto:a@b.c',
        '//example.org/x', '?q', '#f', 'ftp://example.org/%7Ea', 'http://[::1]/', 'a%20b',
        'http://example.org/ä', '..', './x', 'a:b', '../x?y#']
RANGES = {
    'int': (-math.inf, math.inf), 'integer': (-math.inf, math.inf),
    'long': (-2 ** 63, 2 ** 63 - 1), 'short': (-2 ** 15, 2 ** 15 - 1), 'byte': (-128, 127),
    'unsignedLong': (0, 2 ** 64 - 1), 'unsignedInt': (0, 2 ** 32 - 1),
    'unsignedShort': (0, 2 ** 16 - 1), 'unsignedByte': (0, 255),
    'nonNegativeInteger': (0, math.inf), 'positiveInteger': (1, math.inf),
    'nonPositiveInteger': (-math.inf, 0), 'negativeInteger': (-math.inf, -1),
}
STRINGS = ['string', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth', 'xml', 'html',
           'any']


def domain(dt, tier):
    """The value space (a dense subset of it) of a datatype."""
    base = dt if isinstance(dt, str) else dt['base']
    if base in STRINGS:
        return TEXTS
    if base == 'normalizedString':
        return [t for t in TEXTS if not set(t) & set('\r\n\t') and t == t.strip()]
    if base == 'NMTOKEN':
        return texts('aZ0.:-_ä', 3)[1:]
    if base == 'anyURI':
        # As text they are normalized: Relative paths with dots lose them.
        return [u for u in URIS if '.' not in u.split('/')[0]] + [
            rfc3986.URIReference.from_string(u) for u in URIS + ['file:///x', 'HTTP://Ex.org/%7e']]
    if base in RANGES:
        return integers(*RANGES[base])
    if base == 'decimal':
        return list(decimals(tier))
    if base in ('float', 'number', 'double'):
        return list(floats())
    if base == 'boolean':
        return [True, False]
    if base in ('datetime', 'dateTime'):
        return list(datetimes(TZ if tier == 'thorough' else TZ[:6]))
    if base == 'dateTimeStamp':
        return list(datetimes(TZ[1:], micros=(0, 1, 123456, 120000, 999999),
                              years=(99, 1000, 1999, 2024)))
    if base == 'date':
        return list(dates())
    if base == 'time':
        return list(times())
    if base == 'duration':
        return list(durations())
    if base == 'dayTimeDuration':
        return list(timedeltas())
    if base == 'yearMonthDuration':
        return [Duration(years=y, months=m) for y in range(3) for m in range(12) if y or m]
    if base == 'json':
        return list(jsons())
    if base in ('binary', 'base64Binary', 'hexBinary'):
        return list(binaries())
    raise NotImplementedError(base)


DATATYPES = STRINGS + ['normalizedString', 'NMTOKEN', 'anyURI'] + list(RANGES) + [
    'decimal', 'float', 'number', 'double', 'boolean', {'base': 'boolean', 'format': 'J|N'},
    {'base': 'boolean', 'format': 'x y|z'}, 'datetime', 'dateTime', 'dateTimeStamp', 'date', 'time',
    'duration', 'dayTimeDuration', 'yearMonthDuration', 'json', 'binary', 'base64Binary',
    'hexBinary',
    {'base': 'decimal', 'format': {'groupChar': ','}},
    {'base': 'decimal', 'format': {'groupChar': '.', 'decimalChar': ','}},
    {'base': 'decimal', 'format': {'groupChar': ' ', 'decimalChar': ','}},
    {'base': 'decimal', 'format': {'decimalChar': ','}},
    {'base': 'integer', 'format': {'groupChar': '.'}},
    {'base': 'number', 'format': {'groupChar': '.', 'decimalChar': ','}},
    {'base': 'double', 'format': {'decimalChar': ','}},
    {'base': 'integer', 'format': {'groupChar': "'"}},
    {'base': 'string', 'format': '[^x]*'},
    {'base': 'string', 'maxLength': 3},
    {'base': 'json', 'format': '{"type": ["object", "array", "string", "number", "boolean", "null"]}'},
]


def canonical(v, base):
    """What makes up the identity of a value."""
    if base in STRINGS or base in ('normalizedString', 'NMTOKEN'):
        return v
    if base == 'anyURI':
        v = v if isinstance(v, str) else v.unsplit()
        return ''.join(x if x.isascii() else urllib.parse.quote(x) for x in v)
    if base == 'time':
        return v.time().isoformat(), v.tzinfo
    if isinstance(v, datetime.datetime):
        return v.replace(tzinfo=None), v.utcoffset()
    if isinstance(v, float) or isinstance(v, D):
        return type(v), repr(float(v)) if v != v else v, (
            math.copysign(1, v) if isinstance(v, float) else 0)
    if isinstance(v, Duration):
        return 'Duration', v.years * 12 + v.months, v.tdelta
    if isinstance(v, datetime.timedelta):
        return 'timedelta', v
    if isinstance(v, dict):
        return 'dict', [(k, canonical(x, base)) for k, x in v.items()]
    if isinstance(v, list):
        return [canonical(x, base) for x in v]
    return type(v), v


def plain_decimal(s):
    import re
    return re.fullmatch(r'-?[0-9]+(\.[0-9]+)?|-?INF|NaN', s)


def number_text(s, dt):
    fmt = dt.get('format', {}) if isinstance(dt, dict) else {}
    if 'groupChar' in fmt:
        s = s.replace(fmt['groupChar'], '')
    return s.replace(fmt.get('decimalChar', '.'), '.')


def atomic(c):
    """parse(format(v)) == v, and reading what a column writes, for every value of the domain."""
    dt = c.every('datatype', DATATYPES)
    base = dt if isinstance(dt, str) else dt['base']
    part = c.every('part', list(range(8)))
    values = domain(dt, c.tier)[part::8]
    how = c.every('via', ['datatype', 'column'])
    c.state(dt, part, how)
    t = Datatype.fromvalue(dt if isinstance(dt, str) else dict(dt))
    col = Column.fromvalue({'name': 'c', 'datatype': dt if isinstance(dt, str) else dict(dt)})
    for v in values:
        before = canonical(v, base)
        s = (t.formatted if how == 'datatype' else col.write)(v)
        c.check(isinstance(s, str), 'type', repr(s))
        if how == 'column' and s == '':
            continue
        got = (t.read if how == 'datatype' else col.read)(s)
        c.describe(dict(datatype=dt, value=repr(v), text=s, got=repr(got)))
        if base in ('decimal',) or base in RANGES:
            n = number_text(s, dt)
            c.check(plain_decimal(n), 'notation', s)
            if math.isfinite(v):
                c.check(D(n) == v, 'number', lambda: '{!r} formatted as {}'.format(v, s))
        c.check(canonical(got, base) == before, 'roundtrip', lambda: '{}: {!r} -> {!r} -> {!r}'.format(
            dt, v, s, got))
        if base == 'anyURI':
            c.check(t.read(t.formatted(got)) == got, 'uri', s)
        c.check(canonical(v, base) == before, 'mutated', repr(v))
        c.trace()
    c.outcome(dt, part)


NUMERIC = [dt for dt in DATATYPES if (dt if isinstance(dt, str) else dt['base']) in ('decimal', 'float', 'number', 'double')] + list(RANGES) + [
    {'base': 'integer', 'format': {'groupChar': '.'}}, {'base': 'integer', 'format': {'groupChar': "'"}}]


def numbers(c):
    """Numbers of other types than the one the values are parsed to."""
    dt = c.every('datatype', NUMERIC)
    base = dt if isinstance(dt, str) else dt['base']
    given = c.every('type', ['int', 'float', 'Decimal'])
    how = c.every('via', ['datatype', 'column', 'list'])
    c.state(dt, given, how)
    t = Datatype.fromvalue(dt if isinstance(dt, str) else dict(dt))
    spec = {'name': 'c', 'datatype': dt if isinstance(dt, str) else dict(dt)}
    col = Column.fromvalue(dict(spec, separator=';') if how == 'list' else spec)
    if base in RANGES:
        # Floats and decimals with fraction digits are not valid, even if these are zeros.
        values = [] if given == 'float' else [D(i) if given == 'Decimal' else i for i in integers(*RANGES[base])]
        if given == 'Decimal':
            values += [v for v in map(D, ['1E+1', '1E+2', '12E+1']) if RANGES[base][0] <= v <= RANGES[base][1]]
    elif given == 'int':
        values = integers()
    elif given == 'float':
        values = [v for v in floats() if math.isfinite(v)] + [
            s * m * 10.0 ** e for s in (1, -1) for m in (1, 1.25, 1.2345678901234567) for e in range(-30, 31)]
    else:
        values = [v for v in decimals(c.tier) if v.is_finite()]
    for v in values:
        s = (t.formatted(v) if how == 'datatype' else col.write([v, v])) if how != 'column' else col.write(v)
        got = t.read(s) if how == 'datatype' else col.read(s)
        c.describe(dict(datatype=dt, value=repr(v), text=s, got=repr(got)))
        exact = D(float.__repr__(v)) if isinstance(v, float) else D(v)
        if how == 'list':
            c.check(len(got) == 2 and got[0] == got[1], 'list', repr(got))
            got = got[0]
        if base == 'decimal' or base in RANGES:
            ok = got == exact
        else:
            ok = isinstance(got, float) and (got == float(exact))
        c.check(ok, 'number', lambda: '{}: {!r} -> {!r} -> {!r}'.format(dt, v, s, got))
        c.trace()
    c.outcome(dt, given)


def moments(c):
    """Dates and times without the other part."""
    base = c.every('datatype', ['date', 'time'])
    fmt = c.every('format', [None] + {'date': ['dd.MM.yyyy', 'yyyyMMdd', 'M/d/yyyy'], 'time': ['HH:mm:ss.SSSSSS', 'HHmmss', 'HH:mm']}[base])
    how = c.every('via', ['datatype', 'column'])
    dt = {'base': base, 'format': fmt} if fmt else base
    c.state(dt, how)
    t = Datatype.fromvalue(dt)
    col = Column.fromvalue({'name': 'c', 'datatype': dt})
    for v in domain(base, c.tier):
        if v.tzinfo is not None or (fmt and v.year < 1000 and base == 'date'):
            continue
        part = v.date() if base == 'date' else v.time()
        a, b = ((t.formatted if how == 'datatype' else col.write)(x) for x in (v, part))
        c.check(a == b, 'moment', lambda: '{!r} -> {!r}, {!r} -> {!r}'.format(v, a, part, b))
        got = t.read(b)
        c.describe(dict(datatype=dt, value=repr(part), text=b))
        exp = part
        if base == 'time' and fmt:
            exp = part.replace(microsecond=part.microsecond if 'S' in fmt else 0, second=part.second if 'ss' in fmt else 0)
        c.check((got.date() if base == 'date' else got.time()) == exp, 'moment', lambda: '{!r} -> {!r} -> {!r}'.format(part, b, got))
        c.trace()
    c.outcome(dt)


def canon(v, base):
    return None if v is None else canonical(v, base)


SMALL = {
    'string': ['a', '', 'NA', 'b;c', ';', ' ', 'x', '-'],
    'integer': [0, -1, 5, 10],
    'decimal': [D('0.5'), D('-1'), D('1E+3'), D('0')],
    'float': [0.5, -1.0, math.inf],
    'boolean': [True, False],
    'date': [datetime.datetime(2020, 1, 2), datetime.datetime(1, 1, 1)],
    'json': [1, [1, 2], 'a', None],
    'binary': [b'a', b'', b'ab;'],
    'anyURI': ['a', 'http://x/;y'],
    'duration': [datetime.timedelta(1), datetime.timedelta(0, 5)],
    'datetime': [datetime.datetime(2020, 1, 2, 3, 4, 5, 6)],
}
SEPS = [';', ' ', ',', '; ', '-', '|', 'NA', '.']
NULLS = ['', ['NA', ''], ['-'], ['', 'NA'], 'x', ['5', '']]


def lists(c):
    """Lists (also with None) in a column with separator, and atoms, under all null settings."""
    base = c.every('datatype', list(SMALL))
    sep = c.every('separator', [None] + SEPS)
    null = c.every('null', NULLS)
    default = c.choose('default', ['', 'a', '5'])
    spec = {'name': 'c', 'datatype': base, 'null': null}
    if sep:
        spec['separator'] = sep
    if default:
        spec['default'] = default
    c.state(spec)
    c.describe(spec)
    col = Column.fromvalue(dict(spec))
    t = Datatype.fromvalue(base)
    nulls = [null] if isinstance(null, str) else null
    vs = SMALL[base] + [None]
    vs = [v for i, v in enumerate(vs) if v is not None or i == len(vs) - 1]  # JSON null: no
    n = 4 if c.tier == 'thorough' else 3
    items = [tuple(v) for k in range(n + 1) for v in itertools.product(vs, repeat=k)] if sep else vs

    def text(v):
        return nulls[0] if v is None else t.formatted(v)
    for item in items:
        value = list(item) if sep else item
        if sep:
            texts_ = [text(v) for v in value]
            joined = sep.join(texts_)
            ok = joined.split(sep) == texts_ if texts_ else True
            ok = ok and not any(v is not None and s in nulls for v, s in zip(value, texts_))
            # An empty text is replaced by the default and no text at all is no list of length 1.
            ok = ok and (not default or '' not in texts_) and (joined not in nulls or not value)
            if not value and default:
                ok = False
            if value and joined == '':
                ok = False
        else:
            s = text(value)
            ok = (value is None or s not in nulls) and not (s == '' and (
                default or value is None and nulls[0] != ''))
        s = col.write(value)
        if sep:
            c.check(s == joined, 'written', lambda: '{!r} -> {!r}'.format(value, s))
        if not ok:
            continue
        got = col.read(s)
        if sep:
            same = isinstance(got, list) and [canon(v, base) for v in got] == [
                canon(v, base) for v in value]
        else:
            same = canon(got, base) == canon(value, base)
        c.check(
            same,
            'lists', lambda: '{} {!r} -> {!r} -> {!r}'.format(spec, value, s, got))
        c.trace()
    if sep:
        c.check(col.write(None) == '', 'none', repr(col.write(None)))
    c.outcome(spec)


HARNESSES = [
    Harness('atomic', atomic, None),
    Harness('lists', lists, 1),
    Harness('numbers', numbers, None),
    Harness('moments', moments, None),
]
