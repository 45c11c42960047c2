import itertools

from mc.explore import Harness
from checks import sizes

from csvw import Datatype, Column

ASSUMPTIONS = [
    'the datatype json is excluded from the length constraints (it has a JSON value, not characters)',
    'the value of a date or time without timezone is taken as UTC when compared with one that has one',
    'bounds are given such that they are valid values of the base datatype, and not NaN',
    'if constraints which do not apply are combined with contradictory ones, either error is fine',
]
LEN = {
    'string': ['', 'a', 'ab', 'äb\U0001F600', '    ', ' ab'],
    'anyURI': ['a', 'ab', 'a:b', '/a#b', 'a?b', 'abcde'],
    'NMTOKEN': ['a', 'ab', 'abc', 'ab.c'],
    'normalizedString': ['', 'a', 'ab', 'abc', 'a b c'],
    'token': ['a', 'ab', 'abc', 'a b'],
    'language': ['en', 'de', 'pt-BR', 'und'],
    'Name': ['a', 'ab', 'abc', 'ab:c'],
    'xml': ['', 'a', '<a/>', 'abc'],
    'html': ['', 'a', 'ab', '<p>'],
    'gYear': None, 'gDay': None, 'gMonth': None, 'gMonthDay': None, 'gYearMonth': None,
    'QName': None,
    # binary types: the number of bytes counts
    'binary': ['', 'YQ==', 'YWI=', 'YWJj', 'YWJjZA==', 'YWJjZGU='],
    'base64Binary': ['', 'YQ==', 'YWI=', 'YWJj', 'YWJjZA=='],
    'hexBinary': ['', '61', '6162', 'FFFEFD', '00000000'],
    # no length constraints here:
    'integer': None, 'decimal': None, 'number': None, 'float': None, 'boolean': None, 'date': None,
    'datetime': None, 'time': None, 'duration': None, 'any': None, 'unsignedByte': None,
    'double': None, 'dateTimeStamp': None,
}
for _k in ['gYear', 'gDay', 'gMonth', 'gMonthDay', 'gYearMonth', 'QName']:
    del LEN[_k]
STRINGS = [k for k, v in LEN.items() if v is not None]


def length_of(base, s):
    if base in ('binary', 'base64Binary'):
        return len(s.rstrip('=')) * 3 // 4
    if base == 'hexBinary':
        return len(s) // 2
    return len(s)


def lengths(c):
    """All combinations of length constraints, all values of up to five characters or bytes."""
    base = c.every('base', list(LEN))
    via = c.every('via', ['datatype', 'column'])
    n = [None, 0, 1, 2, 3, 4] if c.tier == 'quick' else [None, 0, 1, 2, 3, 4, 5, 6]
    for length, lo, hi in itertools.product(n, repeat=3):
        spec = {'base': base}
        for k, v in [('length', length), ('minLength', lo), ('maxLength', hi)]:
            if v is not None:
                spec[k] = v
        contradictory = (length is not None and (
            (lo is not None and length < lo) or (hi is not None and length > hi))) or (
            lo is not None and hi is not None and lo > hi)
        invalid = contradictory or (base not in STRINGS and len(spec) > 1)
        key = '{}'.format(spec)
        c.state(base, length, lo, hi)
        c.tick()
        c.trace()
        try:
            dt = Datatype.fromvalue(dict(spec))
        except ValueError as e:
            c.check(invalid, key, 'valid constraints are rejected: {}'.format(e))
            c.outcome(base, 'invalid')
            continue
        c.check(not invalid, key, 'invalid constraints are accepted')
        if via == 'column':
            col = Column.fromvalue({'name': 'a', 'datatype': dict(spec), 'null': 'NULL'})
        for s in LEN[base] or []:
            n_ = length_of(base, s)
            ok = n_ == (length if length is not None else n_) and \
                (lo is None or n_ >= lo) and (hi is None or n_ <= hi)
            c.tick()
            try:
                dt.read(s) if via == 'datatype' else col.read(s)
                got = True
            except ValueError:
                got = False
            c.outcome(base, length, lo, hi, s, got)
            c.equal(got, ok, key + ' ' + repr(s), 'accepted')


# (text, key to sort by) in order, each is used as value and as bound
ORDERED = {
    'integer': [('-1', -1), ('0', 0), ('1', 1), ('10', 10)],
    'decimal': [('-0.1', -1), ('0', 0), ('0.1', 1), ('1.25', 12)],
    'number': [('-1', -10), ('0', 0), ('0.5', 5), ('1E1', 100)],
    'double': [('-INF', -99), ('0', 0), ('0.1', 1), ('INF', 99)],
    'float': [('-1.5', -15), ('0', 0), ('2', 20)],
    'nonNegativeInteger': [('0', 0), ('1', 1), ('2', 2)],
    'nonPositiveInteger': [('-2', -2), ('-1', -1), ('0', 0)],
    'unsignedByte': [('0', 0), ('1', 1), ('255', 255)],
    'byte': [('-128', -128), ('0', 0), ('127', 127)],
    'long': [('-9223372036854775808', -9), ('0', 0), ('9223372036854775807', 9)],
    'date': [('2017-12-31', -1), ('2018-01-01', 0), ('2018-01-02', 1)],
    'dateTime': [('2018-01-01T00:00:00', 0), ('2018-01-01T00:00:00.5', 1),
                 ('2018-01-01T00:00:01', 2)],
    'time': [('00:00:00', 0), ('00:00:01', 1), ('23:59:59', 9)],
    'duration': [('-P1D', -1), ('PT0S', 0), ('PT1S', 1), ('P1D', 9), ('P1M', 99), ('P1Y', 999),
                 ('P1Y2D', 1001)],
    'dayTimeDuration': [('PT0S', 0), ('PT23H', 1), ('P1D', 9)],
    'yearMonthDuration': [('-P1M', -1), ('P11M', 11), ('P1Y', 12), ('P13M', 13)],
    # with timezones
    'datetime': [('2018-01-01T00:00:00', 0), ('2018-01-01T01:30:00+01:00', 1),
                 ('2018-01-01T00:00:00-01:00', 2)],
    'dateTimeStamp': [('2018-01-01T00:00:00Z', 0), ('2018-01-01T01:00:00+00:30', 1),
                      ('2017-12-31T23:00:00-02:00', 2)],
}
FORMATTED = [
    ({'base': 'date', 'format': 'd.M.yyyy'},
     [('31.12.2017', -1), ('1.1.2018', 0), ('2.1.2018', 1)]),
    ({'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}},
     [('-0,5', -1), ('0', 0), ('1.000,5', 1)]),
    ({'base': 'decimal', 'format': '#0.0#'}, [('-0.5', -1), ('0.0', 0), ('10.25', 1)]),
    ({'base': 'decimal', 'format': '#0%'}, [('-1%', -1), ('0%', 0), ('10%', 1)]),
    ({'base': 'time', 'format': 'HH:mm'}, [('00:00', 0), ('00:01', 1), ('12:00', 2)]),
    ({'base': 'dateTime', 'format': 'yyyy-MM-ddTHH:mm XXX'},
     [('2018-01-01T00:00 Z', 0), ('2018-01-01T02:00 +01:00', 1), ('2018-01-01T00:00 -02:00', 2)]),
]
NAMES = ['minimum', 'minInclusive', 'minExclusive', 'maximum', 'maxInclusive', 'maxExclusive']
TARGETS = [({'base': k}, v) for k, v in ORDERED.items()] + FORMATTED
JSON = {'integer': int, 'decimal': float, 'number': float, 'double': float, 'byte': int,
        'nonNegativeInteger': int}


def bounds(c):
    """All combinations of bounds, all values on and between the bounds."""
    target = c.every('target', TARGETS)
    base = target[0]['base']
    number = base in JSON and 'format' not in target[0] and c.every('as number', [False, True])
    first = c.every('minimum', [None] + target[1])
    for rest in itertools.product([None] + target[1], repeat=5):
        given = [(n, b) for n, b in zip(NAMES, (first,) + rest) if b is not None]
        if len(given) > (4 if len(target[1]) < 5 else 3) and c.tier == 'quick':
            continue
        spec = dict(target[0])
        for n, (text, _) in given:
            spec[n] = JSON[base](text) if number and text not in ('INF', '-INF') else text
        b = {n: k for n, (_, k) in given}
        low = [b[n] for n in ('minimum', 'minInclusive') if n in b]
        high = [b[n] for n in ('maximum', 'maxInclusive') if n in b]
        lowx, highx = b.get('minExclusive'), b.get('maxExclusive')
        invalid = (low and lowx is not None) or (high and highx is not None) or \
            any(lo > hi for lo in low for hi in high) or \
            any(lo >= highx for lo in low if highx is not None) or \
            any(lowx >= hi for hi in high if lowx is not None) or \
            (lowx is not None and highx is not None and lowx >= highx)
        key = '{}'.format(spec)
        c.state(base, key)
        c.tick()
        c.trace()
        try:
            dt = Datatype.fromvalue(dict(spec))
        except ValueError as e:
            c.check(invalid, key, 'valid constraints are rejected: {}'.format(e))
            continue
        c.check(not invalid, key, 'contradictory constraints are accepted')
        wrong = []
        for s, k in target[1]:
            ok = all(k >= lo for lo in low) and all(k <= hi for hi in high) and \
                (lowx is None or k > lowx) and (highx is None or k < highx)
            c.tick()
            try:
                dt.read(s)
                got = True
            except ValueError:
                got = False
            c.outcome(base, key, s, got)
            if got != ok:
                wrong.append((s, got))
        c.check(not wrong, key, 'accepted: {}'.format(wrong))


def inapplicable(c):
    """Bounds make no sense for strings and the like, be they zero or not."""
    base = c.every('base', ['string', 'any', 'boolean', 'anyURI', 'NMTOKEN', 'xml', 'html',
                            'binary', 'hexBinary', 'base64Binary', 'json', 'language', 'Name',
                            'token', 'normalizedString'])
    value = {'boolean': ['true', 'false', '0', '1'], 'hexBinary': ['', '00'],
             'json': ['0', '1', 'null', '""'],
             'base64Binary': ['', 'YQ=='], 'binary': ['', 'YQ==']}.get(base, ['', '0', '1', 'en'])
    for name, v in itertools.product(NAMES, value):
        if base == 'json' and v == 'null':
            continue
        c.tick()
        c.trace()
        c.state(base, name, v)
        try:
            Datatype.fromvalue({'base': base, name: v})
        except ValueError:
            c.outcome(base)
            continue
        c.fail('{} {} {!r}'.format(base, name, v), 'bound accepted')


NAN = [('double', 'NaN'), ('float', 'NaN'), ('number', 'NaN'), ('decimal', 'NaN')]


def nan(c):
    """NaN is in no interval."""
    base, v = c.every('base', NAN)
    for r in (0, 1, 2):
        for names in itertools.combinations(NAMES, r):
            c.tick()
            c.trace()
            spec = dict({'base': base}, **{n: '0' if 'min' in n else '1' for n in names})
            try:
                dt = Datatype.fromvalue(dict(spec))
            except ValueError:
                continue
            c.state(base, names)
            try:
                dt.read(v)
                got = True
            except ValueError:
                got = False
            c.outcome(base, got)
            c.equal(got, not names, '{} {}'.format(spec, v), 'accepted')


HARNESSES = [
    Harness('lengths', lengths, None),
    Harness('bounds', bounds, None),
    Harness('inapplicable', inapplicable, None),
    Harness('nan', nan, None),
    Harness('sizes', sizes.c12, None),
]
