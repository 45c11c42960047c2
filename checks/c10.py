import math
import datetime
import itertools
import warnings

from mc.explore import Harness

from csvw import Datatype, Column

ASSUMPTIONS = [
    'dates and times without a time zone marker in their format may or may not carry a time zone '
    '(XML Schema allows it); a time without marker for fractions carries none',
    'shorter fractions than the number of S in the format are accepted on input, formatting writes '
    'all digits',
]
DATES = ['yyyy-MM-dd', 'yyyyMMdd', 'dd-MM-yyyy', 'd-M-yyyy', 'MM-dd-yyyy', 'M-d-yyyy', 'dd/MM/yyyy',
         'd/M/yyyy', 'MM/dd/yyyy', 'M/d/yyyy', 'dd.MM.yyyy', 'd.M.yyyy', 'MM.dd.yyyy', 'M.d.yyyy']
TIMES = ['HH:mm:ss', 'HHmmss', 'HH:mm', 'HHmm', 'HH:mm:ss.S', 'HH:mm:ss.SSS', 'HH:mm:ss.SSSSSS']
TZS = ['', 'X', 'XX', 'XXX', 'x', 'xx', 'xxx', ' X', ' XXX', ' xx']
OFFSETS = [0, 60, -60, 330, -210, 345, -720, 840, -570, 5 * 60 + 45, -90, 30, -30, 1]


def tokens(fmt):
    """Split a format into runs of the same letter."""
    return [''.join(g) for _, g in itertools.groupby(fmt)]


def write(p, fmt):
    """
    The independent formatter. `p` is a dict of the components of a point in time (which need not
    exist in the calendar).
    """
    res = ''
    for tok in tokens(fmt):
        ch = tok[0]
        if tok == 'yyyy':
            res += str(p['y']).rjust(4, '0')
        elif ch in 'MdHms':
            v = p[ch]
            res += str(v) if len(tok) == 1 else str(v).rjust(2, '0')
        elif ch == 'S':
            res += str(p['u']).rjust(6, '0')[:len(tok)]
        elif ch in 'xX':
            off = p['tz']
            if off == 0 and ch == 'X':
                res += 'Z'
                continue
            h, m = abs(off) // 60, abs(off) % 60
            res += ('-' if off < 0 else '+') + str(h).rjust(2, '0')
            if len(tok) > 1 or m:
                res += (':' if len(tok) == 3 else '') + str(m).rjust(2, '0')
        else:
            res += tok
    return res


def point(p):
    """The datetime, built from the components (ValueError if there is none)."""
    tz = p.get('tz')
    return datetime.datetime(
        p['y'], p['M'], p['d'], p['H'], p['m'], p['s'], p['u'],
        None if tz is None else datetime.timezone(datetime.timedelta(minutes=tz)))


def ident(v):
    return v.replace(tzinfo=None), v.utcoffset()


YEARS = [1, 31, 999, 1000, 1231, 1582, 1900, 1970, 1999, 2000, 2012, 2023, 2024, 3112, 9999]


def days(tier):
    for y in YEARS:
        for m in range(1, 13):
            for d in range(1, 32) if tier == 'thorough' or y in (1900, 2012) else (
                    1, 2, 9, 10, 11, 12, 13, 28, 29, 30, 31):
                yield y, m, d


BAD_DAYS = [(2023, 2, 29), (2024, 2, 30), (1900, 2, 29), (2023, 4, 31), (2023, 13, 1), (2023, 0, 1),
            (2023, 1, 0), (2023, 1, 32), (0, 1, 1), (2023, 13, 13), (2023, 99, 1), (2023, 12, 99),
            (2023, 31, 31)]
CLOCK = [(h, m, s) for h in (0, 1, 9, 10, 12, 13, 23) for m in (0, 1, 9, 30, 59)
         for s in (0, 1, 9, 10, 59)]
BAD_CLOCK = [(24, 0, 1), (25, 0, 0), (23, 60, 0), (12, 0, 60), (12, 0, 61), (99, 99, 99), (24, 1, 0)]


def make(c, base, fmt, via):
    spec = {'base': base}
    if fmt:
        spec['format'] = fmt
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        t = Datatype.fromvalue(dict(spec)) if via == 'datatype' else Column.fromvalue(
            {'name': 'c', 'datatype': dict(spec)})
    c.check(not w, 'warning', lambda: '{}: {}'.format(spec, w[0].message))
    return t


def to_text(t, v):
    return t.formatted(v) if hasattr(t, 'formatted') else t.write(v)


def accepted(t, s):
    try:
        return t.read(s)
    except ValueError:
        return None


def spoilt(s):
    """Texts with a character less, more or changed."""
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
    for i in range(len(s) + 1):
        for ch in '0x -:.Z\n' if i in (0, len(s)) else '0x ':
            yield s[:i] + ch + s[i:]
    for i, x in enumerate(s):
        for ch in 'x-./:T 0':
            if ch != x:
                yield s[:i] + ch + s[i + 1:]
    yield from (s + s, s + ' ' + s, s + 'Z', s + '+00:00', s + '.0', s + ' 00:00', s + 'T00:00:00')


def shape(s, fmt):
    """
    Reference recogniser: the components of text `s` read by format `fmt`, or None. Works backwards
    from nothing but the format.
    """
    results = []

    def num(i, n):
        t = s[i:i + n]
        return int(t) if len(t) == n and all(x in '0123456789' for x in t) else None

    toks = tokens(fmt)

    def go(k, i, p):
        if k == len(toks):
            if i == len(s):
                results.append(p)
            return
        tok = toks[k]
        ch = tok[0]
        if ch == '.' and k + 1 < len(toks) and toks[k + 1][0] == 'S':
            n = len(toks[k + 1])
            go(k + 2, i, dict(p, u=0))
            if s[i:i + 1] == '.':
                for w in range(1, n + 1):
                    v = num(i + 1, w)
                    if v is not None:
                        go(k + 2, i + 1 + w, dict(p, u=v * 10 ** (6 - w)))
            return
        if tok == 'yyyy':
            v = num(i, 4)
            if v is not None:
                go(k + 1, i + 4, dict(p, y=v))
        elif ch in 'MdHms':
            for w in (1, 2) if len(tok) == 1 else (2,):
                v = num(i, w)
                if v is not None:
                    go(k + 1, i + w, dict(p, **{ch: v}))
        elif ch in 'xX':
            if ch == 'X' and s[i:i + 1] == 'Z':
                go(k + 1, i + 1, dict(p, tz=0))
            if s[i:i + 1] in ('+', '-') and num(i + 1, 2) is not None:
                sign = -1 if s[i] == '-' else 1
                h, j = num(i + 1, 2), i + 3
                if len(tok) == 1:
                    go(k + 1, j, dict(p, tz=sign * h * 60))
                colon = len(tok) == 3
                if not colon or s[j:j + 1] == ':':
                    m = num(j + colon, 2)
                    if m is not None and m < 60:
                        go(k + 1, j + colon + 2, dict(p, tz=sign * (h * 60 + m)))
        elif s.startswith(tok, i):
            go(k + 1, i + len(tok), p)

    go(0, 0, dict(y=2000, M=1, d=1, H=0, m=0, s=0, u=0))
    return results


def check_text(c, t, s, fmt, base, allow_tz):
    """Any text: accepted exactly if the reference recogniser finds a point in time in it."""
    exp = set()
    for x in {s, s.strip()}:
        for p in shape(x, fmt):
            try:
                exp.add(point(p))
            except ValueError:
                pass
    got = accepted(t, s)
    c.tick()
    if s != s.strip() and got is None:
        return
    if allow_tz and not exp and got is not None:
        # Time zones nobody asked for
        import re
        m = re.search(r'(Z|([+-])([0-2][0-9]):([0-5][0-9]))$', s.strip())
        c.check(m, 'accepted', lambda: '{!r} for {} {}: {!r}'.format(s, base, fmt, got))
        off = int(m.group(3)) * 60 + int(m.group(4)) if m.group(2) else 0
        for p in shape(s.strip()[:m.start()], fmt):
            try:
                exp.add(point(dict(p, tz=-off if m.group(2) == '-' else off)))
            except ValueError:
                pass
    if base == 'time' and got is not None:
        got = got.replace(year=2000, month=1, day=1)
    c.check((got is None) == (not exp), 'accepted', lambda: '{!r} for {} {}: got {!r}, expected '
            '{!r}'.format(s, base, fmt, got, exp))
    if exp:
        c.check(ident(got) in {ident(x) for x in exp}, 'value', lambda: '{!r} for {} {}: got {!r}, '
                'expected {!r}'.format(s, base, fmt, got, exp))


def dates(c):
    """Every date format, with or without time zone, for every day of the chosen years."""
    fmt = c.every('format', DATES)
    tz = c.every('tz', ['', 'X', 'XXX', 'xx', ' X'])
    via = c.choose('via', ['datatype', 'column'])
    f = fmt + tz
    t = make(c, 'date', f, via)
    c.state(f, via)
    for y, m, d in itertools.chain(days(c.tier), BAD_DAYS):
        for off in ([0, 330, -210] if tz else [None]):
            p = dict(y=y, M=m, d=d, H=0, m=0, s=0, u=0, tz=off)
            s = write(p, f)
            c.trace()
            try:
                exp = point(p)
            except ValueError:
                exp = None
            c.describe(dict(format=f, text=s))
            got = accepted(t, s)
            if exp is None:
                # d/M formats: the text might be ambiguous, but never is for these
                c.check(got is None, 'nonexistent', lambda: '{} as {}: {!r}'.format(s, f, got))
                continue
            c.check(got is not None and ident(got) == ident(exp), 'date', lambda: '{} as {}: got '
                    '{!r}, expected {!r}'.format(s, f, got, exp))
            c.check(to_text(t, got) == s, 'formatted', lambda: '{} as {}: {}'.format(
                s, f, to_text(t, got)))
            c.check(to_text(t, exp) == s, 'formatted', lambda: '{} as {}: {}'.format(
                s, f, to_text(t, exp)))
    c.outcome(f)


def times(c):
    """Every time format, with all kinds of time zone markers, at boundary times."""
    fmt = c.every('format', TIMES)
    tz = c.every('tz', TZS)
    via = c.choose('via', ['datatype', 'column'])
    f = fmt + tz
    t = make(c, 'time', f, via)
    c.state(f, via)
    for (h, m, s_), u, off in itertools.product(
            CLOCK[::1 if c.tier == 'thorough' else 2] + BAD_CLOCK,
            [0, 1, 500000, 123456, 999999, 90000] if 'S' in f else [0],
            OFFSETS if tz else [None]):
        p = dict(y=2000, M=1, d=1, H=h, m=m, s=s_, u=u, tz=off)
        trim(p, f)
        text = write(p, f)
        c.trace()
        try:
            exp = point(p)
        except ValueError:
            exp = None
        c.describe(dict(format=f, text=text))
        got = accepted(t, text)
        if exp is None:
            c.check(got is None, 'nonexistent', lambda: '{} as {}: {!r}'.format(text, f, got))
            continue
        c.check(got is not None, 'rejected', lambda: '{} as {}'.format(text, f))
        c.check(ident(got.replace(year=2000, month=1, day=1)) == ident(exp), 'time', lambda:
                '{} as {}: got {!r}, expected {!r}'.format(text, f, got, exp))
        c.check(to_text(t, got) == text, 'formatted', lambda: '{} as {}: {}'.format(
            text, f, to_text(t, got)))
    c.outcome(f)


def trim(p, f):
    """A format can only express part of a point in time."""
    n = f.count('S')
    p['u'] -= p['u'] % 10 ** (6 - n)
    if 'ss' not in f:
        p['s'] = p['s'] if p['s'] > 59 and False else 0
    if 'mm' not in f:
        p['m'] = 0
    if 'HH' not in f:
        p['H'] = 0


def datetimes(c):
    """All date x separator x time x time zone formats."""
    date = c.every('date', DATES)
    time = c.every('time', TIMES)
    sep = c.every('separator', ['T', ' '])
    tz = c.every('tz', TZS)
    base = c.choose('base', ['dateTime', 'datetime'])
    via = c.choose('via', ['datatype', 'column'])
    f = date + sep + time + tz
    c.state(f, base, via)
    t = make(c, base, f, via)
    points = [((2024, 2, 29), (23, 59, 59)), ((1999, 12, 31), (0, 0, 0)), ((1, 1, 2), (9, 5, 7)),
              ((2001, 11, 3), (10, 20, 30)), ((9999, 10, 11), (12, 0, 1)),
              ((2023, 2, 29), (0, 0, 0)), ((2023, 1, 1), (25, 0, 0)), ((2023, 1, 1), (0, 60, 0)),
              ((2023, 13, 14), (0, 0, 0)), ((1900, 1, 1), (0, 0, 0))]
    if c.tier == 'thorough':
        points += [(d, k) for d in ((2000, 2, 29), (1582, 10, 10), (31, 1, 31)) for k in CLOCK[::7]]
    for ((y, mo, d), (h, mi, s)), u, off in itertools.product(
            points, [0, 1, 120000, 999999], [0, 330, -210, -480, 60] if tz else [None]):
        p = dict(y=y, M=mo, d=d, H=h, m=mi, s=s, u=u, tz=off)
        trim(p, f)
        text = write(p, f)
        c.trace()
        c.describe(dict(format=f, text=text))
        try:
            exp = point(p)
        except ValueError:
            exp = None
        got = accepted(t, text)
        if exp is None:
            c.check(got is None, 'nonexistent', lambda: '{} as {}: {!r}'.format(text, f, got))
            continue
        c.check(got is not None and ident(got) == ident(exp), 'datetime', lambda: '{} as {}: got '
                '{!r}, expected {!r}'.format(text, f, got, exp))
        c.check(to_text(t, exp) == text, 'formatted', lambda: '{} as {}: {}'.format(
            text, f, to_text(t, exp)))
        c.check(to_text(t, got) == text, 'formatted', lambda: '{} as {}: {}'.format(
            text, f, to_text(t, got)))
    c.outcome(f)


def spoiled(c):
    """Texts with characters missing, added or changed, judged by an independent recogniser."""
    base = c.every('base', ['date', 'time', 'dateTime', 'dateTimeStamp'])
    date = c.every('date', DATES if base != 'time' else [''])
    time = c.every('time', TIMES if base != 'date' else [''])
    tz = c.every('tz', ['', 'X', 'XX', 'XXX', 'x', ' xxx'] if base != 'dateTimeStamp' else [
        'X', 'XXX', ' xx'])
    if base.startswith('dateTime') and c.tier == 'quick' and (
            DATES.index(date) + TIMES.index(time)) % 4 != 0:
        # The date and time parts are spoilt independently of each other.
        return
    f = date + (c.every('separator', ['T', ' ']) if date and time else '') + time + tz
    t = make(c, base, f, 'datatype')
    c.state(base, f)
    for p in [dict(y=2024, M=2, d=29, H=23, m=59, s=58, u=120000, tz=330),
              dict(y=1999, M=11, d=1, H=1, m=10, s=0, u=0, tz=0),
              dict(y=1012, M=1, d=12, H=0, m=0, s=1, u=999999, tz=-660)]:
        text = write(p, f)
        c.describe(dict(base=base, format=f, text=text))
        for s in itertools.chain([text], spoilt(text)):
            check_text(c, t, s, f, base, allow_tz=not tz and base in ('date', 'time'))
            c.trace()
    c.outcome(base, f)


VALID = {
    'date': set(DATES),
    'time': set(TIMES[:4]) | {'HH:mm:ss.' + 'S' * n for n in range(1, 10)},
}


def formats(c):
    """Which formats are recognised: everything else is reported when the datatype is created."""
    base = c.every('base', ['date', 'time', 'dateTime', 'datetime'])
    parts = c.every('first', ['yyyy', 'yy', 'MM', 'M', 'dd', 'd', 'HH', 'mm', 'hh', 'X', 'x', 'EEE', '',
                              'DD', 'YYYY', 'S', 'Q'])
    seps = ['', '-', '/', '.', ':', ' ', 'T', '_']
    second = ['', 'yyyy', 'MM', 'M', 'dd', 'd', 'mm', 'ss', 'HH', 'S', 'X']
    n = 0
    for s1, p2, s2, p3, tz in itertools.product(
            seps, second, seps, second, ['', 'X', 'xX', 'XXXX', ' xx', '  X']):
        f = parts + s1 + p2 + s2 + p3 + tz
        if not f:
            continue
        n += 1
        stripped = f
        import re
        m = re.search(' ?(X{1,3}|x{1,3})$', f)
        if m:
            stripped = f[:m.start()]
        if base in VALID:
            valid = stripped in VALID[base]
        else:
            valid = any(
                stripped.partition(sep)[0] in VALID['date'] and stripped.partition(sep)[2] in
                VALID['time'] for sep in ' T')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                t = Datatype.fromvalue({'base': base, 'format': f})
                reported = bool(w)
            except ValueError:
                reported = True
        c.describe(dict(base=base, format=f))
        if valid:
            c.check(not reported, 'valid format', f)
        elif loose(base, stripped):
            pass
        else:
            c.check(reported, 'invalid format', lambda: '{} {}'.format(base, f))
            if base == 'date' and t:
                pass
    c.trace(n)
    c.state(base, parts)
    c.outcome(base, parts)


def loose(base, f):
    """Formats for less or more than the datatype holds, or more liberal fractions: left open."""
    import re
    if f in VALID['date']:
        return base != 'time'
    f = re.sub(r'\.S+$', '', f)
    if f in VALID['time']:
        return base == 'time'
    return any(f.partition(s)[0] in VALID['date'] and f.partition(s)[2] in VALID['time']
               for s in ' T')


HARNESSES = [
    Harness('dates', dates, 0, 1),
    Harness('times', times, 0, 1),
    Harness('datetimes', datetimes, 0, 2),
    Harness('spoiled', spoiled, None),
    Harness('formats', formats, None),
]
