import math
import decimal
import fractions
import itertools

from mc.explore import Harness

from csvw import Datatype, Column

ASSUMPTIONS = [
    'patterns of the form: integer part with optional grouping, optional decimal part, optional '
    'percent or permille sign at the end; an explicit negative subpattern only with the minus sign '
    'before or after',
    'rounding is half to even; the sign of a number rounded to zero is left open, '
    'and whether a zero is written before the decimal point if the pattern has none there',
    'texts without the percent sign of the pattern, or with one too many, are left open, and group '
    'characters given for a pattern without grouping, and a decimal point without digits after it',
]
D = decimal.Decimal
FLOATS = ('number', 'float', 'double')
TYPES = {'integer': int, 'decimal': D, 'number': float, 'float': float, 'double': float}
INT = ['0', '00', '000', '#0', '##0', '#', '#,##0', '#,##,##0', '0,000', '#,#00', '#,##0,000',
       '##,##,#00', '#,####0']
FRAC = ['', '.0', '.00', '.000', '.0#', '.#', '.##', '.00#', '.0##']
SUFFIX = ['', '%', '‰']
NEG = ['', ';-', ';~-']  # none, minus before, minus after
CHARS = [None, {'groupChar': '.', 'decimalChar': ','}, {'groupChar': ' ', 'decimalChar': ','},
         {'groupChar': "'"}, {'decimalChar': ','}, {'groupChar': ',', 'decimalChar': '.'},
         {'groupChar': '_', 'decimalChar': ':'}]


class Pattern:
    """The reference: what a pattern means."""

    def __init__(self, i, f, suffix, neg, chars):
        groups = i.split(',')
        self.primary = len(groups[-1]) if len(groups) > 1 else None
        self.secondary = len(groups[-2]) if len(groups) > 2 else self.primary
        self.minint = i.count('0')
        self.minfrac, self.maxfrac = f.count('0'), len(f[1:])
        self.suffix = suffix
        self.scale = {'': 0, '%': 2, '‰': 3}[suffix]
        self.neg = neg
        chars = chars or {}
        self.dec = chars.get('decimalChar', '.')
        self.group = chars.get('groupChar', ',')
        self.text = i + f + suffix
        if neg:
            self.text += ';-' + i + f + suffix if neg == ';-' else ';' + i + f + suffix + '-'

    def round(self, v):
        """-> sign, the digits as integer, scaled by 10**maxfrac"""
        x = fractions.Fraction(v) * 10 ** (self.scale + self.maxfrac)
        neg = x < 0 or (isinstance(v, D) and v.is_signed())
        x = abs(x)
        n = x.numerator // x.denominator
        rest = x - n
        if rest > fractions.Fraction(1, 2) or (rest == fractions.Fraction(1, 2) and n % 2):
            n += 1
        return neg, n

    def rounded(self, v):
        neg, n = self.round(v)
        res = fractions.Fraction(n, 10 ** (self.scale + self.maxfrac))
        return -res if neg else res

    def format(self, v):
        neg, n = self.round(v)
        s = str(n).rjust(self.maxfrac + 1, '0')
        ipart, fpart = s[:len(s) - self.maxfrac], s[len(s) - self.maxfrac:]
        while len(fpart) > self.minfrac and fpart.endswith('0'):
            fpart = fpart[:-1]
        ipart = ipart.lstrip('0').rjust(self.minint, '0')
        if self.primary:
            out, rest, size = [], ipart, self.primary
            while len(rest) > size:
                out.insert(0, rest[-size:])
                rest, size = rest[:-size], self.secondary
            out.insert(0, rest)
            ipart = self.group.join(out)
        res = ipart + (self.dec + fpart if fpart else '') + self.suffix
        alts = {res} | ({'0' + res} if not ipart else set())
        if neg:
            signed = {s + '-' if self.neg == ';~-' else '-' + s for s in alts}
            alts = alts | signed if n == 0 else signed
        return alts

    def parse(self, s):
        """-> value, None (invalid) or Ellipsis (left open)"""
        neg = False
        if s != s.strip():
            return Ellipsis
        if not self.primary and self.group in s:
            return None if self.group * 2 in s else Ellipsis
        if self.suffix:
            if s.count(self.suffix) != 1:
                return Ellipsis
            if not (s.endswith(self.suffix) or s.endswith(self.suffix + '-')):
                return Ellipsis
            s = s.replace(self.suffix, '')
        elif '%' in s or '‰' in s:
            return Ellipsis
        if self.neg == ';~-' and s.endswith('-'):
            neg, s = True, s[:-1]
        elif s[:1] == '-':
            if self.neg == ';~-':
                return Ellipsis
            neg, s = True, s[1:]
        elif s[:1] == '+':
            s = s[1:]
        ipart, point, fpart = s.partition(self.dec)
        if point and not fpart and ipart:
            return Ellipsis
        if not all(x in '0123456789' for x in fpart):
            return None
        groups = ipart.split(self.group)
        if not all(x in '0123456789' for g in groups for x in g):
            return None
        if not self.primary and len(groups) > 1:
            return None if self.group * 2 in ipart else Ellipsis
        digits = ''.join(groups)
        if not digits + fpart:
            return None
        if self.primary:
            if len(groups) == 1:
                if len(digits) > self.primary:
                    return None
            elif len(groups[-1]) != self.primary or not 0 < len(groups[0]) <= self.secondary or any(
                    len(g) != self.secondary for g in groups[1:-1]):
                return None
        if len(digits) < self.minint:
            return None
        if not self.minfrac <= len(fpart) <= self.maxfrac:
            return None
        res = fractions.Fraction(int(digits + fpart), 10 ** (len(fpart) + self.scale))
        return -res if neg else res


def numbers(tier):
    res = []
    for n in [0, 1, 4, 5, 6, 9, 10, 12, 15, 25, 49, 50, 51, 95, 99, 100, 101, 123, 125, 995, 999,
              1000, 1001, 1005, 1234, 9995, 9999, 10000, 12345, 99999, 100000, 123456, 999500,
              1000000, 1234567, 12345678, 123456789, 10 ** 10 + 5, 10 ** 15 + 1]:
        for e in range(0, -8 if tier == 'thorough' else -5, -1):
            res.append(D(n).scaleb(e))
            res.append(-D(n).scaleb(e))
    res += [D('1E+3'), D('-2.5E+5'), D('1E+12'), D('0E-5'), D('1E-10'), D('5E-1'), D('0.5000'),
            D('123456789012345678901234.5')]
    return res


def spec_of(base, text, chars):
    if chars is None:
        return {'base': base, 'format': text}
    return {'base': base, 'format': dict(chars, pattern=text)}


def configuration(c):
    i = c.every('integer part', INT)
    f = c.every('fraction', FRAC)
    suffix = c.choose('suffix', SUFFIX)
    neg = c.choose('negative', NEG)
    chars = c.every('chars', CHARS)
    base = c.choose('base', ['decimal', 'integer', 'number', 'float'])
    if base == 'integer' and (f or suffix):
        return None
    if chars == {'decimalChar': ','} and ',' in i:
        return None  # both characters are the same
    if i == '#' and '0' not in f:
        return None  # There should be a zero someplace.
    p = Pattern(i, f, suffix, neg, chars)
    c.state(p.text, chars, base)
    return p, base, spec_of(base, p.text, chars)


def formatting(c):
    """Every pattern formats every number as the reference, and reads it back, rounded."""
    conf = configuration(c)
    if not conf:
        return
    p, base, spec = conf
    via = c.choose('via', ['datatype', 'column'])
    t = Datatype.fromvalue(spec) if via == 'datatype' else Column.fromvalue(
        {'name': 'c', 'datatype': spec})
    for v in numbers(c.tier):
        if base == 'integer':
            if v != int(v):
                continue
            v = int(v)
        if base in FLOATS:
            # Floats are formatted with the fewest digits that identify them.
            v, exp = float(v), p.format(D(repr(float(v))))
        else:
            exp = p.format(v)
        c.describe(dict(format=spec, value=str(v), expected=sorted(exp)))
        got = t.formatted(v) if via == 'datatype' else t.write(v)
        c.check(got in exp, 'formatted', lambda: '{} as {}: got {!r}, expected {!r}'.format(
            v, spec, got, exp))
        if got:
            back = t.read(got)
            c.check(type(back) is TYPES[base], 'type', repr(back))
            rounded = float(p.rounded(D(repr(v)))) if base in FLOATS else p.rounded(v)
            c.check((back if base in FLOATS else fractions.Fraction(back)) == rounded, 'parsed', lambda:
                    '{} as {}: {!r} read as {!r}'.format(v, spec, got, back))
        c.trace()
    c.outcome(spec)


def texts(c):
    """Every short text is accepted exactly if it follows the pattern."""
    conf = configuration(c)
    if not conf:
        return
    p, base, spec = conf
    t = Datatype.fromvalue(spec)
    n = 7 if c.tier == 'thorough' else 5
    alphabet = ['1', '0', p.group, p.dec]
    seen = set()
    for k in range(0, n + 1):
        for body in itertools.product(alphabet, repeat=k):
            body = ''.join(body)
            for s in [body + p.suffix] + ([
                    '-' + body + p.suffix, body + p.suffix + '-', body + '%', '+' + body + p.suffix,
                    '--' + body + p.suffix, body[:1] + '-' + body[1:] + p.suffix,
                    body + 'x'] if k < n else []):
                check_text(c, t, p, s, spec, base, seen)
    # Longer ones, with group characters in all places
    for digits in ['1234567', '12345678', '0001234']:
        for mask in range(2 ** (len(digits) - 1)):
            s = digits[0] + ''.join(
                (p.group if mask >> i & 1 else '') + x for i, x in enumerate(digits[1:]))
            for fpart in ['', p.dec + '0', p.dec + '25', p.dec + '125']:
                check_text(c, t, p, s + fpart + p.suffix, spec, base, seen)
    c.outcome(spec, sorted(seen))


def check_text(c, t, p, s, spec, base, seen):
    exp = p.parse(s)
    c.trace()
    if exp is Ellipsis:
        return
    if exp is not None and base == 'integer' and (exp.denominator != 1 or p.dec in s):
        exp = None
    if exp is not None and base in FLOATS:
        exp = float(exp)
    try:
        got = t.read(s)
        if base not in FLOATS:
            got = fractions.Fraction(got)
    except ValueError:
        got = None
    seen.add(got is None)
    c.describe(dict(format=spec, text=s))
    c.check(got == exp, 'accepted', lambda: '{!r} as {}: got {}, expected {}'.format(
        s, spec, got, exp))


def plain(c):
    """Group and decimal characters without a pattern."""
    chars = c.every('chars', [x for x in CHARS if x] + [{'groupChar': '.'}, {'groupChar': ' '}])
    base = c.every('base', ['decimal', 'integer', 'number', 'double'])
    spec = {'base': base, 'format': chars}
    t = Datatype.fromvalue(spec)
    group, dec = chars.get('groupChar', ''), chars.get('decimalChar', '.')
    if group == dec:
        dec = None
    c.state(spec)
    for v in numbers(c.tier):
        if base == 'integer':
            if v != int(v):
                continue
            v = int(v)
        s = str(abs(v)) if base == 'integer' else '{:f}'.format(abs(v))
        ipart, point, fpart = s.partition('.')
        if point and dec is None:
            continue
        k = len(ipart) % 3
        parts = ([ipart[:k]] if k else []) + [ipart[i:i + 3] for i in range(k, len(ipart), 3)]
        exp = group.join(parts) + (dec + fpart if point else '')
        if v < 0 or (base == 'decimal' and v.is_signed()):
            exp = '-' + exp
        if base in FLOATS:
            # Group characters are understood, but not written.
            c.check(t.read(exp) == float(v), 'read', lambda: '{} as {}: {}'.format(exp, spec, t.read(exp)))
            if dec is None:
                continue
            got, v = exp, float(v)
            text = t.formatted(v)
            c.check(text == str(v).replace('.', dec), 'formatted float', lambda: '{} {}'.format(spec, text))
            c.check(t.read(text) == v, 'parsed float', lambda: '{} {}'.format(spec, text))
        else:
            got = t.formatted(v)
        c.describe(dict(format=spec, value=str(v), expected=exp))
        c.check(got == exp, 'formatted', lambda: '{} as {}: got {!r}, expected {!r}'.format(
            v, spec, got, exp))
        c.check(t.read(got) == v, 'parsed', lambda: '{} as {}'.format(got, spec))
        for x, n, s2 in [('%', 2, ''), ('‰', 3, ''), ('', 2, '%'), ('', 3, '‰')]:
            if base in FLOATS:
                text = (('-' if got[0] == '-' else '') + x + got.lstrip('-') + s2)
                back, true = t.read(text), t.read(got)
                want = float(fractions.Fraction(D(repr(true))) / 10 ** n)
                c.check(math.isclose(back, want, rel_tol=1e-15), 'percent', lambda: '{} read as {} {}'.format(text, back, want))
            elif base == 'decimal' and v.is_finite():
                text = (('-' if got[0] == '-' else '') + x + got.lstrip('-') + s2)
                back = t.read(text)
                c.check(fractions.Fraction(back) == fractions.Fraction(v) / 10 ** n, 'percent',
                        lambda: '{} read as {}'.format(text, back))
        if group:
            for bad in [got + group + group, got.replace(group, group * 2), group * 2 + got]:
                if group * 2 in bad and group != ' ':
                    try:
                        t.read(bad)
                    except ValueError:
                        continue
                    c.fail('doubled', '{!r} as {}'.format(bad, spec))
        c.trace()
    c.outcome(spec)


def exponents(c):
    """Numbers with exponents, and special values, for the floating point datatypes."""
    base = c.every('base', FLOATS)
    chars = c.every('chars', CHARS)
    pattern = c.every('pattern', [None, '0.0#E0', '0E0', '0.#E0', '0.00E0', '0.0##E00', '#,##0.###E00', '0.0#', '#,##0'])
    if chars == {'decimalChar': ','} and pattern and ',' in pattern:
        return
    fmt = dict(chars or {}, **({'pattern': pattern} if pattern else {}))
    spec = {'base': base, 'format': fmt} if fmt else {'base': base}
    t = Datatype.fromvalue(spec)
    dec, group = fmt.get('decimalChar', '.'), fmt.get('groupChar', ',')
    c.state(spec)
    for s, v in [('INF', math.inf), ('-INF', -math.inf), ('NaN', None)]:
        got = t.read(s)
        c.check(got == v or (v is None and got != got), 'special', lambda: '{} {} {}'.format(spec, s, got))
        c.check(t.formatted(got) == s, 'special formatted', lambda: '{} {} {}'.format(spec, s, t.formatted(got)))
        c.trace()
    for m, e, es in itertools.product(['1', '1.5', '-2.25', '0', '12', '+1.0', '', '-', '.', '1.', '.5', '1,000', '1.5.0', 'x', '1.25', '1.125', '-0.0625', '3.00001'],
                                      [0, 1, -1, 5, 21, -300, 400], ['E', 'e', 'E+']):
        if e < 0 and es == 'E+':
            continue
        text = m.replace('.', '\0').replace(',', group).replace('\0', dec) + es + str(e)
        try:
            exp = float((m.replace(',', '') if group in text else m) + es + str(e))
        except ValueError:
            exp = None
        if m in ('1.', '.5') or (',' in m and 'groupChar' not in fmt) or (pattern and ',' in m):
            continue  # left open, also which digits are demanded by patterns
        try:
            got = t.read(text)
        except ValueError:
            got = None
        c.describe((spec, text))
        ok = got == exp
        if pattern:  # Whether numbers follow the pattern exactly is left open, but not what they mean.
            ok = ok or got is None
            if 'E' in pattern and got is not None and ',' not in m:
                # ... except for the number of decimals of the mantissa.
                n = len(m.partition('.')[2])
                decimals = pattern.partition('E')[0].partition('.')[2]
                c.check(decimals.count('0') <= n <= len(decimals), 'decimals of exponential', lambda: '{} {!r}'.format(spec, text))
        c.check(ok, 'exponent', lambda: '{} {!r}: {} {}'.format(spec, text, got, exp))
        if not pattern and got is not None:
            back = t.read(t.formatted(got))
            c.check(back == got, 'exponent written', lambda: '{} {!r}: {}'.format(spec, text, t.formatted(got)))
        c.trace()
    c.outcome(spec)


HARNESSES = [
    Harness('formatting', formatting, 1, 3),
    Harness('texts', texts, 1, 2),
    Harness('plain', plain, None),
    Harness('exponents', exponents, None),
]
