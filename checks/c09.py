import re
import math
import decimal
import itertools
import collections
import urllib.parse

from mc.explore import Harness

from csvw import Datatype, Column

from .c08 import RANGES

ASSUMPTIONS = [
    'surrounding whitespace of numbers may be ignored or rejected; special values of floats may '
    'be accepted in other spellings (inf, nan, Infinity); percent signs are decided by C11',
    'the JSON extensions NaN and Infinity and the empty NMTOKEN are left open',
]
D = decimal.Decimal
DIGITS = '0123456789'
ANY = object()  # whatever


class Bad(Exception):
    pass


def scan_digits(s, i):
    j = i
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return j


def ref_int(s):
    if s != s.strip():
        return ANY
    if any(x in s for x in '%‰'):
        return ANY
    i = 1 if s[:1] in ('+', '-') else 0
    if len(s) == i or scan_digits(s, i) != len(s):
        raise Bad(s)
    n = 0
    for ch in s[i:]:
        n = n * 10 + DIGITS.index(ch)
    return -n if s[0] == '-' else n


def ref_decimal(s, exponent=False):
    if s != s.strip():
        return ANY
    if any(x in s for x in '%‰') and not exponent:
        return ANY
    if s in ('INF', '-INF', 'NaN'):
        return (float if exponent else D)(s.lower())
    i = 1 if s[:1] in ('+', '-') else 0
    j = scan_digits(s, i)
    k = j
    if s[j:j + 1] == '.':
        k = scan_digits(s, j + 1)
    digits = s[i:j] + s[j + 1:k]
    if not digits:
        raise Bad(s)
    exp = -len(s[j + 1:k])
    if k != len(s):
        if not (exponent and s[k] in 'eE'):
            raise Bad(s)
        m = k + 1
        if s[m:m + 1] in ('+', '-'):
            m += 1
        if m == len(s) or scan_digits(s, m) != len(s):
            raise Bad(s)
        exp += int(s[k + 1:])
    return D((1 if s[0] == '-' else 0, tuple(DIGITS.index(x) for x in digits), exp))


def ref_float(s):
    if re.sub('[+-]', '', s).lower() in ('inf', 'nan', 'infinity'):
        return ANY if s not in ('INF', '-INF', 'NaN') else float(s.lower())
    v = ref_decimal(s, exponent=True)
    if v is ANY or isinstance(v, float):
        return v
    # Correct rounding of an exact decimal, by exact rational arithmetic.
    n, d = v.as_integer_ratio()
    if n == 0:
        return -0.0 if s[0] == '-' else 0.0
    try:
        return n / d
    except OverflowError:
        return -math.inf if n < 0 else math.inf


def ref_hex(s):
    low = s.lower()
    if len(s) % 2 or any(x not in '0123456789abcdef' for x in low):
        raise Bad(s)
    return bytes('0123456789abcdef'.index(low[i]) * 16 + '0123456789abcdef'.index(low[i + 1])
                 for i in range(0, len(s), 2))


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def ref_base64(s):
    s = ''.join(x for x in s if x not in ' \t\r\n')
    if len(s) % 4:
        raise Bad(s)
    body = s.rstrip('=')
    pad = len(s) - len(body)
    if pad > 2 or any(x not in B64 for x in body) or (pad and not body):
        raise Bad(s)
    bits = ''.join('{:06b}'.format(B64.index(x)) for x in body)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))


def ref_nmtoken(s):
    if not s:
        return ANY
    if any(not (x.isalnum() or x in '.:-_') for x in s):
        raise Bad(s)
    return s


def ref_json(s):
    """A recursive descent parser."""
    def ws(i):
        while i < len(s) and s[i] in ' \t\n\r':
            i += 1
        return i

    def value(i):
        i = ws(i)
        ch = s[i:i + 1]
        if ch == '[':
            res = []
            i = ws(i + 1)
            if s[i:i + 1] == ']':
                return res, i + 1
            while True:
                v, i = value(i)
                res.append(v)
                i = ws(i)
                if s[i:i + 1] == ']':
                    return res, i + 1
                if s[i:i + 1] != ',':
                    raise Bad(s)
                i += 1
        if ch == '{':
            res = collections.OrderedDict()
            i = ws(i + 1)
            if s[i:i + 1] == '}':
                return res, i + 1
            while True:
                i = ws(i)
                k, i = text(i)
                i = ws(i)
                if s[i:i + 1] != ':':
                    raise Bad(s)
                v, i = value(i + 1)
                res[k] = v
                i = ws(i)
                if s[i:i + 1] == '}':
                    return res, i + 1
                if s[i:i + 1] != ',':
                    raise Bad(s)
                i += 1
        if ch == '"':
            return text(i)
        for word, v in [('true', True), ('false', False), ('null', None)]:
            if s.startswith(word, i):
                return v, i + len(word)
        return num(i)

    def text(i):
        if s[i:i + 1] != '"':
            raise Bad(s)
        i += 1
        res = ''
        while True:
            ch = s[i:i + 1]
            if not ch or ch < ' ':
                raise Bad(s)
            if ch == '"':
                return res, i + 1
            if ch == '\\':
                e = s[i + 1:i + 2]
                if not e or e not in '"\\/bfnrt':
                    raise Bad(s)  # \\u is beyond the length
                res += dict(zip('"\\/bfnrt', '"\\/\b\f\n\r\t'))[e]
                i += 2
            else:
                res += ch
                i += 1

    def num(i):
        j = i + 1 if s[i:i + 1] == '-' else i
        k = scan_digits(s, j)
        if k == j or (s[j] == '0' and k > j + 1):
            raise Bad(s)
        isint = True
        if s[k:k + 1] == '.':
            m = scan_digits(s, k + 1)
            if m == k + 1:
                raise Bad(s)
            k, isint = m, False
        if s[k:k + 1] and s[k] in 'eE':
            m = k + 1
            if s[m:m + 1] in ('+', '-'):
                m += 1
            n = scan_digits(s, m)
            if n == m:
                raise Bad(s)
            k, isint = n, False
        t = s[i:k]
        return (int(t) if isint else ref_float(t)), k

    if 'NaN' in s or 'Infinity' in s:
        return ANY
    v, i = value(0)
    if ws(i) != len(s):
        raise Bad(s)
    return v


def ref_bool(true, false):
    def ref(s):
        if s in true:
            return True
        if s in false:
            return False
        raise Bad(s)
    return ref


def accept(pred, norm=lambda s: s):
    def ref(s):
        s = norm(s)
        if not pred(s):
            raise Bad(s)
        return s
    return ref


def normalized(s):
    return ''.join(' ' if x in '\t\r\n' else x for x in s).strip()


def split_pred(s):
    """[0-9]+[a-z]+"""
    i = scan_digits(s, 0)
    return 0 < i < len(s) and all('a' <= x <= 'z' for x in s[i:])


FORMATS = [
    ('[0-9]+[a-z]+', split_pred),
    ('a|ab', lambda s: s in ('a', 'ab')),
    ('ab|a', lambda s: s in ('a', 'ab')),
    ('a*', lambda s: not s.strip('a') and '\n' not in s),
    ('(ab)?1', lambda s: s in ('1', 'ab1')),
    ('^a$', lambda s: s == 'a'),
    ('.', lambda s: len(s) == 1 and s != '\n'),
    ('[^a]+', lambda s: len(s) > 0 and 'a' not in s),
    (r'a\|b', lambda s: s == 'a|b'),
    (r'\d{2,3}', lambda s: 2 <= len(s) <= 3 and scan_digits(s, 0) == len(s)),
    ('a.?', lambda s: s == 'a' or (len(s) == 2 and s[0] == 'a' and s[1] != '\n')),
    ('(a)(b)?|1', lambda s: s in ('a', 'ab', '1')),
]

NUM = '019+-.eE ,_%x'
CASES = collections.OrderedDict()


def case(name, dt, ref, alphabet, extra=(), n=4):
    CASES[name] = (dt, ref, alphabet, list(extra), n)


def ranged(lo, hi):
    def ref(s):
        v = ref_int(s)
        if v is not ANY and not lo <= v <= hi:
            raise Bad(s)
        return v
    return ref


def around(lo, hi):
    res = []
    for b in [0, 10 ** 30] + [x for x in (lo, hi) if math.isfinite(x)]:
        for d in range(-3, 4):
            for v in (b + d, -(b + d), (b + d) * 10):
                for pre in ('', '+', '0', '00', '+0', '-', '--', '0x', ' '):
                    for post in ('', '.', '.0', '0', 'e0', ' ', 'L', '.5', '_0', ',0', '\n'):
                        res.append(pre + str(v) + post)
    return res + ['INF', '-INF', 'NaN', 'Infinity', 'nan', 'inf', '٣', '1٣', '１', '²', '1e400',
                  '\u22121', '', '1' * 400, '1 2', '1\n', 'true', 'None', '0b1', '0o7', '1j', '1/2']


for name_, (lo_, hi_) in RANGES.items():
    case(name_, name_, ranged(lo_, hi_), NUM if name_ in (
        'integer', 'byte', 'nonNegativeInteger') else NUM[:8], around(lo_, hi_))
LONG = ['123456789012345678901234567890.123456789012345678901234567890', '0' * 50 + '1',
        '-' + '9' * 60 + '.' + '9' * 60, '.' + '0' * 60 + '1', '1' + '0' * 60, '1.' + '0' * 60]
case('decimal', 'decimal', ref_decimal, NUM, around(-math.inf, math.inf) + LONG)
FLOATS = ['1e308', '1e309', '-1e309', '1e-400', '4.9e-324', '2.4e-324', '0.1', '1.7976931348623157e308',
          '9007199254740993', '9007199254740993.0000000000000000000000001', '1e23', '8.5e22',
          '179769313486231580793e289', '2.2250738585072011e-308', '-0', '-0.0', '+0', '1_0.0', '1e1_0',
          '0x10', '1e', '1e+', 'e1', '.e1', '1.e1', '.1e1', '١', '1d', '1f', '+INF']
for name_ in ('float', 'double', 'number'):
    case(name_, name_, ref_float, NUM, around(-math.inf, math.inf) + LONG + FLOATS)
BOOL = ['true', 'false', '1', '0', 'True', 'FALSE', 'TRUE', 'yes', 'on', ' true', 'true ', 'J', 'N',
        'j', 'J|N', '|', '', 't', 'f', '01', '10', '00', 'truefalse', 'x', 'x y', 'y', 'true\n', '-1']
case('boolean', 'boolean', ref_bool(['true', '1'], ['false', '0']), '01 tf|', BOOL)
case('boolean J|N', {'base': 'boolean', 'format': 'J|N'}, ref_bool(['J'], ['N']), 'JNjn| 1', BOOL)
case('boolean x y|x', {'base': 'boolean', 'format': 'x y|x'}, ref_bool(['x y'], ['x']), 'xy |',
     BOOL, 5)
case('boolean 0|1', {'base': 'boolean', 'format': '0|1'}, ref_bool(['0'], ['1']), '01|', BOOL)
case('hexBinary', 'hexBinary', ref_hex, '09afAFgG x\nä', ['0a' * 100, '0x0a', 'ＡＢ', '0' * 201])
for name_ in ('binary', 'base64Binary'):
    case(name_, name_, ref_base64, 'A=z+/-_ \nä',
         ['QUJD' * 40, 'QUJD\n' * 40, 'QUI=', 'QQ==', 'QQ=', 'QQ', 'Q', 'QUI=QUI=', 'Q=UI', '=QUI',
          'QQ==\n', 'Q Q = =', 'QQ==QQ', 'QQ===', 'Q===', '====', 'QUJDQQ=='], 5)
case('NMTOKEN', 'NMTOKEN', ref_nmtoken, 'aZ0.:-_ ,\nä/', ['a b', 'a\n', 'x' * 99, 'x' * 99 + ' '])
case('json', 'json', ref_json, '[]{}",:01-.ea \\', [
    'true', 'false', 'null', 'True', 'nul', 'nulll', '[1,2]', '{"a": [1, {"b": null}]}', '01', '1.',
    '.5', '+1', '-', '1e5', '1E+5', "'a'", '"a', 'a', '{"a":1,}', '[1,]', '{a:1}', '{"a" 1}',
    '{"a":1 "b":2}', '"\\n"', '"\\x"', '{"b":1,"a":2}', '{"a":1,"a":2}', '[[[[]]]]', '[[[[]]]',
    '1 2', '{}{}', '\ufeff1', '"\t"', ' 1 ', '\n[ ]\t', '123456789012345678901234567890',
    '1.5e300', '-0', '-0.0'], 4)
TXT = ['a', 'b', '1', '\n', ' ', '|', 'é']
for base_ in ('string', 'normalizedString', 'gYear', 'anyURI', 'NMTOKEN', 'xml'):
    for fmt_, pred_ in FORMATS:
        nrm = normalized if base_ == 'normalizedString' else (lambda s: s)
        if base_ == 'NMTOKEN':
            ref_ = (lambda p: lambda s: accept(p)(s) if s == '' else ref_nmtoken(accept(p)(s)))(pred_)
        else:
            ref_ = accept(pred_, nrm)
        case('{} {}'.format(base_, fmt_), {'base': base_, 'format': fmt_}, ref_, TXT, ['123', '1234'])
case('normalizedString', 'normalizedString', accept(lambda s: True, normalized), 'a \t\r\n\u00a0', (), 5)
case('string', 'string', accept(lambda s: True), TXT)
case('any', 'any', accept(lambda s: True), TXT)


def same(got, exp):
    if isinstance(exp, float) and exp != exp:
        return type(got) is float and got != got
    if isinstance(exp, D) and not exp.is_finite():
        return type(got) is D and str(got) == str(exp)
    if isinstance(exp, float):
        return type(got) is float and got == exp and math.copysign(1, got) == math.copysign(1, exp)
    if isinstance(exp, list):
        return isinstance(got, list) and len(got) == len(exp) and all(map(same, got, exp))
    if isinstance(exp, dict):
        return isinstance(got, dict) and list(got) == list(exp) and all(
            same(got[k], exp[k]) for k in exp)
    return type(got) is type(exp) and got == exp


def lexical(c):
    """All strings over the alphabet of the datatype: accepted exactly if valid, with the value."""
    name = c.every('case', list(CASES))
    dt, ref, alphabet, extra, n = CASES[name]
    first = c.every('first character', [None] + list(alphabet))
    via = c.every('via', ['datatype', 'column'])
    d = Datatype.fromvalue(dt if isinstance(dt, str) else dict(dt))
    col = Column.fromvalue({'name': 'c', 'datatype': dt if isinstance(dt, str) else dict(dt),
                            'null': []})
    n += c.tier == 'thorough'
    if first is None:
        strings = [''] + extra
    else:
        strings = (first + ''.join(t) for k in range(n) for t in itertools.product(
            alphabet, repeat=k))
    c.state(name, first, via)
    seen = set()
    for s in strings:
        try:
            exp = ref(s)
        except Bad:
            exp = Bad
        try:
            got = (d.read if via == 'datatype' else col.read)(s)
        except ValueError:
            got = Bad
        c.describe(dict(datatype=dt, text=s))
        c.trace()
        if exp is ANY:
            if got is Bad or s == s.strip():
                continue
            try:
                exp = ref(s.strip())
            except Bad:
                exp = Bad
            if exp is ANY:
                continue
        seen.add(got is Bad)
        if base_of(dt) == 'anyURI' and got is not Bad and exp is not Bad:
            got = urllib.parse.unquote(got.unsplit())
        if exp is Bad or got is Bad:
            c.check(exp is got, 'acceptance', lambda: '{} {!r}: got {!r}, expected {!r}'.format(
                dt, s, got, exp))
        else:
            c.check(same(got, exp), 'value', lambda: '{} {!r}: got {!r}, expected {!r}'.format(
                dt, s, got, exp))
    c.outcome(name, first, sorted(seen))


def base_of(dt):
    return dt if isinstance(dt, str) else dt['base']


HARNESSES = [
    Harness('lexical', lexical, None),
]
