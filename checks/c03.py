import io
import keyword
import warnings

from mc.explore import Harness
from checks import sizes

from csvw.dsv import UnicodeReader, UnicodeDictReader, NamedTupleReader, iterrows, reader
from csvw.dsv_dialects import Dialect
from csvw.utils import normalize_name

ASSUMPTIONS = ['field names and cells from the listed alphabets; at most 3 fields and 4 rows']

NAMES = ['a', 'b', 'c', 'a name', 'a-name', 'A', 'class', '', '1', '\u00e4', 'a.b', 'cl\u00e4ss',
         'import!', '_x', ' a', 'None', 'x1', '%']


def line(row):
    return ','.join('"{}"'.format(s.replace('"', '""')) if s == '' or ',' in s else s for s in row)


def ref_normalize_ok(s):
    return s.isidentifier() and s.isascii() and not keyword.iskeyword(s)


class Missing:
    pass


def readers(c):
    kind = c.choose('reader', ['dict', 'tuple'])
    via = c.choose('via', ['class', 'iterrows', 'reader'])
    explicit = c.flag('explicit fieldnames')
    restkey = c.choose('restkey', [None, 'rest', 'b'])
    restval = c.choose('restval', [None, '', 'v'])
    peek = c.flag('peek at fieldnames')
    source = c.choose('source', ['lines', 'stringio', 'path', 'bytes'])
    dkw = c.choose('dialect', [
        None, {}, {'skipColumns': 1}, {'skipBlankRows': True}, {'trim': 'true'}, {'skipRows': 1},
        {'commentPrefix': 'a'}])
    header = [c.choose('name', [x] + [y for y in NAMES if y != x])
              for x in ['a', 'b', 'c'][:c.choose('nfields', [2, 3, 1, 0])]]
    rows = []
    for i in range(c.choose('nrows', [2, 3, 1, 0, 4])):
        shape = c.choose('shape', [
            ['x', 'y'], ['x'], [], ['x', 'y', 'z'], ['x', 'y', 'z', 'w'], [''], ['', ''],
            ['a', 'b'], [' ', 'x,y']])
        rows.append([s and s + str(i) for s in shape] if shape[:1] != ['a'] else shape)
    text = ''.join(line(r) + '\n' for r in ([] if explicit else [header]) + rows)
    kw = {}
    if dkw is not None:
        kw['dialect'] = Dialect(**dict({'commentPrefix': None}, **dkw))
    enc = 'utf-8'
    if dkw is None and source in ('path', 'bytes'):
        enc = c.choose('encoding', ['utf-8', 'latin-1', 'utf-16', 'utf-8-sig'])
        if enc != 'utf-8':
            kw['encoding'] = enc
            if source == 'bytes' and enc == 'utf-16':
                return
    c.describe(dict(reader=kind, via=via, text=text, fieldnames=header if explicit else None,
                    restkey=restkey, restval=restval, dialect=dkw, encoding=enc))
    c.state(kind, explicit, restkey, restval, dkw, text, peek, enc)

    def src():
        if source == 'lines':
            return text.splitlines(True)
        if source == 'stringio':
            return io.StringIO(text, newline='')
        if source == 'bytes':
            return [s.encode(enc) for s in text.splitlines(True)]
        p = c.dir / 'd.csv'
        p.write_text(text, encoding=enc, newline='')
        return p

    with UnicodeReader(src(), **kw) as r:
        plain = list(r)
    fields = list(header) if explicit else (plain.pop(0) if plain else None)
    if not dkw:
        assert plain == rows or not text, (plain, rows)

    # The reference:
    expected = []
    for row in plain:
        if row == []:
            continue
        item = {}
        for i, k in enumerate(fields):
            item[k] = row[i] if i < len(row) else restval
        if len(row) > len(fields):
            item[restkey] = row[len(fields):]
        expected.append(item)
    dup = fields is not None and len(set(fields)) != len(fields)
    names = [normalize_name(k) for k in fields or []]
    if kind == 'tuple':
        for n in names:
            c.check(ref_normalize_ok(n), 'normalize', repr((n, fields)))
        bad = len(set(names)) != len(names) or any(n.startswith('_') for n in names)
        # A field name used as restkey gets the surplus cells.
        if not bad:
            expected = [tuple(i[k] for k in fields) for i in expected]

    if explicit:
        kw['fieldnames'] = header
    if restkey is not None:
        kw['restkey'] = restkey
    if restval is not None:
        kw['restval'] = restval
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            if via == 'class':
                cls = UnicodeDictReader if kind == 'dict' else NamedTupleReader
                with cls(src(), **kw) as r:
                    if peek:
                        c.check(r.fieldnames == fields, 'fieldnames', repr(r.fieldnames))
                    got = []
                    for item in r:
                        got.append(item)
                        c.tick()
                    c.check(r.fieldnames == fields, 'fieldnames', repr(r.fieldnames))
            else:
                func = iterrows if via == 'iterrows' else reader
                got = list(func(
                    src(), **dict(kw, **{'dicts' if kind == 'dict' else 'namedtuples': True})))
        except ValueError as e:
            if not (kind == 'tuple' and bad and expected):
                c.fail('error', repr(e))
            c.outcome('error')
            return
    c.check(not (kind == 'tuple' and bad and expected), 'no error', names)
    if kind == 'tuple':
        for item in got:
            c.check(list(item._fields) == names, 'fields', repr(item))
            for n, v in zip(names, item):
                c.check(getattr(item, n) == v, 'attribute', n)
        got = [tuple(item) for item in got]
        c.check(got == expected, 'items', lambda: 'got {}, expected {}'.format(got, expected))
    else:
        c.check([dict(i) for i in got] == expected, 'items',
                lambda: 'got {}, expected {}'.format(got, expected))
    if dup:
        c.check(any('uplicate' in str(x.message) for x in w), 'no warning about duplicates')
    else:
        c.check(not w, 'warning', [str(x.message) for x in w])
    c.outcome(got)


def both(c):
    """namedtuples and dicts at the same time is an error; neither gives plain rows."""
    rows = [['a', 'b'], [], ['c']][:c.every('n', [3, 2, 1, 0])]
    lines = [','.join(r) + '\n' for r in rows]
    try:
        list(iterrows(lines, namedtuples=True, dicts=True))
        c.fail('both', 'accepted')
    except ValueError:
        pass
    c.check(list(iterrows(lines)) == rows, 'plain')
    c.outcome(rows)


def normalize(c):
    """normalize_name for all code points, alone and next to others."""
    chunk = c.every('chunk', list(range(0, 0x110000, 0x1000)))
    frames = ['{}', 'a{}b', '{}1', 'cla{}ss'] if chunk < 0x10000 or c.tier == 'thorough' else ['{}']
    c.state(chunk)
    for i in range(chunk, chunk + 0x1000):
        if 0xd800 <= i < 0xe000:
            continue
        for f in frames:
            s = f.format(chr(i))
            n = normalize_name(s)
            if not ref_normalize_ok(n):
                c.fail('normalize:{!r}'.format(s), repr(n))
            if s.isascii() and s.isalnum() and s.isidentifier() and not keyword.iskeyword(s) \
                    and n != s:
                c.fail('changed:{!r}'.format(s), repr(n))
        c.trace(len(frames))
    c.outcome(chunk)


def normalize_words(c):
    """All strings of up to three parts."""
    parts = ['class', 'a', '', '-', '.', ' ', '_', '1', '\u00e9', 'is', '!', '\t', '\u0301', 'None',
             'B', '\x00', '\u65e5', 'if', '\u0130', '\ufb01', '\u2160', '\u00b2', '\u212b']
    x = c.every('first', parts)
    c.state(x)
    for y in parts:
        for z in parts:
            n = normalize_name(x + y + z)
            if not ref_normalize_ok(n):
                c.fail('normalize:{!r}'.format(x + y + z), repr(n))
            c.trace()
    c.outcome(x)


HARNESSES = [
    Harness('readers', readers, 3, 4),
    Harness('both', both, None),
    Harness('normalize', normalize, None),
    Harness('normalize_words', normalize_words, None),
    Harness('sizes', sizes.c03, None),
]
