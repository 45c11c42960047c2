import csv
import io
import itertools

from mc.explore import Harness
from checks import sizes
from .common import ref_parse

from csvw.dsv import UnicodeReader, UnicodeReaderWithLineNumber, iterrows
from csvw.dsv_dialects import Dialect
from csvw.metadata import Dialect as MdDialect

ASSUMPTIONS = [
    'lines end with \\n, \\r or \\r\\n, also within quoted cells',
    'a quoted first cell starting with the comment prefix marks a comment, too (limit of the csv '
    'module)',
]

KINDS = [
    'a,b', '', '#c1,x', '"q\nr",s', ',', ' x , y ', '"#m\nn",z', '# sp', '#', ' #n,o', '"",""',
    'k,"l\n\n"', 'a,#b', ' ', '##d e', ',#f', ' \t,v', 'p, "q"', '\u3000w,1\xa0', '"\n","\nz"']

OPTIONS = [
    ('skipRows', [0, 1, 2, 3, 4]),
    ('commentPrefix', ['#', None, '##', '', ' #', 'a']),
    ('skipBlankRows', [False, True]),
    ('skipColumns', [0, 1, 2]),
    ('trim', ['false', 'true', 'start', 'end', True, False]),
    ('skipInitialSpace', [False, True]),
    ('delimiter', [',', ';']),
]

WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2003\u3000\u2028\u2029'


def model(text, o):
    """[(1-based number of last line, row)], [(0-based number of last line, raw row)]"""
    rows, comments = [], []
    prefix = o['commentPrefix']
    for row, _, last in ref_parse(text, delimiter=o['delimiter'], skipspace=o['skipInitialSpace']):
        skipped = last < o['skipRows']
        comment = bool(prefix) and row != [] and row[0][:len(prefix)] == prefix
        if comment or (skipped and row != []):
            comments.append((last, row))
        if comment or skipped:
            continue
        if o['skipBlankRows'] and all(cell == '' for cell in row):
            continue
        trim = o['trim']
        left = trim in ('true', 'start', True)
        right = trim in ('true', 'end', True)

        def do(s):
            while left and s and s[0] in WS:
                s = s[1:]
            while right and s and s[-1] in WS:
                s = s[:-1]
            return s
        rows.append((last + 1, [do(s) for s in row][o['skipColumns']:]))
    return rows, comments


def options(c):
    o = {}
    for name, opts in OPTIONS:
        o[name] = c.choose(name, opts)
    cls = c.choose('class', [Dialect, MdDialect])
    kw = {k: v for k, v in o.items() if v != dict(OPTIONS)[k][0]}
    if cls is MdDialect:
        kw['commentPrefix'] = o['commentPrefix']  # other default
    how = c.choose('made by', ['init', 'updated', 'setattr'])
    if how == 'init':
        d = cls(**kw)
    elif how == 'updated':
        d = cls().updated(**kw)
    else:
        d = cls()
        for k, v in kw.items():
            if k == 'trim':  # setting attributes skips the conversion
                v = {True: 'true', False: 'false'}.get(v, v)
            setattr(d, k, v)
    if how == 'updated' and isinstance(o['trim'], bool):
        d.trim = str(o['trim']).lower()
    return o, d


def compare(c, text, o, d, source):
    rows, comments = model(text, o)
    c.describe(dict(text=text, options={
        k: v for k, v in o.items() if v != dict(OPTIONS)[k][0]}, source=source))

    def src():
        if source == 'stringio':
            return io.StringIO(text, newline='')
        if source == 'path':
            p = c.dir / 'd.csv'
            p.write_bytes(text.encode('utf-8'))
            return p
        if source == 'bom':
            p = c.dir / 'd.csv'
            p.write_bytes(text.encode('utf-8-sig'))
            return str(p)
        lines = list(io.StringIO(text, newline=''))
        if source == 'bytes':
            return [line.encode('utf-8') for line in lines]
        return lines

    with UnicodeReaderWithLineNumber(src(), dialect=d) as r:
        got = list(r)
        got_comments = r.comments
    c.check(got == rows, 'rows', lambda: 'got {}, expected {}'.format(got, rows))
    c.check([x[0] for x in got_comments] == [x[0] for x in comments], 'comments',
            lambda: 'got {}, expected {}'.format(got_comments, comments))
    for (_, txt), (_, row) in zip(got_comments, comments):
        whole = o['delimiter'].join(row)
        p = o['commentPrefix']
        if p and whole.startswith(p):
            whole = whole[len(p):]
        if not p or whole[:1] not in p:
            c.check(txt == whole.strip(), 'comment text', lambda: '{!r} of {!r}'.format(txt, row))
    with UnicodeReader(src(), dialect=d) as r:
        plain = list(r)
    c.check(plain == [x[1] for x in rows], 'plain rows', lambda: 'got {}, expected {}'.format(
        plain, rows))
    c.check(list(iterrows(src(), dialect=d)) == plain, 'iterrows')
    c.outcome(rows, [x[0] for x in comments])


def dense(c):
    """All files of up to three lines of all kinds, for every dialect within the bound."""
    o, d = options(c)
    n = c.every('rows', [3, 2, 1, 0])
    kinds = [c.every('row', KINDS[:12] if i == 2 else KINDS) for i in range(n)]
    text = '\n'.join(kinds) + ('\n' if n else '')
    if o['delimiter'] == ';':
        text = text.replace(',', ';')
    c.state(o, text)
    compare(c, text, o, d, 'stringio')


def wide(c):
    """Longer files from all kinds of sources, with all kinds of line ends."""
    o, d = options(c)
    source = c.choose('source', ['stringio', 'path', 'lines', 'bytes', 'bom'])
    n = c.choose('rows', [5, 6, 4])
    default = ['#h', 'a,b', '"q\nr",s', '', 'c,d', 'e']
    ends = ['\n', '\r\n', '\r']
    text = ''
    for i in range(n):
        text += c.choose('row', [default[i]] + [k for k in KINDS if k != default[i]])
        text += c.choose('end', ends + ([''] if i == n - 1 else []))
    everywhere = c.choose('all line ends', [None, '\r\n', '\r'])
    if everywhere:
        text = text.replace('\r\n', '\n').replace('\r', '\n').replace('\n', everywhere)
    if o['delimiter'] == ';':
        text = text.replace(',', ';')
    c.state(o, text, source)
    compare(c, text, o, d, source)


def wellformed(text, delimiter, quote, skipspace, escape):
    """The rows; None if a quoted cell is not terminated, or followed by anything in the same cell."""
    rows, row, cell, state, begun = [], [], '', 'start', False
    i, n = 0, len(text)
    while i < n:
        ch = text[i]
        i += 1
        if state == 'quoted':
            if ch == escape:
                cell += text[i]
                i += 1
            elif ch == quote:
                if not escape and text[i:i + 1] == quote:
                    cell += quote
                    i += 1
                else:
                    state = 'cell' if escape else 'closed'  # csv is lenient with escapes
            else:
                cell += ch
        elif ch == '\n':
            rows.append(row + [cell] if begun else [])
            row, cell, state, begun = [], '', 'start', False
            continue
        elif ch == delimiter:
            row.append(cell)
            cell, state = '', 'start'
        elif state == 'closed':
            return None
        elif state == 'start' and skipspace and ch == ' ':
            pass
        elif state == 'start' and ch == quote:
            state = 'quoted'
        elif ch == escape:
            cell += text[i]
            i += 1
            state = 'cell'
        else:
            cell += ch
            state = 'cell'
        begun = True
    if state == 'quoted':
        return None
    return rows + [row + [cell]] if begun else rows


def malformed(c):
    """All short texts of characters with a meaning: well-formed ones are read, others rejected."""
    delimiter = c.choose('delimiter', [',', ';'])
    quote = c.choose('quoteChar', ['"', "'"])
    skipspace = c.choose('skipInitialSpace', [False, True])
    escape = c.choose('escape', [None, '\\'])
    cls = c.choose('class', [Dialect, MdDialect])
    how = c.choose('read by', ['reader', 'iterrows', 'line numbers'])
    first = c.every('start', ['a', quote, delimiter, '\n', ' ', ''])
    n = (5 if c.tier == 'quick' else 7) if first else 0
    d = cls(delimiter=delimiter, quoteChar=quote, skipInitialSpace=skipspace, doubleQuote=not escape,
            commentPrefix=None)
    c.describe((delimiter, quote, skipspace, escape, how, first))
    for k in range(n + 1):
        for rest in itertools.product('a' + quote + delimiter + '\n ' + (escape or ''), repeat=k):
            text = first + ''.join(rest)
            if escape and text.endswith(escape) or '\\\n' in text:
                continue
            exp = wellformed(text, delimiter, quote, skipspace, escape)
            try:
                if how == 'iterrows':
                    got = list(iterrows(io.StringIO(text, newline=''), dialect=d))
                elif how == 'line numbers':
                    with UnicodeReaderWithLineNumber(io.StringIO(text, newline=''), dialect=d) as r:
                        got = [x[1] for x in r]
                else:
                    with UnicodeReader(io.StringIO(text, newline=''), dialect=d) as r:
                        got = list(r)
            except csv.Error:
                got = None
            c.trace()
            c.check(got == exp, repr((text, delimiter, quote, skipspace, escape, how)),
                    lambda: 'read {!r} as {}, expected {}'.format(text, got, exp or 'an error'))
        c.state(delimiter, quote, skipspace, escape, how, first, k)
    c.outcome(first, how)


HARNESSES = [
    Harness('malformed', malformed, 2, 3),
    Harness('dense', dense, 2, 3),
    Harness('wide', wide, 3, 4),
    Harness('sizes', sizes.c02, None),
]
