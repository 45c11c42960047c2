import io
import csv
import pathlib
import itertools

from mc.explore import Harness
from checks import sizes
from .common import ref_parse

from csvw.dsv import UnicodeWriter, UnicodeReader
from csvw.dsv_dialects import Dialect
from csvw.metadata import Dialect as MdDialect

ASSUMPTIONS = [
    'cells are str; dialects from the listed alphabets; the bytes are those the local file system '
    'returns',
    'documented limits are outside the property: BOM-leading first cell, first cell starting with '
    'the comment prefix',
]

ODD = ['', 'a', ' a', 'a ', ' ', ',', ';', '\t', '|', '"', "'", '\\', '\n', '\r', '\r\n', '#',
       'a\nb', 'a,b', 'a"b', '""', '\\"', '"a', 'x\\', '\\n', 'a\\,b', "'a'", '\u00e4', '\u20ac',
       '\u2028', '\x85', '\x0c', '\x00', '\ufeff', '\U0001f600', '0', 'None']
FEW = ['a', '', ',', '"', '\n', ' b ', '\u00e4', '\\', '\r', '\u2028', '#c', '\u20ac', ';', "'"]

ENC = {'UTF-8-BOM': 'utf-8-sig'}


def dialect(c):
    kw = {}
    for name, opts in [
        ('delimiter', [',', '\t', ';', '|', ' ', '\u00e4']),
        ('quoteChar', ['"', "'", None, '|']),
        ('doubleQuote', [True, False]),
        ('lineTerminators', [['\r\n', '\n'], ['\n'], '\n', ['\n', '\r\n'], ['\r']]),
        ('commentPrefix', ['#', None, ';', '##']),
    ]:
        v = c.choose(name, opts)
        if v != opts[0]:
            kw[name] = v
    # Dialects must not care whether they are the base class or the metadata class.
    return c.choose('class', [Dialect, MdDialect]), kw


def params(cls, kw):
    """The dialect as the specification says."""
    return dict(
        delimiter=kw.get('delimiter', ','), quote=kw.get('quoteChar', '"'),
        double=kw.get('doubleQuote', True),
        escape='\\' if not kw.get('doubleQuote', True) and kw.get('quoteChar', '"') else None)


def comment_prefix(cls, kw):
    return kw.get('commentPrefix', '#' if cls is Dialect else None)


def representable(row, p):
    """Without quoting, cells containing special characters cannot be written."""
    if p['quote'] is None:
        if row == ['']:
            return False
        return not any(ch in cell for cell in row for ch in [p['delimiter'], '\n', '\r'])
    return True


def write(rows, target=None, how='writerows', **kw):
    with UnicodeWriter(target, **kw) as w:
        if how != 'writerow':
            w.writerows(rows)
        else:
            for row in rows:
                w.writerow(row)
        return w.read() if target is None else None


def dense(c):
    """Every row of up to two odd cells (and some of three), for every dialect within the bound."""
    cls, kw = dialect(c)
    p = params(cls, kw)
    if p['delimiter'] == p['quote']:
        return
    d = cls(**kw)
    prefix = comment_prefix(cls, kw)
    c.state(cls.__name__, kw)
    c.describe(dict(dialect=kw))
    rows = [[x] for x in ODD] + [[x, y] for x in ODD for y in ODD] + \
        [[x, y, x] for x in ODD[:13] for y in ODD[9:15]] + [[]]
    for row in rows:
        if row and prefix and row[0].startswith(prefix):
            continue
        try:
            data = write([row, ['z']], dialect=d).decode('utf-8')
        except csv.Error:
            if representable(row, p) and representable(['z'], p):
                c.fail('write:{}:{}'.format(kw, row), 'row {!r} is representable'.format(row))
            c.trace()
            continue
        with UnicodeReader(io.StringIO(data, newline=''), dialect=d) as r:
            got = list(r)
        if got != [row, ['z']]:
            c.fail('roundtrip:{}:{}'.format(kw, row), 'wrote {!r}, as {!r}, read {!r}'.format(
                row, data, got))
        if not data.startswith('\ufeff'):
            # The text must mean the same to everybody who knows the dialect.
            ref = [x[0] for x in ref_parse(data, **p)]
            if ref != [row, ['z']]:
                c.fail('format:{}:{}'.format(kw, row), 'wrote {!r}, as {!r}'.format(row, data))
        lt = kw.get('lineTerminators', '\r\n')
        lt = lt if isinstance(lt, str) else lt[0]
        if not data.endswith('z' + lt) or (row == [] and not data == lt + 'z' + lt):
            c.fail('terminator:{}:{}'.format(kw, row), repr(data))
        c.trace()
    c.outcome(kw)


def lines_of(text):
    return list(io.StringIO(text, newline=''))


def sources(c):
    """All kinds of targets and sources, encodings, and rows of up to three cells."""
    cls, kw = dialect(c)
    enc = c.choose('encoding', [
        'utf-8', 'utf-8-sig', 'UTF-8-BOM', 'latin-1', 'cp1252', 'utf-16', 'utf-16-le', 'ascii',
        'UTF8', 'iso-8859-15', 'utf-32', 'shift-jis'])
    if enc != 'utf-8':
        kw['encoding'] = enc
    target = c.choose('target', ['path', 'str', 'none', 'stringio', 'handle'])
    how = c.choose('how', ['writerows', 'writerow', 'tuples', 'generator', 'dicts'])
    source = c.choose('source', [
        'path', 'str', 'handle', 'stringio', 'lines', 'bytes', 'generator', 'bytesgen'])
    p = params(cls, kw)
    prefix = comment_prefix(cls, kw)
    nrows = c.choose('nrows', [1, 2, 0])
    rows = []
    for i in range(nrows):
        rows.append([
            c.choose('cell', FEW) for _ in range(c.choose('ncells', [2, 1, 3, 0]))])
    c.describe(dict(dialect=kw, target=target, how=how, source=source, rows=rows))
    if p['delimiter'] == p['quote'] or any(
            r and ((prefix and r[0].startswith(prefix)) or r[0].startswith('\ufeff'))
            for r in rows):
        return
    c.state(cls.__name__, kw, rows, target, source, how)
    pyenc = ENC.get(enc, enc)
    if how == 'dicts':
        if not rows or len({len(r) for r in rows}) != 1 or not rows[0]:
            return
        keys = ['k{}'.format(i) for i in range(len(rows[0]))]
        data = [dict(zip(keys, r)) for r in rows]
        rows = [keys] + rows
    elif how == 'tuples':
        data = [tuple(r) for r in rows]
    elif how == 'generator':
        data = (iter(r) for r in rows) if p['escape'] is None else (list(r) for r in rows)
    else:
        data = rows
    if c.choose('pass', ['dialect', 'kwargs']) == 'dialect':
        how_kw = dict(dialect=cls(**kw))
    else:
        lt = kw.get('lineTerminators', '\r\n')
        how_kw = dict(
            delimiter=p['delimiter'], quotechar=p['quote'], doublequote=p['double'],
            escapechar=p['escape'], encoding=pyenc,
            lineterminator=lt if isinstance(lt, str) else lt[0])
        if p['quote'] is None:
            how_kw['quoting'] = csv.QUOTE_NONE

    def encodable():
        try:
            text = ''.join(''.join(r) for r in rows) + p['delimiter'] + (p['quote'] or '')
            return text.encode(pyenc).decode(pyenc) == text
        except UnicodeError:
            return False

    path = c.dir / 'data.csv'
    ok = all(representable(r, p) for r in rows)
    to_file = target in ('path', 'str')
    try:
        if target == 'none':
            raw = write(data, None, how, **how_kw)
            text = raw.decode('utf-8')
        elif target == 'stringio':
            buf = io.StringIO(newline='')
            write(data, buf, how, **how_kw)
            text = buf.getvalue()
        elif target == 'handle':
            with open(path, 'wt', encoding='utf-8', newline='') as fp:
                write(data, fp, how, **how_kw)
            with open(path, encoding='utf-8', newline='') as fp:
                text = fp.read()
        else:
            write(data, path if target == 'path' else str(path), how, **how_kw)
            text = path.read_bytes().decode(pyenc)
    except csv.Error:
        c.check(not ok, 'write-rejected', rows)
        c.outcome('csv.Error')
        return
    except UnicodeEncodeError:
        c.check(to_file and not encodable(), 'encode-error', rows)
        c.outcome('encode error')
        return
    c.check(ok, 'write-accepted', repr(text))
    # Note: Not everything may be encodable, but then none of it has been written (or not to a file).
    c.tick()
    ref = [x[0] for x in ref_parse(text, **p)]
    c.check(ref == rows, 'format', 'wrote {!r} as {!r}'.format(rows, text))

    # Now read it
    if source not in ('stringio', 'lines', 'generator', 'handle'):
        if not encodable():
            return
    if not to_file:
        if encodable():
            path.write_bytes(text.encode(pyenc))
        else:
            path.write_bytes(text.encode('utf-8'))
    handle = None
    if source == 'path':
        src = path
    elif source == 'str':
        src = str(path)
    elif source == 'handle':
        handle = src = open(path, encoding=pyenc if encodable() else 'utf-8', newline='')
    elif source == 'stringio':
        src = io.StringIO(text, newline='')
    elif source == 'lines':
        src = lines_of(text)
    elif source == 'generator':
        src = (line for line in lines_of(text))
    else:
        if enc in ('utf-16', 'utf-16-le', 'utf-32'):
            return  # the lines of such files cannot be decoded one by one
        src = [line.encode(pyenc) for line in lines_of(text)]
        if source == 'bytesgen':
            src = iter(src)
    with UnicodeReader(src, **how_kw) as r:
        got = list(r)
    if handle:
        handle.close()
    c.check(got == rows, 'read', lambda: 'wrote {!r} as {!r}, read {!r}'.format(rows, text, got))
    c.outcome(got)


def keywords(c):
    """Formatting given as keyword arguments (as for the csv module), for all pairs of odd cells."""
    kw = {}
    for name, opts in [
        ('delimiter', [',', ';', '\t']),
        ('quoting', [csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONE]),
        ('escapechar', [None, '\\', '|']),
        ('doublequote', [True, False]),
        ('quotechar', ['"', "'"]),
        ('lineterminator', ['\r\n', '\n']),
        ('dialect', [None, 'excel', 'excel-tab', 'unix', 'object', 'object2']),
        ('skipinitialspace', [False, True]),
    ]:
        v = c.choose(name, opts)
        if v != opts[0]:
            kw[name] = v
    named = {
        'excel-tab': dict(delimiter='\t'), 'unix': dict(lineterminator='\n', quoting=csv.QUOTE_ALL),
        'object': dict(delimiter='|', lineterminator='\n'),
        'object2': dict(quotechar="'", doublequote=False, escapechar='\\', skipinitialspace=True),
    }.get(kw.get('dialect'), {})
    eff = dict(delimiter=',', quotechar='"', doublequote=True, escapechar=None, quoting=0,
               lineterminator='\r\n')
    eff.update(named)
    eff.update({k: v for k, v in kw.items() if k != 'dialect'})
    if len({eff['delimiter'], eff['quotechar'], eff['escapechar']}) < 3:
        return
    c.state(kw)
    c.describe(dict(kw))
    if kw.get('dialect', '').startswith('object'):  # Keywords take precedence over the dialect.
        kw['dialect'] = Dialect(commentPrefix=None, **dict(delimiter='|', lineTerminators=['\n'])) \
            if kw['dialect'] == 'object' else Dialect(
                commentPrefix=None, quoteChar="'", doubleQuote=False, skipInitialSpace=True)
    cells = ODD + ['|', 'a|', '\\|', '|"']
    for row in [[x] for x in cells] + [[x, y] for x in cells for y in cells]:
        if eff.get('skipinitialspace') and any(cell[:1] == ' ' for cell in row):
            continue
        special = set('\r\n') | {eff['delimiter'], eff['quotechar']}
        hard = any(ch in special for cell in row for ch in cell)
        try:
            data = write([row], **kw).decode('utf-8')
        except csv.Error:
            if eff['escapechar'] or (
                    eff['quoting'] != csv.QUOTE_NONE and eff['doublequote']) or not (
                    hard or row == ['']):
                if not (row == [''] and eff['quoting'] == csv.QUOTE_NONE):
                    c.fail('kw-write:{}:{}'.format(kw, row), 'row {!r} rejected'.format(row))
            c.trace()
            continue
        with UnicodeReader(io.StringIO(data, newline=''), **kw) as r:
            got = list(r)
        if got != [row]:
            c.fail('kw:{}:{}'.format(kw, row), 'wrote {!r}, as {!r}, read {!r}'.format(
                row, data, got))
        if not data.endswith(eff['lineterminator']) or (
                eff['lineterminator'] == '\n' and data.endswith('\r\n')
                and not row[-1].endswith('\r')):
            c.fail('kw-terminator:{}:{}'.format(kw, row), repr(data))
        if eff['quoting'] != csv.QUOTE_NONE and not data.startswith('\ufeff'):
            ref = [x[0] for x in ref_parse(data, eff['delimiter'], eff['quotechar'], eff['doublequote'],
                                           eff['escapechar'])]
            if ref != [row]:
                c.fail('kw-format:{}:{}'.format(kw, row), 'wrote {!r}, as {!r}'.format(row, data))
        c.trace()
    c.outcome(kw)


HARNESSES = [
    Harness('dense', dense, 4, 6),
    Harness('sources', sources, 4, 5),
    Harness('keywords', keywords, 4, 8),
    Harness('sizes', sizes.c01, None),
]
