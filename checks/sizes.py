"""
The properties at scale: harnesses which enumerate sizes (numbers of rows, columns, tables, items, ...) around all the numbers
which are likely limits of buffers, chunks or batches, and positions in data of that size.
"""
import collections
import io
import json
import pathlib
import warnings
import zipfile

from csvw import CSVW, Column, Table, TableGroup
from csvw.db import Database
from csvw.dsv import (
    Dialect, UnicodeDictReader, UnicodeReader, UnicodeReaderWithLineNumber, UnicodeWriter, add_rows,
    filter_rows_as_dict, iterrows, rewrite)
from csvw.frictionless import DataPackage
from csvw.metadata import Datatype
from csvw.utils import metadata2markdown

CTX = 'http://www.w3.org/ns/csvw'
LIMITS = [10, 16, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000]
LARGE = [8192, 10000, 16384, 20000, 32768, 65536]


def around(limits, most=None):
    return [n for n in [2, 0, 1, 3] + [k + d for k in limits for d in (-1, 0, 1)] if most is None or n <= most]


def sizes(c, most=None, least=0):
    limits = LIMITS + (LARGE if c.tier == 'thorough' else [])
    return c.every('size', [n for n in around(limits, most) if n >= least])


def position(c, n, label='position'):
    return c.every(label, sorted({0, n // 2, max(0, n - 2), n - 1}) if n else [None])


def text(i):
    return ['x', '', 'a b', 'q"q', 'l\nl', '\u00e4;,'][i % 6] + str(i)


def dump(p, rows):
    p.parent.mkdir(parents=True, exist_ok=True)
    with UnicodeWriter(p) as w:
        w.writerows(rows)
    return p


def cell(s):
    return '"' + s.replace('"', '""') + '"' if set(s) & set('",\n\r') else s


def write(p, rows, end='\n'):
    """Independent of csvw."""
    p.write_bytes(''.join(','.join(cell(s) for s in row) + end for row in rows).encode('utf8'))
    return p


class Log:
    def __init__(self):
        self.messages = []

    def warning(self, msg, *args):
        self.messages.append(msg % args if args else str(msg))


def done(c, *key):
    c.describe(list(key))
    c.state(*key)
    c.trace()


def c01(c):
    """Numbers of rows, of columns, and lengths of cells survive."""
    n = sizes(c)
    shape = c.every('shape', ['rows', 'columns', 'cell', 'quotes', 'lines'])
    kw = c.every('dialect', [{}, {'delimiter': '\t'}, {'doubleQuote': False}, {'encoding': 'utf-16'}])
    target = c.every('target', ['path', 'memory', 'file'])
    rows = {
        'rows': [[str(i), text(i)] for i in range(n)],
        'columns': [[text(i) for i in range(n)]] * 2 if n else [],
        'cell': [['a', 'x' * n, '\u00e4' * n, 'b']] * 3,
        'quotes': [['a', '"' * n, 'b']] * 3,
        'lines': [['a', '\n' * n, '\r\n' * n]] * 3,
    }[shape]
    done(c, n, shape, json.dumps(kw), target)
    d = Dialect(**kw)
    f = {'path': c.dir / 'x.csv', 'memory': None}.get(target)
    if target == 'file':
        f = io.StringIO(newline='')
    with UnicodeWriter(f, dialect=d) as w:
        w.writerows(rows)
        if target == 'memory':
            f = io.StringIO(w.read().decode('utf8'), newline='')
    if target == 'file':
        f.seek(0)
    with UnicodeReader(f, dialect=d) as r:
        got = list(r)
    c.check(got == rows, json.dumps([n, shape, kw, target]), lambda: '{} rows, {}'.format(len(got), str(got)[:300]))


def c02(c):
    """Many rows, comments, blank lines and skipped rows; line numbers."""
    n = sizes(c)
    what = c.every('what', ['rows', 'comments', 'skip', 'blank', 'mixed', 'skip columns'])
    end = c.every('end', ['\n', '\r\n'])
    key = json.dumps([n, what, end])
    done(c, n, what, end)
    junk = ['#c{}'.format(i) for i in range(n)]
    rows = [['1', 'x'], ['2', 'y']]
    kw = {'rows': {}, 'comments': {'commentPrefix': '#'}, 'skip': {'skipRows': n}, 'blank': {'skipBlankRows': True},
          'mixed': {'commentPrefix': '#', 'skipBlankRows': True}, 'skip columns': {'skipColumns': n}}[what]
    lines, exp, comments = [], [], []
    if what == 'rows':
        exp = [(i + 1, [str(i), 'x' + str(i)]) for i in range(n)]
        lines = [','.join(row) for _, row in exp]
    elif what == 'skip columns':
        lines = [','.join(['j'] * n + row) for row in rows]
        exp = [(i + 1, row) for i, row in enumerate(rows)]
    else:
        if what == 'mixed':
            for i in range(n):
                exp.append((len(lines) + 1, [str(i), 'a']))
                lines.append('{},a'.format(i))
                comments.append((len(lines), 'c{}'.format(i)))
                lines.extend(['#c{}'.format(i), ''])
        elif what == 'blank':
            lines = [''] * n
        else:
            lines = list(junk)
            comments = [(i, 'c{}'.format(i) if what == 'comments' else s) for i, s in enumerate(junk)]
        for row in rows:
            exp.append((len(lines) + 1, row))
            lines.append(','.join(row))
    d = Dialect(**dict({'commentPrefix': None}, **kw))
    p = c.dir / 'x.csv'
    p.write_bytes((end.join(lines) + end).encode('utf8') if lines else b'')
    with UnicodeReaderWithLineNumber(p, dialect=d) as r:
        got = list(r)
        found = r.comments
    c.check(got == exp, key, lambda: '{} instead of {}'.format(str(got[-3:]), str(exp[-3:])))
    c.check(list(found) == comments, key, lambda: 'comments {} {}'.format(str(found[:3]), str(found[-3:])))


def c03(c):
    """Many rows and columns as dicts and namedtuples."""
    n = sizes(c, 2100)
    shape = c.every('shape', ['rows', 'columns', 'short', 'long'])
    k = n if shape == 'columns' else 3
    header = ['c{}'.format(i) for i in range(k)]
    if not header:
        return
    m = {'short': 1, 'long': k + n}.get(shape, k)
    rows = [[str(i) + 'x' * (j % 2) for j in range(m)] for i in range(n if shape == 'rows' else 2)]
    done(c, n, shape)
    p = write(c.dir / 'x.csv', [header] + rows)
    key = json.dumps([n, shape])
    with UnicodeDictReader(p, restkey='rest', restval='none') as r:
        got = [dict(row) for row in r]
    exp = []
    for row in rows:
        e = dict(zip(header, row + ['none'] * (k - m)))
        if m > k:
            e['rest'] = row[k:]
        exp.append(e)
    c.check(got == exp, key, lambda: 'dicts: {} {}'.format(len(got), str(got)[-200:]))
    if m == k:
        got = [tuple(row) for row in iterrows(p, namedtuples=True)]
        c.check(got == [tuple(r) for r in rows], key, lambda: 'namedtuples: {} {}'.format(len(got), str(got)[-200:]))


def c04(c):
    """Editing large files."""
    n = sizes(c)
    op = c.every('operation', ['add', 'add to', 'rewrite', 'drop', 'filter', 'repeat'])
    at = position(c, n) if op in ('drop', 'filter') else None
    rows = [[str(i), text(i)] for i in range(n)]
    p = write(c.dir / 'x.csv', rows)
    key = json.dumps([n, op, at])
    done(c, n, op, at)
    if op == 'add':
        new = [['n{}'.format(i), text(i)] for i in range(n)]
        add_rows(p, *new)
        rows = rows + new
    elif op == 'add to':
        add_rows(str(p), ['x', 'y'])
        rows = rows + [['x', 'y']]
    elif op == 'rewrite':
        seen = []
        rewrite(p, lambda i, row: seen.append(i) or [row[1], row[0]])
        c.check(seen == list(range(n)), key, 'indices')
        rows = [r[::-1] for r in rows]
    elif op == 'drop':
        rewrite(p, lambda i, row: None if i == at else row)
        rows = rows[:at] + rows[at + 1:] if n else rows
    elif op == 'filter':
        if n:
            removed = filter_rows_as_dict(p, lambda d: d[rows[0][0]] != str(at))
            c.check(removed == (1 if at else 0), key, lambda: 'removed {}'.format(removed))
            rows = rows[:at] + rows[at + 1:] if at else rows
    else:
        if n > 1100:
            return
        for i in range(n if c.tier == 'thorough' else min(n, 20)):
            add_rows(p, [str(i)])
            rows.append([str(i)])
    with UnicodeReader(p) as r:
        got = list(r)
    c.check(got == rows, key, lambda: '{} rows instead of {}: {}'.format(len(got), len(rows), str(got)[-200:]))


def c06(c):
    """Lists of many items, long cells."""
    n = sizes(c)
    datatype = c.every('datatype', ['integer', 'string', 'date'])
    null = c.every('null', [None, 0, -1])
    sep = c.every('separator', [';', ' ', '::'])
    items = {'integer': list(range(n)), 'string': ['x{}'.format(i) for i in range(n)],
             'date': ['2020-01-{:02}'.format(1 + i % 28) for i in range(n)]}[datatype]
    texts = [str(i) for i in items]
    done(c, n, datatype, null, sep)
    col = Column.fromvalue({'name': 'c', 'datatype': datatype, 'separator': sep, 'null': ['NA']})
    if null is not None and n > 1:
        texts[null] = 'NA'
    got = col.read(sep.join(texts))
    key = json.dumps([n, datatype, null, sep])
    c.check(len(got) == n and [i for i, v in enumerate(got) if v is None] == ([null % n] if null is not None and n > 1 else []),
            key, lambda: '{} items'.format(len(got)))
    c.check(all(v is None or (v.strftime('%Y-%m-%d') if datatype == 'date' else v) == i for v, i in zip(got, items)), key, 'items')
    c.check(col.write(got) == sep.join(texts), key, 'written')


def c12(c):
    """Lengths and bounds of all sizes."""
    n = sizes(c, None if c.tier == 'thorough' else 2100)
    what = c.every('constraint', ['length', 'minLength', 'maxLength', 'minimum', 'maximum', 'minExclusive', 'maxExclusive'])
    base = c.every('base', ['string', 'hexBinary', 'base64Binary'] if 'ength' in what else ['integer', 'decimal', 'float'])
    delta = c.every('delta', [0, 1, -1])
    if n + delta < 0 and 'ength' in what:
        return
    done(c, n, what, base, delta)
    dt = Datatype.fromvalue({'base': base, what: n})
    m = n + delta
    if base == 'hexBinary':
        s = '0A' * m
    elif base == 'base64Binary':
        import base64
        s = base64.b64encode(b'x' * m).decode()
    else:
        s = 'x' * m if base == 'string' else str(m)
    ok = {'length': m == n, 'minLength': m >= n, 'maxLength': m <= n, 'minimum': m >= n, 'maximum': m <= n,
          'minExclusive': m > n, 'maxExclusive': m < n}[what]
    try:
        dt.read(s)
        res = True
    except ValueError:
        res = False
    c.check(res == ok, json.dumps([n, what, base, delta]), lambda: 'accepted' if res else 'rejected')


def c13(c):
    """Descriptions with many tables, columns, properties."""
    n = sizes(c, 520)
    what = c.every('what', ['tables', 'columns', 'properties', 'nulls', 'titles', 'nested', 'keys', 'notes'])
    table = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
    md = {'@context': CTX, 'tables': [table]}
    names = ['c{}'.format(i) for i in range(n)]
    if what == 'tables':
        if not n:
            return
        md['tables'] = [dict(table, url='t{}.csv'.format(i)) for i in range(n)]
    elif what == 'columns':
        table['tableSchema'] = {'columns': [{'name': s, 'datatype': {'base': 'string', 'maxLength': i}} for i, s in enumerate(names)]}
    elif what == 'properties':
        table.update({'dc:p{}'.format(i): {'@value': str(i)} for i in range(n)})
    elif what == 'nulls':
        table['null'] = names or ['']
    elif what == 'titles':
        table['tableSchema']['columns'][0]['titles'] = {'en': names} if n else 'x'
    elif what == 'nested':
        v = 'x'
        for i in range(min(n, 100)):
            v = {'dc:n': v} if i % 2 else [v, i]
        table['dc:v'] = v
    elif what == 'keys':
        if not n:
            return
        table['tableSchema'] = {'columns': [{'name': s} for s in names], 'primaryKey': names}
    elif what == 'notes':
        md['notes'] = [{'n': i} for i in range(n)] or [{'n': 0}]
    done(c, n, what)
    p = c.dir / 'md.json'
    p.write_text(json.dumps(md), encoding='utf8')
    tg = TableGroup.from_file(p)
    tg.to_file(c.dir / 'again.json')
    key = json.dumps([n, what])
    again = TableGroup.from_file(c.dir / 'again.json')
    c.check(tg.asdict() == again.asdict(), key, 'differs after reading')
    c.check(len(again.tables) == len(md['tables']) and [len(t.tableSchema.columns) for t in again.tables] == [
        len(t['tableSchema']['columns']) for t in md['tables']], key, 'number of tables or columns')
    out = json.loads((c.dir / 'again.json').read_text(encoding='utf8'))
    if what in ('tables', 'columns', 'keys'):
        got = [(t['url'], [col['name'] for col in t.get('tableSchema', {}).get('columns', [])]) for t in out['tables']]
        exp = [(t['url'], [col['name'] for col in t['tableSchema']['columns']]) for t in md['tables']]
        c.check(got == exp, key, lambda: str(got)[-300:])
    elif what == 'properties':
        c.check({k: v for k, v in out['tables'][0].items() if k.startswith('dc:')} == {
            k: v for k, v in table.items() if k.startswith('dc:')}, key, 'properties')
    elif what == 'nulls' and n:
        got = out['tables'][0]['null']
        c.check((got if isinstance(got, list) else [got]) == names, key, 'null')


def c15(c):
    """Writing tables with many rows or columns."""
    n = sizes(c)
    shape = c.every('shape', ['rows', 'columns', 'list'])
    target = c.every('target', ['default', 'zip', 'none', 'generator'])
    if shape == 'columns' and n > 1100 or n == 0 and shape == 'columns':
        return
    k = n if shape == 'columns' else 2
    columns = [{'name': 'c{}'.format(i), 'datatype': 'integer' if i % 2 == 0 else 'string'} for i in range(k)]
    if shape == 'list':
        columns[1]['separator'] = ';'
    m = n if shape == 'rows' else 2
    val = [lambda i, j: i * 7 + j, lambda i, j: text(i + j + 1)]
    rows = [{'c{}'.format(j): val[j % 2](i, j) for j in range(k)} for i in range(m)]
    if shape == 'list':
        for row in rows:
            row['c1'] = ['i{}'.format(x) for x in range(n)]
    done(c, n, shape, target)
    key = json.dumps([n, shape, target])
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'tableSchema': {'columns': columns}}))
    t = Table.from_file(p)
    if target == 'none':
        (c.dir / 't.csv').write_bytes(t.write(rows, fname=None))
    else:
        res = t.write(iter(rows) if target == 'generator' else rows, _zipped=target == 'zip')
        c.check(res == m, key, lambda: 'returned {}'.format(res))
    c.check((c.dir / 't.csv').exists() == (target != 'zip'), key, 'file')
    c.check((c.dir / 't.csv.zip').exists() == (target == 'zip'), key, 'zip')
    for got in (list(t), list(t.iterdicts())):
        c.check([dict(r) for r in got] == rows, key, lambda: '{} rows, {}'.format(len(got), str([dict(r) for r in got])[-200:]))


def c16(c):
    """Many columns in other orders."""
    n = sizes(c, 1100, 1)
    order = c.every('order', ['reversed', 'same', 'rotated', 'swapped', 'surplus', 'missing'])
    by = c.every('by', ['name', 'titles'])
    names = ['c{}'.format(i) for i in range(n)]
    heads = names if by == 'name' else ['T {}'.format(i) for i in range(n)]
    idx = list(range(n))
    idx = {'reversed': idx[::-1], 'rotated': idx[1:] + idx[:1], 'swapped': idx[:-2] + idx[-2:][::-1],
           'missing': idx[:n // 2] + idx[n // 2 + 1:]}.get(order, idx)
    done(c, n, order, by)
    header, row = [heads[i] for i in idx], ['v{}'.format(i) for i in idx]
    if order == 'surplus':
        header, row = header + ['extra'], row + ['e']
    if not header:
        return
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'tableSchema': {'columns': [
        dict({'name': s}, **({'titles': h} if by == 'titles' else {})) for s, h in zip(names, heads)]}}))
    write(c.dir / 't.csv', [header, row])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [dict(r) for r in Table.from_file(p)]
    exp = {s: 'v{}'.format(i) for i, s in enumerate(names)}
    if order == 'missing':
        exp[names[n // 2]] = None
    if order == 'surplus':
        exp['extra'] = 'e'
    c.check(got == [exp], json.dumps([n, order, by]), lambda: str(got)[-400:])


def c17(c):
    """One error, or errors in each row of many."""
    n = sizes(c, None, 1)
    kind = c.every('kind', ['value', 'required', 'all', 'none'])
    at = position(c, n) if kind in ('value', 'required') else None
    done(c, n, kind, at)
    key = json.dumps([n, kind, at])
    rows = [[str(i), 'l\nl' if i % 3 == 1 else 'y'] for i in range(n)]
    bad = list(range(n)) if kind == 'all' else [] if kind == 'none' else [at]
    for i in bad:
        rows[i][0] = '' if kind == 'required' else 'x'
    lines, no = [], 2
    for row in rows:
        no += 1 + row[1].count('\n')
        lines.append(no - 1)
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': 'integer', 'required': True}, {'name': 'b'}]}}))
    write(c.dir / 't.csv', [['a', 'b']] + rows)
    t, log = Table.from_file(p), Log()
    got = [dict(r) for r in t.iterdicts(log=log)]
    c.check(got == [{'a': i, 'b': row[1]} for i, row in enumerate(rows) if i not in set(bad)], key, lambda: '{} rows'.format(len(got)))
    c.check(len(log.messages) == len(bad) and all(
        't.csv:{}:1 a: '.format(lines[i]) in m for i, m in zip(bad, log.messages)), key,
        lambda: '{} messages: {}'.format(len(log.messages), log.messages[:1] + log.messages[-1:]))
    if n <= 1100:
        seen = []
        try:
            for row in t:
                seen.append(row)
            error = None
        except ValueError as e:
            error = str(e)
        c.check((error is None) == (not bad) and len(seen) == (bad[0] if bad else n), key, lambda: 'strict: {} {}'.format(len(seen), error))
        c.check(not bad or 't.csv:{}:1 a: '.format(lines[bad[0]]) in error, key, lambda: 'strict: {}'.format(error))


def c18(c):
    """Large data from all kinds of sources."""
    n = sizes(c)
    source = c.every('source', ['path', 'str', 'file', 'zip', 'lines', 'bytes', 'StringIO'])
    enc = c.every('encoding', ['utf-8', 'utf-16', 'latin1'])
    end = c.every('end', ['\n', '\r\n', '\r'])
    rows = [['a', 'b']] + [[str(i), text(i)] for i in range(n)]
    done(c, n, source, enc, end)
    if end == '\r' and source in ('lines', 'bytes'):
        return
    data = ''.join(','.join(cell(s) for s in row) + end for row in rows)
    raw = data.encode(enc)
    p = c.dir / 't.csv'
    key = json.dumps([n, source, enc, end])
    if source == 'zip':
        with zipfile.ZipFile(str(c.dir / 't.csv.zip'), 'w', compression=zipfile.ZIP_DEFLATED) as z:
            z.writestr('t.csv', raw)
    else:
        p.write_bytes(raw)
    if source in ('lines', 'bytes', 'StringIO'):
        f = io.StringIO(data, newline='') if source == 'StringIO' else data.splitlines(keepends=True) if source == 'lines' \
            else [line.encode(enc) for line in data.splitlines(keepends=True)]
        if source == 'bytes' and enc == 'utf-16':
            return
        got = [list(r) for r in iterrows(f, dialect=Dialect(encoding=enc))]
        c.check(got == rows, key, lambda: '{} rows, {}'.format(len(got), got[-1:]))
        return
    md = c.dir / 'md.json'
    md.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'dialect': {'encoding': enc}, 'tableSchema': {
        'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b', 'null': ['?']}]}}))
    t = Table.from_file(md)
    if source == 'file':
        with p.open(encoding=enc, newline='') as fp:
            got = list(t.iterdicts(fname=fp))
    else:
        got = list(t.iterdicts(fname={'path': p, 'str': str(p)}.get(source, p)))
    c.check([(r['a'], r['b']) for r in got] == [(int(a), b) for a, b in rows[1:]], key, lambda: '{} rows, {}'.format(len(got), got[-1:]))


def c19(c):
    """Two rows among many have the same key."""
    n = sizes(c, None, 1)
    key_ = c.every('key', [['a'], ['a', 'b'], ['l']])
    i = position(c, n, 'first')
    j = position(c, n, 'second')
    if i > j:
        return
    rows = [[str(x), str(x % 2), '{} {}'.format(x, x + 1)] for x in range(n)]
    if i < j:
        for k in range(3):
            if ['a', 'b', 'l'][k] in key_:
                rows[j][k] = rows[i][k]
    done(c, n, json.dumps(key_), i, j)
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'tableSchema': {'primaryKey': key_, 'columns': [
        {'name': 'a', 'datatype': 'integer'}, {'name': 'b'}, {'name': 'l', 'separator': ' '}]}}))
    write(c.dir / 't.csv', [['a', 'b', 'l']] + rows)
    log = Log()
    ok = Table.from_file(p).check_primary_key(log=log)
    c.check(bool(ok) == (i == j) and len(log.messages) == (i != j), json.dumps([n, key_, i, j]), lambda: '{} {}'.format(ok, log.messages))
    c.check(i == j or ':{} '.format(j + 2) in log.messages[0], json.dumps([n, key_, i, j]), lambda: str(log.messages))


def c20(c):
    """One dangling reference among many rows, items or tables."""
    n = sizes(c, None, 1)
    what = c.every('what', ['rows', 'parents', 'items', 'composite'])
    at = position(c, n)
    dangling = c.every('dangling', [False, True])
    done(c, n, what, at, dangling)
    comp = what == 'composite'
    fk = ['r', 's'] if comp else ['r']
    child = {'name': 'r', 'separator': ' '} if what == 'items' else {'name': 'r'}
    if what == 'parents':
        parents, refs = [str(i) for i in range(n)], [str(at)]
        if dangling:
            del parents[at]
    else:
        parents = [str(i) for i in range(5)]
        refs = [str(i % 5) for i in range(n)]
        if dangling:
            refs[at] = 'x'
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'tables': [
        {'url': 'p.csv', 'tableSchema': {'primaryKey': ['k', 'l'] if comp else 'k', 'columns': [{'name': 'k'}, {'name': 'l'}]}},
        {'url': 'c.csv', 'tableSchema': {'columns': [{'name': 'i'}, child, {'name': 's'}], 'foreignKeys': [{
            'columnReference': fk, 'reference': {'resource': 'p.csv', 'columnReference': ['k', 'l'][:len(fk)]}}]}}]}))
    write(c.dir / 'p.csv', [['k', 'l']] + [[s, 'm'] for s in parents])
    write(c.dir / 'c.csv', [['i', 'r', 's']] + (
        [['0', ' '.join(refs), 'm']] if what == 'items' else [[str(i), s, 'm'] for i, s in enumerate(refs)]))
    tg, log = TableGroup.from_file(p), Log()
    ok = tg.check_referential_integrity(log=log)
    c.check(bool(ok) == (not dangling) and len(log.messages) == dangling, json.dumps([n, what, at, dangling]),
            lambda: '{} {}'.format(ok, log.messages))


def c21(c):
    """Many rows, items of lists and columns in the database."""
    what = c.every('what', ['rows', 'items', 'references', 'columns', 'tables', 'twice'])
    n = sizes(c, {'columns': 1001, 'tables': 65, 'twice': 1025}.get(what))
    done(c, n, what)
    key = json.dumps([n, what])
    columns = [{'name': 'id', 'datatype': 'integer'}, {'name': 'v'}, {'name': 'l', 'separator': ';'}, {'name': 'r', 'separator': ' '}]
    rows = [{'id': i, 'v': text(i), 'l': ['a', 'b{}'.format(i)], 'r': ['p1']} for i in range(n)]
    parents = [{'k': 'p1'}]
    if what == 'items':
        rows = [{'id': 0, 'v': 'x', 'l': ['i{}'.format(i) for i in range(n)], 'r': []}]
    elif what == 'references':
        parents = [{'k': 'p{}'.format(i)} for i in range(max(n, 1))]
        rows = [{'id': 0, 'v': 'x', 'l': [], 'r': ['p{}'.format(i) for i in range(n)]}]
    elif what == 'columns':
        columns += [{'name': 'c{}'.format(i)} for i in range(n)]
        rows = [dict({'id': i, 'v': 'x', 'l': [], 'r': []}, **{'c{}'.format(k): str(k) for k in range(n)}) for i in range(2)]
    tables = [
        {'url': 't.csv', 'tableSchema': {'primaryKey': 'id', 'columns': columns, 'foreignKeys': [
            {'columnReference': 'r', 'reference': {'resource': 'p.csv', 'columnReference': 'k'}}]}},
        {'url': 'p.csv', 'tableSchema': {'primaryKey': 'k', 'columns': [{'name': 'k'}]}}]
    if what == 'tables':
        rows = []
        # A chain of references, with the last table first.
        tables = [{'url': '{}.csv'.format(i), 'tableSchema': {'primaryKey': 'k', 'columns': [{'name': 'k'}, {'name': 'to'}], 'foreignKeys': [
            {'columnReference': 'to', 'reference': {'resource': '{}.csv'.format(i + 1), 'columnReference': 'k'}}] if i < n - 1 else []}}
            for i in range(n)] + tables
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'tables': tables}))
    db = Database(TableGroup.from_file(p), fname=c.dir / 'db.sqlite')
    data = {'t.csv': rows, 'p.csv': parents}
    if what == 'tables':
        data.update({'{}.csv'.format(i): [{'k': 'x', 'to': 'x' if i < n - 1 else None}] for i in range(n)})
    if what == 'twice':
        db.write(**dict(data, **{'t.csv': rows[:1]}))
        db.write(_force=True, **data) if False else db.write(force=True, **data)
    else:
        db.write(**data)
    res = db.read()
    for name, exp in data.items():
        got = [dict(r) for r in res.get(name, [])]
        c.check(len(got) == len(exp), key, lambda: '{} rows of {} instead of {}'.format(len(got), name, len(exp)))
        c.check(got == exp, key, lambda: '{}: {}'.format(name, str(got)[-300:]))


def c24(c):
    """The JSON for many rows, columns or values."""
    n = sizes(c)
    shape = c.every('shape', ['rows', 'columns', 'items', 'plain'])
    minimal = c.every('minimal', [False, True])
    if shape == 'columns' and n > 1100:
        return
    done(c, n, shape, minimal)
    key = json.dumps([n, shape, minimal])
    k = n if shape == 'columns' else 1
    header = ['id'] + ['c{}'.format(i) for i in range(k)]
    m = n if shape in ('rows', 'plain') else 2
    rows = [[str(i)] + ['v{}'.format(i + j) for j in range(k)] for i in range(m)]
    columns = [{'name': s, 'datatype': 'integer'} if s == 'id' else {'name': s} for s in header]
    if shape == 'items':
        columns[1]['separator'] = ' '
        for row in rows:
            row[1] = ' '.join('i{}'.format(x) for x in range(n))
    write(c.dir / 't.csv', [header] + rows)
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'url': 't.csv', 'tableSchema': {'columns': columns}}))
    out = json.loads(json.dumps(CSVW(str(c.dir / 't.csv') if shape == 'plain' else str(p)).to_json(minimal=minimal)))
    objs = []
    for row in rows:
        o = {'id': row[0] if shape == 'plain' else int(row[0])}
        o.update({h: v for h, v in zip(header[1:], row[1:])})
        if shape == 'items':
            o['c0'] = row[1].split()
            if len(o['c0']) == 0:
                del o['c0']
        objs.append(o)
    if not minimal:
        got = out['tables'][0].get('row', [])
        c.check([r['rownum'] for r in got] == list(range(1, m + 1)), key, 'rownum')
        c.check([r['url'].split('#')[1] for r in got] == ['row={}'.format(i + 2) for i in range(m)], key, 'row urls')
        got = [r['describes'][0] for r in got]
    else:
        got = out
    if shape == 'items':
        for o in objs + got:  # A list of one value may be simplified.
            if isinstance(o.get('c0'), list) and len(o['c0']) == 1:
                o['c0'] = o['c0'][0]
            if not o.get('c0'):
                o.pop('c0', None)
    c.check(got == objs, key, lambda: '{} objects, {}'.format(len(got), str(got)[-200:]))


def c25(c):
    """One defect in large datasets."""
    n = sizes(c, None if c.tier == 'thorough' else 1100, 1)
    kind = c.every('kind', ['value', 'key', 'reference', 'column', 'table', 'title'])
    at = position(c, n)
    defect = c.every('defect', [False, True])
    if kind in ('column', 'table', 'title') and n > 130 or kind == 'key' and at == 0 and defect and n == 1:
        return
    done(c, n, kind, at, defect)
    k = n if kind in ('column', 'title') else 1
    header = ['id'] + ['c{}'.format(i) for i in range(k)]
    rows = [[str(i), 'x', 'p'] for i in range(n if kind in ('value', 'key', 'reference') else 2)]
    rows = [[r[0]] + ['x'] * k + [r[2]] for r in rows]
    if defect and kind == 'value':
        rows[at][0] = 'x'
    elif defect and kind == 'key':
        rows[at][0] = rows[0 if at else n - 1][0]
    elif defect and kind == 'reference':
        rows[at][-1] = 'q'
    elif defect and kind == 'column':
        rows[1][1 + at] = 'xx'
    columns = [{'name': s, 'datatype': 'integer'} if s == 'id' else {'name': s, 'datatype': {'base': 'string', 'maxLength': 1}}
               for s in header] + [{'name': 'r'}]
    if kind == 'title' and defect:
        columns[1 + at] = {'name': 'other'}
    tables = [
        {'url': 't.csv', 'tableSchema': {'primaryKey': 'id', 'columns': columns, 'foreignKeys': [
            {'columnReference': 'r', 'reference': {'resource': 'p.csv', 'columnReference': 'k'}}]}},
        {'url': 'p.csv', 'tableSchema': {'columns': [{'name': 'k'}], 'primaryKey': 'k'}}]
    if kind == 'table':
        tables += [{'url': 'x{}.csv'.format(i), 'tableSchema': {'columns': [{'name': 'n', 'datatype': 'integer'}]}} for i in range(n)]
        for i in range(n):
            write(c.dir / 'x{}.csv'.format(i), [['n'], ['x' if defect and i == at else '1']])
    write(c.dir / 't.csv', [header + ['r']] + rows)
    write(c.dir / 'p.csv', [['k'], ['p']])
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'tables': tables}))
    valid = CSVW(str(p), validate=True).is_valid
    c.check(bool(valid) == (not defect), json.dumps([n, kind, at, defect]), lambda: 'valid: {}'.format(valid))


def c28(c):
    """Packages with many fields, resources and rows."""
    n = sizes(c, 1100)
    what = c.every('what', ['rows', 'fields', 'resources', 'enum'])
    if what in ('fields', 'resources') and (n > 260 or n == 0):
        return
    done(c, n, what)
    fields = [{'name': 'f{}'.format(i), 'type': 'integer' if i % 2 else 'string'} for i in range(n if what == 'fields' else 2)]
    rows = [[str(i + j) for j in range(len(fields))] for i in range(n if what == 'rows' else 2)]
    names = ['r{}'.format(i) for i in range(n if what == 'resources' else 1)]
    if what == 'enum':
        fields[0]['constraints'] = {'enum': [str(i) for i in range(n + 1)]}
    for s in names:
        write(c.dir / (s + '.csv'), [[f['name'] for f in fields]] + rows)
    p = c.dir / 'datapackage.json'
    p.write_text(json.dumps({'name': 'p', 'resources': [{
        'name': s, 'path': s + '.csv', 'scheme': 'file', 'format': 'csv', 'profile': 'tabular-data-resource',
        'schema': {'fields': fields}} for s in names]}))
    tg = DataPackage(p).to_tablegroup()
    key = json.dumps([n, what])
    c.check([str(t.url) for t in tg.tables] == [s + '.csv' for s in names], key, 'tables')
    for t in tg.tables:
        got = [list(r.values()) for r in t]
        c.check(got == [[int(v) if i % 2 else v for i, v in enumerate(row)] for row in rows], key, lambda: str(got)[-300:])


def c30(c):
    """Copies of datasets with many tables or rows."""
    n = sizes(c, None if c.tier == 'thorough' else 2100, 1)
    what = c.every('what', ['rows', 'tables'])
    how = c.every('how', ['copy', 'write', 'zipped'])
    if what == 'tables' and n > 130:
        return
    done(c, n, what, how)
    names = ['t{}.csv'.format(i) for i in range(n if what == 'tables' else 1)]
    rows = [{'a': i, 'b': text(i)} for i in range(n if what == 'rows' else 2)]
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'tables': [{'url': s, 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': 'integer'}, {'name': 'b'}]}} for s in names]}))
    for s in names:
        write(c.dir / s, [['a', 'b']] + [[str(r['a']), r['b']] for r in rows])
    tg = TableGroup.from_file(p)
    new = c.dir / 'new'
    key = json.dumps([n, what, how])
    if how == 'copy':
        tg.copy(new)
    else:
        tg.write(new / 'md.json', _zipped=how == 'zipped', **tg.read())
    files = sorted(q.name for q in new.iterdir())
    c.check(files == sorted(['md.json'] + [s + '.zip' * (how == 'zipped') for s in names]), key, lambda: str(files)[-300:])
    again = TableGroup.from_file(new / 'md.json').read()
    c.check({k: [dict(r) for r in v] for k, v in again.items()} == {s: rows for s in names}, key, 'rows')


def c31(c):
    """Every one of many tables, columns and properties is documented."""
    n = sizes(c, 520, 1)
    what = c.every('what', ['columns', 'tables', 'properties', 'references'])
    done(c, n, what)
    names = ['name{}x'.format(i) for i in range(n)]
    cols = [{'name': s, 'datatype': 'integer'} for s in (names if what in ('columns', 'references') else ['a'])]
    tables = [{'url': 't.csv', 'tableSchema': {'columns': cols}}]
    if what == 'tables':
        tables = [{'url': s + '.csv', 'tableSchema': {'columns': cols}} for s in names]
    elif what == 'properties':
        tables[0].update({'dc:' + s: 'value' + s for s in names})
    elif what == 'references':
        tables[0]['tableSchema']['foreignKeys'] = [
            {'columnReference': s, 'reference': {'resource': 'p.csv', 'columnReference': 'k'}} for s in names]
        tables.append({'url': 'p.csv', 'tableSchema': {'primaryKey': 'k', 'columns': [{'name': 'k', 'datatype': 'integer'}]}})
    p = c.dir / 'md.json'
    p.write_text(json.dumps({'@context': CTX, 'tables': tables}))
    md = metadata2markdown(TableGroup.from_file(p))
    lines = collections.Counter()
    for line in md.split('\n'):
        for s in ['Table '] if line.startswith('## ') else ['`'] if line.startswith('`') else []:
            lines[line.split(s)[1].split('`')[0]] += 1
    key = json.dumps([n, what])
    if what in ('columns', 'references'):
        c.check([lines[s] for s in names] == [1] * n, key, 'columns')
        c.check(what == 'columns' or md.count('References [p.csv::k]') == n, key, 'references')
    elif what == 'tables':
        c.check([lines[s + '.csv'] for s in names] == [1] * n and lines['a'] == n, key, 'tables')
    else:
        c.check(all('value' + s in md for s in names), key, 'properties')
