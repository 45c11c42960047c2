import json
import codecs
import decimal
import datetime
import pathlib

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup, Table

ASSUMPTIONS = [
    'columns have distinct headers; values are of the type of the column; values equal to a null '
    'marker or the empty string in a column with default are read as the parsing rules (C06) say',
    'out of the domain, as the dialect cannot represent them: first cells starting with the comment '
    'prefix, blank rows if these are skipped, characters not in the encoding, special characters '
    'without quote character, leading spaces with skipInitialSpace; skipRows and skipColumns, which '
    'describe files with additional content; dict keys naming virtual columns in strict mode; lists '
    'shorter than the columns',
]
D = decimal.Decimal
DIALECTS = [
    {}, {'delimiter': '\t'}, {'delimiter': ';'}, {'quoteChar': "'"}, {'quoteChar': None},
    {'doubleQuote': False}, {'lineTerminators': ['\n']}, {'lineTerminators': '\r\n'},
    {'header': False}, {'headerRowCount': 0}, {'encoding': 'utf-16'}, {'encoding': 'latin1'},
    {'encoding': 'UTF-8-BOM'}, {'encoding': 'UTF-8'}, {'trim': True}, {'trim': 'start'},
    {'trim': 'end'}, {'commentPrefix': '#'}, {'skipBlankRows': True}, {'skipInitialSpace': True},
    {'delimiter': ' '}, {'delimiter': '\u00e4'}, {'delimiter': '\t', 'quoteChar': None},
    {'doubleQuote': False, 'header': False, 'delimiter': '|', 'encoding': 'utf-16-le'},
]
STRINGS = ['a', None, '', 'NA', ' a ', 'a;b', 'a"b', "it's", 'a,b', '\u00e4', 'x\ny', 'x\r\ny', '#c',
           '5', '\\', 'a\\"b', '\u20ac', '\t', '\u2028', '-']
TYPES = {
    'string': STRINGS,
    'integer': [1, None, -5, 0, 10 ** 20],
    'decimal': [D('1.5'), None, D('0'), D('-1000.25'), D('1000')],
    'boolean': [True, None, False],
    'date': [datetime.datetime(2020, 1, 2), None, datetime.datetime(999, 12, 31)],
    'list': [['a'], None, [], ['a', 'b'], [None, 'a'], ['a', None], ['', 'a'], ['a b', ' c'],
             ['NA', 'a']],
    'intlist': [[1], None, [], [1, -2], [None, 3], [0]],
}
DATATYPE = {
    'string': [None, 'string', {'base': 'string', 'maxLength': 100}],
    'integer': ['integer', 'int'][:1],
    'decimal': ['decimal', {'base': 'decimal', 'format': '#,##0.0#'},
                {'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}}],
    'boolean': ['boolean', {'base': 'boolean', 'format': 'Y|N'}, {'base': 'boolean', 'format': '1|0'}],
    'date': ['date', {'base': 'date', 'format': 'dd.MM.yyyy'}],
    'list': [None], 'intlist': ['integer'],
}
NAMES = [lambda n: {'name': n}, lambda n: {'titles': n.upper()},
         lambda n: {'name': n, 'titles': 'T ' + n}, lambda n: {'titles': [n + ' 1', n + ' 2']},
         lambda n: {'titles': {'en': n, 'de': n + n}}, lambda n: {}]


class Col:
    def __init__(self, c, n, i):
        self.type = c.choose('type' + n, ['string', 'integer', 'list', 'decimal', 'boolean', 'date',
                                          'intlist'])
        self.spec = dict(c.choose('name' + n, NAMES)(n))
        self.datatype = c.choose('datatype' + n, DATATYPE[self.type])
        if self.datatype:
            self.spec['datatype'] = self.datatype
        self.null = c.choose('null' + n, [[''], ['NA'], ['NA', ''], ['-', 'NA']])
        if self.null != ['']:
            self.spec['null'] = self.null
        self.sep = None
        if self.type.endswith('list'):
            self.sep = c.choose('sep' + n, [';', ' ', ',', '||'])
            self.spec['separator'] = self.sep
        self.default = c.choose('default' + n, [None, 'x']) if self.type == 'string' else None
        if self.default:
            self.spec['default'] = self.default
        self.header = self.spec.get('name') or self.title() or '_col.{}'.format(i)

    def title(self):
        t = self.spec.get('titles')
        if isinstance(t, dict):  # no title in the (undefined) default language
            return None
        return t[0] if isinstance(t, list) else t

    # -- what the written text is, and how it is read
    def atom(self, v):
        if v is None:
            return self.null[0]
        if isinstance(v, bool):
            fmt = (self.datatype or {})
            t, f = fmt['format'].split('|') if isinstance(fmt, dict) else ('true', 'false')
            return t if v else f
        if isinstance(v, datetime.date):
            if isinstance(self.datatype, dict):
                return '{:02}.{:02}.{:04}'.format(v.day, v.month, v.year)
            return '{:04}-{:02}-{:02}'.format(v.year, v.month, v.day)
        if isinstance(v, D):
            if isinstance(self.datatype, dict):
                fmt = self.datatype['format']
                if isinstance(fmt, dict):
                    return str(v).replace('.', ',')
                s = '{:,}'.format(v)
                return s if '.' in s else s + '.0'
            return str(v)
        return str(v)

    def text(self, v):
        if self.sep:
            return self.sep.join(self.atom(x) for x in v or [])
        return self.atom(v)

    def parse(self, s):
        if self.type in ('string', 'list'):
            return s
        if self.type in ('integer', 'intlist'):
            return int(s)
        if self.type == 'boolean':
            return s in ('true', 'Y', '1')
        if self.type == 'decimal':
            if isinstance(self.datatype, dict):
                s = s.replace('.', '').replace(',', '.') if isinstance(
                    self.datatype['format'], dict) else s.replace(',', '')
            return D(s)
        p = [int(x) for x in s.replace('.', '-').split('-')]
        return datetime.datetime(*(reversed(p) if isinstance(self.datatype, dict) else p))

    def read(self, s):
        s = s or self.default or ''
        if self.sep:
            if not s:
                return []
            if s in self.null:
                return None
            return [None if (x or self.default or '') in self.null else self.parse(x or '')
                    for x in s.split(self.sep)]
        return None if s in self.null else self.parse(s)


TRIM = {True: str.strip, 'start': str.lstrip, 'end': str.rstrip}


def same(a, b):
    """Types matter: 1 is neither True nor 1.0."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def rows_same(got, exp):
    return len(got) == len(exp) and all(
        list(g) == list(e) and all(same(g[k], e[k]) for k in e) for g, e in zip(got, exp))


def roundtrip(c):
    """Schemas x dialects x rows x ways to write."""
    n = c.choose('columns', [2, 1, 3])
    cols = [Col(c, 'abc'[i], i + 1) for i in range(n)]
    if len({col.header for col in cols}) < n:
        return
    virtual = c.flag('virtual')
    dialect = c.choose('dialect', DIALECTS)
    where = c.choose('dialect of', ['group', 'table', 'both']) if dialect else None
    kind = c.choose('description', ['group', 'table', 'second'])
    url = c.choose('url', ['t.csv', 'sub/t.csv', 'a b.csv'])
    target = c.choose('target', ['default', 'name', 'path', 'base', 'none', 'zip', 'basezip'])
    form = c.choose('rows as', ['dict', 'list', 'tuple', 'mixed', 'generator', 'reversed dict'])
    strict = c.flag('strict')
    nrows = c.choose('rows', [2, 1, 0, 3])

    rows, items, unknown = [], [], False
    for i in range(nrows):
        row = [c.choose('cell{}{}'.format(i, col.header), TYPES[col.type]) for col in cols]
        f = {'mixed': ['dict', 'list', 'tuple'][i % 3], 'generator': 'dict'}.get(form, form)
        if f in ('list', 'tuple'):
            item = (list if f == 'list' else tuple)(row)
        else:
            item = {col.header: v for col, v in zip(cols, row)}
            if f == 'reversed dict':
                item = dict(reversed(list(item.items())))
            change = c.choose('keys{}'.format(i), ['all', 'unknown', 'missing', 'none'])
            if change == 'unknown':
                item['zz'] = 'z'
                unknown = True
            elif change == 'missing':
                del item[cols[-1].header]
                row = row[:-1] + [None]
            elif change == 'none':
                item, row = {}, [None] * n
        rows.append(row)
        items.append(item)

    # The model:
    texts = [[col.text(v) for col, v in zip(cols, row)] for row in rows]
    prefix = dialect.get('commentPrefix')
    header = dialect.get('header', True) and dialect.get('headerRowCount', 1) > 0
    special = [dialect.get('delimiter', ','), '\r', '\n', '"']
    lines = ([[col.header for col in cols]] if header else []) + texts
    enc = {'UTF-8-BOM': 'utf-8-sig'}.get(dialect.get('encoding'), dialect.get('encoding', 'utf-8'))
    for line in lines:
        if prefix and line[0].startswith(prefix):
            return
        if dialect.get('quoteChar', '"') is None and (
                line == [''] or any(ch in s for s in line for ch in special[:3])):
            return
        if dialect.get('skipBlankRows') and set(line) == {''}:
            return
        if dialect.get('skipInitialSpace') and any(s.startswith(' ') for s in line):
            return
        if dialect.get('delimiter') == ' ' and dialect.get('skipInitialSpace'):
            return
        try:
            ''.join(line).encode(enc)
        except UnicodeEncodeError:
            return
    trim = TRIM.get(dialect.get('trim'), lambda s: s)
    if header and any(trim(h) != h for h in lines[0]):
        return
    exp = []
    for line in texts:
        try:
            d = {col.header: col.read(trim(s)) for col, s in zip(cols, line)}
        except ValueError:  # e.g. an integer column, with '-' written for null
            return
        if virtual:
            d['v'] = 'http://example.org/x'
        exp.append(d)

    md = {'tableSchema': {'columns': [col.spec for col in cols]}, 'url': url}
    if virtual:
        md['tableSchema']['columns'].append(
            {'name': 'v', 'virtual': True, 'valueUrl': 'http://example.org/x'})
    if dialect and where in ('table', 'both') or kind == 'table' and dialect:
        md['dialect'] = dialect
    if kind != 'table':
        md = {'tables': [md] if kind == 'group' else [{'url': 'other.csv'}, md]}
        if dialect and where == 'group':
            md['dialect'] = dialect
        elif dialect and where == 'both':  # the one of the table wins
            md['dialect'] = {'delimiter': ':', 'header': not header}
    md['@context'] = 'http://www.w3.org/ns/csvw'
    c.describe((md, items, target, strict))
    c.state(md, rows, target, form, strict)
    key = json.dumps([md, [repr(i) for i in items], target, form, strict])
    (c.dir / 'sub').mkdir()
    p = c.dir / 'md.json'
    p.write_text(json.dumps(md), encoding='utf8')
    t = Table.from_file(p) if kind == 'table' else TableGroup.from_file(p).tables[-1]
    kw, path = {}, c.dir / url
    if target in ('name', 'path', 'base', 'basezip'):
        (c.dir / 'out').mkdir()
        (c.dir / 'out' / 'sub').mkdir()
        path = c.dir / 'out' / url
        if target.startswith('base'):
            kw['base'] = str(c.dir / 'out') if target == 'base' else c.dir / 'out'
        else:
            kw['fname'] = str(path) if target == 'name' else path
    elif target == 'none':
        kw['fname'] = None
    if target.endswith('zip'):
        kw['_zipped'] = True
    arg = iter(items) if form == 'generator' else items
    try:
        res = t.write(arg, strict=strict, **kw) if strict else t.write(arg, **kw)
    except ValueError as e:
        c.check(strict and unknown and "'zz'" in str(e), key, lambda: repr(e))
        c.outcome('strict')
        return
    c.check(not (strict and unknown), key, 'unknown key accepted in strict mode')
    if target == 'none':
        content = res
        c.check(isinstance(content, bytes), key, lambda: repr(content))
        again = t.write(items, fname=c.dir / url)
        c.check(again == nrows and not isinstance(again, bool), key, lambda: again)
        c.check(codecs.decode((c.dir / url).read_bytes(), enc).encode('utf-8') == content, key,
                lambda: 'returned {} but wrote {}'.format(content, (c.dir / url).read_bytes()))
    else:
        c.check(res == nrows, key, lambda: 'returned {}'.format(res))
        c.check(path.exists() != target.endswith('zip'), key, 'file')
        c.check((path.parent / (path.name + '.zip')).exists() == target.endswith('zip'), key, 'zip')
    got = list(t.iterdicts(fname=path))
    c.check(rows_same(got, exp), key, lambda: 'got {}, expected {}'.format(
        [dict(r) for r in got], exp))
    if path == c.dir / url:
        got = list(t)
        c.check(rows_same(got, exp), key, lambda: 'iterating yields {}'.format(got))
    for row, e in zip(rows, exp):
        for col, v in zip(cols, row):
            # In the cases where the text says all, the values must survive.
            if v is not None and not isinstance(v, (str, list)):
                assert same(e[col.header], v), (e, v)
    # What has been read can be written again, without change:
    before = None if target.endswith('zip') else path.read_bytes()
    if before is not None and not dialect.get('trim') and not virtual and all(
            same(e[col.header], v) for row, e in zip(rows, exp) for col, v in zip(cols, row)):
        t.write(got, fname=path, strict=True)
        c.check(path.read_bytes() == before, key, 'writing what was read changes the file')
    c.outcome(exp, res)


def history(c):
    """Repeated writes to different targets: the last one counts."""
    md = {'tables': [{'url': 't.csv', 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': 'integer'}, {'name': 'b'}]}}, {
            'url': 'xt.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}]}
    p = c.dir / 'md.json'
    p.write_text(json.dumps(md), encoding='utf8')
    tg = TableGroup.from_file(p)
    t = tg.tables[0]
    current = None
    hist = []
    for i in range(c.every('length', [1, 2, 3] if c.tier == 'quick' else [1, 2, 3, 4])):
        how = c.every('how{}'.format(i), ['plain', 'zip', 'none', 'other', 'strict error'])
        data = c.every('data{}'.format(i), [
            [], [(i, 'x')], [(i, 'a long line of data' * 3), (i + 1, None)]])
        hist.append((how, len(data)))
        items = [{'a': a, 'b': b} for a, b in data]
        if how == 'plain':
            c.check(t.write(items) == len(items), str(hist))
            current = items
        elif how == 'zip':
            c.check(t.write(items, _zipped=True) == len(items), str(hist))
            c.check(not (c.dir / 't.csv').exists(), str(hist), 'unzipped file stays')
            current = items
        elif how == 'none':
            t.write(items, fname=None)
        elif how == 'other':
            tg.tables[1].write([['x']] * len(items), _zipped=bool(len(items) % 2))
        else:
            out = c.dir / 'x.csv'
            try:
                t.write([{'q': 1}] + items, fname=out, strict=True)
                c.fail(str(hist), 'no error')
            except ValueError:
                pass
        c.state(current, sorted(x.name for x in c.dir.iterdir()))
        c.tick()
        if current is None:
            c.check(not (c.dir / 't.csv').exists(), str(hist))
            continue
        got = [dict(r) for r in t]
        c.check(got == current, str(hist), lambda: 'got {}, expected {}'.format(got, current))
        c.outcome(got)


HARNESSES = [
    Harness('roundtrip', roundtrip, 2, 4),
    Harness('history', history, None),
    Harness('sizes', sizes.c15, None),
]
