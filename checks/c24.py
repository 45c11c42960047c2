import io
import json
import types
import warnings
import contextlib
import collections
from urllib.parse import urljoin, quote

import requests_mock

from mc.explore import Harness
from checks import sizes

from csvw import CSVW
from csvw.__main__ import csvw2json

ASSUMPTIONS = [
    'HTTP is answered by a stand-in for the transport adapter of requests (requests_mock)',
    'tables have a description of all columns with distinct names, or there is no metadata at all',
    'columns with the same property (and subject) are either all lists or none is; values of '
    'columns which are variables of templates are strings or integers',
    'if there is just one top-level object, cells without subject may be merged into it (as a unit '
    'test demands)',
]
URL = 'http://example.org/d/'


def norm(v):
    """Numbers: 1 != True; as parsed from JSON."""
    return json.dumps(v, sort_keys=True)


class World:
    """Writes metadata and data, and converts."""

    def __init__(self, c, where):
        self.c, self.where = c, where
        self.base = URL if where != 'local' else str(c.dir) + '/'

    def resolve(self, s, table):
        if self.where != 'local' or s.startswith('http'):
            return urljoin(self.base + table, s)
        return self.base + (table if s.startswith('#') else '') + s

    def convert(self, md, files, how='to_json', minimal=False):
        with requests_mock.Mocker() as m, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if self.where == 'local':
                for n, text in files.items():
                    self.c.dir.joinpath(n).write_text(text, encoding='utf8', newline='')
                mdfile = str(self.c.dir / 'md.json')
                if md:
                    self.c.dir.joinpath('md.json').write_text(json.dumps(md), encoding='utf8')
            else:
                m.head(requests_mock.ANY, status_code=200)
                m.get(requests_mock.ANY, status_code=404)
                for n, text in files.items():
                    m.get(URL + n, text=text)
                mdfile = URL + 'md.json'
                m.get(mdfile, text=json.dumps(md) if md else '', status_code=200 if md else 404)
            data = self.base + list(files)[0]
            if how == 'cli':
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    csvw2json(types.SimpleNamespace(url=mdfile if md else data), test=True)
                return json.loads(out.getvalue())
            if not md:
                obj = CSVW(data)
            elif how == 'overriding':
                obj = CSVW(data, md_url=mdfile)
            else:
                obj = CSVW(mdfile)
            res = obj.to_json(minimal=minimal)
            if how == 'twice':
                res = obj.to_json(minimal=minimal)
            return json.loads(json.dumps(res))


def q(s):
    return '' if s is None else quote(str(s), safe='-._~')


TEMPLATES = {
    '#{a}': lambda r, n, name: '#' + q(r['a']),
    '#row-{_row}': lambda r, n, name: '#row-{}'.format(n),
    'http://x.org/{a}/{b}': lambda r, n, name: 'http://x.org/{}/{}'.format(q(r['a']), q(r['b'])),
    'x{_name}': lambda r, n, name: 'x' + q(name),
    'schema:Thing': lambda r, n, name: 'http://schema.org/Thing',
    'schema:{_name}': lambda r, n, name: 'http://schema.org/' + q(name),
    'http://schema.org/{_name}': lambda r, n, name: 'http://schema.org/' + q(name),
    'http://x.org/p': lambda r, n, name: 'http://x.org/p',
    'rdf:type': lambda r, n, name: 'http://www.w3.org/1999/02/22-rdf-syntax-ns#type',
    'http://x.org/{+a}{?b}': lambda r, n, name: 'http://x.org/{}{}'.format(
        quote(r['a'], safe="-._~:/?#[]@!$&'()*+,;=") if r['a'] is not None else '', '' if r['b'] is None else '?b=' + q(r['b'])),
    'http://x.org{#_row}': lambda r, n, name: 'http://x.org#{}'.format(n),
}
COMPACT = {'http://schema.org/': 'schema:', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#': 'rdf:'}


def compact(url):
    for k, v in COMPACT.items():
        if url.startswith(k):
            return v + url[len(k):]
    return url


COMMON = [
    {}, {'dc:title': 'T'}, {'dc:creator': {'@id': 'http://x.org/me'}}, {'schema:x': ['p', 'q']},
    {'dc:title': {'@value': 'T', '@language': 'en'}}, {'schema:x': {'schema:y': 1, 'schema:z': {'@value': 'z'}}},
    {'dc:a': 1, 'dc:b': None, 'dc:c': True},
]
COMMON_JSON = [
    {}, {'dc:title': 'T'}, {'dc:creator': 'http://x.org/me'}, {'schema:x': ['p', 'q']},
    {'dc:title': 'T'}, {'schema:x': {'schema:y': 1, 'schema:z': 'z'}}, {'dc:a': 1, 'dc:b': None, 'dc:c': True},
]
ROWS = [
    ['x', '5', 'u;v'], ['', '', ''], ['y z', '0', 'w'], ['\u00e4', '-7', ';'], ['x', 'nope', 'v;u;v'],
    ['"q"', '10', 'NA'], ['true', '5', 'a;;b'],
]


def cells(row, cols, null):
    """Values of the cells (a string, an integer, a list of strings)."""
    res = collections.OrderedDict()
    for name, s in zip(cols, row):
        if name == 'c':
            v = None if s in null and s != '' else (
                [None if x in null else x for x in s.split(';')] if s else [])
        elif s in null:
            v = None
        elif name == 'b':
            v = int(s) if s.lstrip('-').isdigit() else s
        else:
            v = s
        res[name] = v
    return res


def conversion(c):
    """The parts of the conversion, one table of three columns (plus virtual ones)."""
    where = c.choose('where', ['local', 'http'])
    w = World(c, where)
    how = c.choose('how', ['to_json', 'cli', 'overriding', 'twice'])
    minimal = how != 'cli' and c.choose('minimal', [False, True])
    ntables = c.choose('tables', [1, 'group of 1', 2])
    null = c.choose('null', [[''], ['NA'], ['NA', '']])
    cols = [{'name': 'a'}, {'name': 'b', 'datatype': 'integer'}, {'name': 'c', 'separator': ';'}]
    table = {'url': 't.csv', 'tableSchema': {'columns': cols}}
    schema = table['tableSchema']
    if null != ['']:
        table['null'] = null
    templates = list(TEMPLATES)
    abouts = [None] + templates[:4]
    props = [None, 'schema:Thing', 'schema:{_name}', 'http://schema.org/{_name}', 'http://x.org/p', 'rdf:type',
             'x{_name}', '#{a}', '#row-{_row}']
    values = [None] + templates[:5] + templates[9:]
    inherited = {}
    for prop, opts in [('aboutUrl', abouts), ('propertyUrl', props), ('valueUrl', values)]:
        v = c.choose(prop, opts)
        if v:
            inherited[prop] = v
    level = c.choose('level', ['schema', 'table', 'group']) if inherited else 'schema'
    if level == 'group' and ntables == 1:
        return
    for i, col in enumerate(cols):
        for prop, opts in [('propertyUrl', props), ('valueUrl', values)]:
            v = c.choose('{} of {}'.format(prop, 'abc'[i]), opts)
            if v:
                col[prop] = v
        if c.choose('suppress ' + 'abc'[i], [False, True]):
            col['suppressOutput'] = True
    virtual = c.choose('virtual', [0, 1, 2])
    for i in range(virtual):
        col = {'name': 'v{}'.format(i), 'virtual': True}
        kind = c.choose('virtual{}'.format(i), ['valueUrl', 'default', 'typed default', 'nothing', 'list'])
        if kind == 'valueUrl':
            col['valueUrl'] = c.choose('virtual value', [x for x in values if x])
        elif kind != 'nothing':
            col['default'] = '7'
            if kind == 'typed default':
                col['datatype'] = 'integer'
            elif kind == 'list':
                col['separator'] = ' '
        p = c.choose('virtual property', props)
        if p:
            col['propertyUrl'] = p
        if c.flag('suppress virtual'):
            col['suppressOutput'] = True
        cols.append(col)
    titles = c.choose('rowTitles', [None, ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['c']])
    if titles:
        schema['rowTitles'] = titles
    common = c.choose('common', list(range(len(COMMON))))
    table.update(COMMON[common])
    notes = c.choose('notes', [None, [], [{'schema:x': 1}, {'schema:y': {'@value': 'n'}}]])
    if notes is not None:
        table['notes'] = notes
    if c.flag('id'):
        table['@id'] = 'http://x.org/t'
    if c.flag('suppress table'):
        table['suppressOutput'] = True
    n = c.choose('rows', [2, 1, 3, 0])
    rows = [ROWS[c.choose('row{}'.format(i), list(range(i, len(ROWS))) + list(range(i)))] for i in range(n)]
    comment = c.choose('comment', [None, 'first', 'middle', 'two'])
    header = c.choose('header', [True, False])
    extra = c.flag('newline in cell')
    dialect = {}
    if comment:
        dialect['commentPrefix'] = '#'
    if not header:
        dialect['header'] = False
    if dialect:
        table['dialect'] = dialect
    md = {'@context': 'http://www.w3.org/ns/csvw'}
    groupcommon = 0
    if ntables == 1:
        md.update(table)
    else:
        groupcommon = c.choose('common of group', list(range(len(COMMON))))
        md.update(COMMON[groupcommon])
        md['tables'] = [table]
        if ntables == 2:
            md['tables'].append({'url': 'u.csv', 'tableSchema': {'columns': [{'name': 'a'}]}})
    {'schema': schema, 'table': table if ntables != 1 else md, 'group': md}[level].update(inherited)
    if level == 'group' and inherited and ntables == 2:
        del md['tables'][1]
    for prop in ('propertyUrl', 'valueUrl'):  # see ASSUMPTIONS
        seen = collections.defaultdict(set)
        for col in cols:
            p = col.get('propertyUrl') or inherited.get('propertyUrl') or col['name']
            if '{_name}' in p:
                p = col['name'] + p
            seen[p].add(bool(col.get('separator')) and not (col.get('valueUrl') or inherited.get('valueUrl')))
        if any(len(s) == 2 for s in seen.values()):
            return

    # The data
    lines, exp, no = [], [], 0
    comments = []
    if comment in ('first', 'two'):
        lines.append('#c1')
        comments.append('c1')
    if header:
        lines.append('a,b,c')
    for i, row in enumerate(rows):
        if i == 1 and comment in ('middle', 'two'):
            lines.append('# c2')
            comments.append('c2')
        if extra and i == 0:
            row = ['l\nm'] + row[1:]
        lines.append(','.join('"{}"'.format(s.replace('"', '""')) if set(s) & set('"\n') else s for s in row))
        if row[0] == '' and not any(row):
            lines[-1] = ',,'
        no = '\n'.join(lines).count('\n') + 1
        exp.append((no, row))
    text = ''.join(line + '\n' for line in lines)

    key = json.dumps([md, text, where, how, minimal])
    c.describe((md, text, where, how, minimal))
    c.state(md, text, where, how, minimal)

    # The expected result
    res = collections.OrderedDict()
    jrows = []
    for number, (lineno, row) in enumerate(exp, start=1):
        vals = cells(row, 'abc', null)
        obj = {}

        def expand(t, name):
            return w.resolve(TEMPLATES[t](vals, number, name), 't.csv')

        about = inherited.get('aboutUrl')
        if about:
            obj['@id'] = expand(about, None)
        for col in cols:
            name = col['name']
            if col.get('suppressOutput'):
                continue
            v = vals.get(name)
            if col.get('virtual'):
                v = None if '' in null else ''
                if 'default' in col:
                    v = [col['default']] if 'separator' in col else (
                        7 if col.get('datatype') else col['default'])
                    if v in null:
                        v = None
            valueUrl = col.get('valueUrl') or inherited.get('valueUrl')
            if v in (None, []) and not (col.get('virtual') and valueUrl):
                continue
            prop = col.get('propertyUrl') or inherited.get('propertyUrl')
            prop = compact(expand(prop, name)) if prop else name
            if valueUrl:
                v = expand(valueUrl, name)
                if prop == 'rdf:type':
                    v = compact(v)
            if prop in obj:
                if not isinstance(obj[prop], list):
                    obj[prop] = [obj[prop]]
                obj[prop].extend(v if isinstance(v, list) else [v])
            else:
                obj[prop] = list(v) if isinstance(v, list) else v
        jrow = {'url': w.base + 't.csv#row={}'.format(lineno), 'rownum': number, 'describes': [obj]}
        if titles:
            tt = [vals[t] for t in titles if vals[t] not in (None, '')]
            jrow['titles'] = tt[0] if len(tt) == 1 else tt
        jrows.append(jrow)
    t = {'url': w.base + 't.csv', 'row': jrows}
    if '@id' in table:
        t['@id'] = table['@id']
    t.update(COMMON_JSON[common])
    if notes:
        t['notes'] = [{'schema:x': 1}, {'schema:y': 'n'}]
    if comments:
        t['rdfs:comment'] = comments
    tables = [] if table.get('suppressOutput') else [t]
    if len(md.get('tables', [])) == 2:
        tables.append({'url': w.base + 'u.csv', 'row': [
            {'url': w.base + 'u.csv#row=2', 'rownum': 1, 'describes': [{'a': 'other'}]}]})
    res.update(COMMON_JSON[groupcommon])
    res['tables'] = tables
    if minimal:
        res = [o for t in tables for r in t['row'] for o in r['describes']]

    got = w.convert(md, {'t.csv': text, 'u.csv': 'a\nother\n'}, how, minimal)
    c.tick(n)
    c.check(norm(got) == norm(res), key, lambda: 'got {}, expected {}'.format(norm(got), norm(res)))
    # JSON objects are not ordered, but we might as well keep the order of the columns.
    c.outcome(norm(got).replace(str(c.dir), ''))


VALUES = {
    'string': [('a', 'a'), (' b ', ' b '), ('NULL', 'NULL'), ('1', '1'), ('true', 'true'), ('\u00e4', '\u00e4')],
    'integer': [('1', 1), ('0', 0), ('-0', 0), ('+5', 5), ('007', 7), ('12345678901234567890', 12345678901234567890), ('x', 'x')],
    'decimal': [('1.5', 1.5), ('0', 0.0), ('100', 100.0), ('-0.10', -0.1), ('1e5', '1e5')],
    'double': [('1.5', 1.5), ('1e10', 1e10), ('INF', 'INF'), ('-INF', '-INF'), ('NaN', 'NaN'), ('0', 0.0), ('-1e-7', -1e-7)],
    'float': [('2.5', 2.5), ('INF', 'INF')],
    'number': [('2.5', 2.5), ('7', 7.0)],
    'long': [('5', 5)], 'nonNegativeInteger': [('0', 0), ('-1', '-1')], 'byte': [('12', 12), ('300', '300')],
    'boolean': [('true', True), ('false', False), ('1', True), ('0', False), ('x', 'x')],
    'date': [('2020-01-02', '2020-01-02'), ('0999-12-31', '0999-12-31'), ('2020-01-02Z', '2020-01-02Z'),
             ('2020-01-02+01:00', '2020-01-02+01:00'), ('2020-13-02', '2020-13-02')],
    'dateTime': [('2020-01-02T03:04:05', '2020-01-02T03:04:05'), ('2020-01-02T03:04:05.500', '2020-01-02T03:04:05.5'),
                 ('2020-01-02T03:04:05Z', '2020-01-02T03:04:05Z'), ('2020-01-02T03:04:05.5Z', '2020-01-02T03:04:05.5Z'),
                 ('2020-01-02T03:04:05.5+10:00', '2020-01-02T03:04:05.5+10:00'),
                 ('2020-01-02T03:04:05.000001', '2020-01-02T03:04:05.000001'),
                 ('2020-01-02T00:00:00+01:00', '2020-01-02T00:00:00+01:00'),
                 ('2020-01-02T00:00:00-00:30', '2020-01-02T00:00:00-00:30')],
    'dateTimeStamp': [('2020-01-02T03:04:05Z', '2020-01-02T03:04:05Z'),
                      ('2020-01-02T03:04:05.120-05:30', '2020-01-02T03:04:05.12-05:30')],
    'datetime': [('2020-01-02T03:04:05', '2020-01-02T03:04:05')],
    'time': [('03:04:05', '03:04:05'), ('23:59:59Z', '23:59:59Z'), ('00:00:00', '00:00:00')],
    'duration': [('P1Y2M3DT4H', 'P1Y2M3DT4H'), ('P1D', 'P1D')],
    'dayTimeDuration': [('P3DT4H', 'P3DT4H')], 'yearMonthDuration': [('P1Y2M', 'P1Y2M')],
    'hexBinary': [('A0', 'A0'), ('00ff', '00FF'), ('zz', 'zz')],
    'base64Binary': [('YQ==', 'YQ=='), ('AP8=', 'AP8=')], 'binary': [('YQ==', 'YQ==')],
    'anyURI': [('http://example.org/a?b#c', 'http://example.org/a?b#c'), ('x', 'x'), ('a%20b', 'a%20b')],
    'gYear': [('2020', '2020')], 'gMonthDay': [('--12-25', '--12-25')], 'NMTOKEN': [('a:b', 'a:b')],
    'language': [('en', 'en')], 'xml': [('<a/>', '<a/>')], 'html': [('<b>', '<b>')], 'any': [('x', 'x')],
    'QName': [('a:b', 'a:b')],
}
FORMATS = {
    ('date', 'dd.MM.yyyy'): [('02.01.2020', '2020-01-02')],
    ('dateTime', 'dd.MM.yyyy HH:mm'): [('02.01.2020 03:04', '2020-01-02T03:04:00')],
    ('dateTime', 'yyyy-MM-ddTHH:mm:ss.SSS'): [('2020-01-02T03:04:05.120', '2020-01-02T03:04:05.12')],
    ('time', 'HH:mm'): [('03:04', '03:04:00')], ('time', 'HHmmss'): [('030405', '03:04:05')],
    ('time', 'HH:mm:ss.SSS'): [('03:04:05.120', '03:04:05.12'), ('03:04:05', '03:04:05')],
    ('boolean', 'Y|N'): [('Y', True), ('N', False), ('true', 'true')],
    ('decimal', '#,##0.0'): [('1,000.5', 1000.5)], ('integer', '#,##0'): [('1,000', 1000)],
    ('string', '[a-c]+'): [('abc', 'abc'), ('x', 'x')],
}


def formats(c):
    """Every datatype x value, alone and in lists, with the datatype given here or there."""
    kinds = [(t, None) for t in VALUES] + list(FORMATS)
    typ, fmt = c.every('datatype', kinds)
    pairs = FORMATS[typ, fmt] if fmt else VALUES[typ]
    sep = c.every('separator', [None, ';'])
    level = c.every('level', ['column', 'schema', 'table'])
    n = c.every('n', [1, 2] if sep else [1])
    where = c.choose('where', ['local', 'http'])
    about = c.choose('aboutUrl', [None, 'http://x.org/s'])
    required = c.choose('required', [False, True])
    chosen = [c.every('value{}'.format(i), pairs) for i in range(n)]
    bad = sep and any(isinstance(v, str) and s == v and typ in ('integer', 'decimal', 'boolean', 'byte', 'nonNegativeInteger')
                      or v in ('2020-13-02', 'zz') or (typ, fmt) == ('string', '[a-c]+') and s == 'x' for s, v in chosen)
    w = World(c, where)
    col, schema = {'name': 'x'}, {}
    schema['columns'] = [{'name': 'id', 'datatype': 'string', 'separator': None}, col]
    del schema['columns'][0]['separator']
    md = {'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': schema}
    inh = {'datatype': {'base': typ, 'format': fmt} if fmt else typ}
    {'column': col, 'schema': schema, 'table': md}[level].update(inh)
    if sep:
        col['separator'] = sep
    if required:
        col['required'] = True
    if about:
        col['aboutUrl'] = about
    text = 'id,x\n1,"{}"\n'.format(';'.join(s for s, _ in chosen))
    key = json.dumps([md, text, where])
    c.describe((md, text))
    c.state(md, text, where)
    # Invalid values are kept as texts, for lists this includes all the items.
    vals = [s if bad else v for s, v in chosen]
    val = vals if sep else vals[0]
    got = w.convert(md, {'t.csv': text})
    got = got['tables'][0]['row'][0]['describes']
    exp = {'id': '1', 'x': val}
    if about:
        exp['@id'] = about
    if typ == 'anyURI' and about and not sep and len(got) == 1:
        pass
    c.tick()
    c.check(norm(got) == norm([exp]), key, lambda: 'got {}, expected {}'.format(norm(got), norm([exp])))
    c.outcome(norm(got))


SUBJECTS = ['http://x.org/A', 'http://x.org/B', 'http://x.org/C']


def subjects(c):
    """Cells describing up to three subjects, with references between them: all graphs."""
    row = c.every('aboutUrl', [None, SUBJECTS[0]])
    n = 3
    cols, facts = [], []
    vals = ['p', 'q', 'r']
    for i in range(n):
        about = c.every('about{}'.format(i), [None] + SUBJECTS)
        value = c.every('value{}'.format(i), [None] + SUBJECTS)
        col = {'name': 'abc'[i]}
        if about:
            col['aboutUrl'] = about
        if value:
            col['valueUrl'] = value
        cols.append(col)
    kind = c.choose('kind', ['plain', 'virtual', 'same property', 'list', 'lists', 'types', 'local'])
    texts = list(vals)
    if kind == 'virtual':
        if 'valueUrl' not in cols[2]:
            return
        cols[2]['virtual'] = True
    elif kind == 'same property':
        for col in cols:
            col['propertyUrl'] = 'http://x.org/p'
    elif kind == 'list':
        cols[1]['separator'] = ';'
        vals[1], texts[1] = ['q', 'q2', 'q'], 'q;q2;q'
    elif kind == 'lists':
        if any('valueUrl' in col for col in cols):
            return
        for i, items in enumerate([['p', 'q'], ['r'], ['p', 's', 'p']]):
            cols[i].update(separator=';', propertyUrl='http://x.org/p')
            vals[i], texts[i] = items, ';'.join(items)
    elif kind == 'types':
        cols[0]['datatype'], cols[1]['datatype'], cols[2]['datatype'] = 'integer', 'boolean', 'decimal'
        texts, vals = ['5', 'true', '1.5'], [5, True, 1.5]
    where = 'local' if kind == 'local' else 'http'
    minimal = c.choose('minimal', [False, True])
    empty = c.choose('empty', [None, 0, 1])
    schema = {'columns': cols}
    if row:
        schema['aboutUrl'] = row
    md = {'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': schema}
    if empty is not None:
        texts[empty] = ''
    names = [x['name'] for x in cols if not x.get('virtual')]
    text = ','.join(names) + '\n' + ','.join(texts[:len(names)]) + '\n' + ','.join(texts[:len(names)]) + '\n'
    for i, col in enumerate(cols):
        if i == empty:
            continue
        facts.append((col.get('aboutUrl') or row, col.get('propertyUrl', col['name']), col.get('valueUrl', vals[i])))
    key = json.dumps([md, text, minimal])
    c.describe((md, text))
    c.state(md, text, minimal)
    got = World(c, where).convert(md, {'t.csv': text}, minimal=minimal)
    if minimal:
        c.check(isinstance(got, list) and len(got) % 2 == 0, key, lambda: 'got {}'.format(got))
        n = len(got) // 2
        both = [got[:n], got[n:]]
    else:
        both = [r['describes'] for r in got['tables'][0]['row']]
    c.check(len(both) == 2 and both[0] == both[1], key, lambda: 'rows with the same data: {}'.format(both))
    got = both[0]
    c.tick()
    # All facts, flattened:
    found, subjs = [], []

    def walk(obj, path):
        s = obj.get('@id')
        subjs.append(s)
        for p, v in obj.items():
            if p == '@id':
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict):
                    c.check(x['@id'] not in path + [s], key, 'nested in itself')
                    found.append((s, p, x['@id'], path))
                    walk(x, path + [s])
                else:
                    found.append((s, p, x, path))

    for obj in got:
        walk(obj, [])
    want = []
    known = []
    for s, p, v in facts:
        if s not in known:
            known.append(s)
        want.extend((s, p, x) for x in (v if isinstance(v, list) else [v]))
    if None in known and len(known) > 1 and len(got) == 1 and got[0].get('@id') and \
            kind not in ('same property', 'lists'):  # see ASSUMPTIONS
        want = [(got[0]['@id'] if s is None else s, p, x) for s, p, x in want]
        known.remove(None)
    if not facts:
        known = [row] if row or not any('aboutUrl' in x for x in cols) else [None]
    if row and row not in known and not any('aboutUrl' in cols[i] for i in range(3) if i != empty):
        known.append(row)
    c.check(sorted(map(repr, [f[:3] for f in found])) == sorted(map(repr, want)), key,
            lambda: 'facts {}, expected {}; {}'.format(found, want, got))
    c.check(sorted(map(str, subjs)) == sorted(map(str, known)), key,
            lambda: 'subjects {}, expected {}: {}'.format(subjs, known, got))
    # values of one property are in the order of the columns
    for s, p, v in facts:
        if isinstance(v, list) and kind != 'lists':
            have = [f[2] for f in found if f[1] == p]
            c.check(have == v, key, lambda: 'list {}'.format(have))
    if kind in ('same property', 'lists'):
        for s in known:
            if row and s == row and any('aboutUrl' in col for col in cols):
                continue  # no order among cells of the subject of the row and cells with an own one
            have = [f[2] for f in found if f[0] == s]
            c.check(have == [x for ss, p, x in want if ss == s], key, lambda: 'order of values {}'.format(have))
    # A subject referenced exactly once, and not involved in cycles, is nested there
    refs = {}
    for s, p, v in facts:
        if s is not None and isinstance(v, str) and v in known:
            refs.setdefault(v, []).append(s)

    def cyclic(s, seen=()):
        if s in seen:
            return True
        return any(cyclic(x, seen + (s,)) for x in refs.get(s, []))

    roots = [o.get('@id') for o in got]
    if not any(cyclic(s) for s in known):
        for s in known:
            nested = len(refs.get(s, [])) == 1
            c.check((s not in roots) == nested, key, lambda: '{} should {}be nested: {}'.format(
                s, '' if nested else 'not ', got))
    if row and row in roots:
        c.check(roots[0] == row, key, lambda: 'subject of the row is not first: {}'.format(roots))
    c.outcome(norm(got))


def embedded(c):
    """No metadata: columns are named by the header row."""
    where = c.every('where', ['local', 'http'])
    n = c.every('columns', [1, 2, 3])
    names = [c.choose('name{}'.format(i), [x + str(i) for x in ['x', 'a b', '\u00e4', 'a.b']]) for i in range(n)]
    rows = [[c.choose('cell{}{}'.format(r, i), ['v', '', '1', 'true', ' s', '"', 'http://x.org']) for i in range(n)]
            for r in range(c.every('rows', [0, 1, 2]))]
    minimal = c.choose('minimal', [False, True])
    how = c.choose('how', ['to_json', 'cli'])
    if minimal and how == 'cli':
        return
    lines = [names] + rows
    text = ''.join(','.join('"{}"'.format(s.replace('"', '""')) for s in row) + '\n' for row in lines)
    w = World(c, where)
    got = w.convert(None, {'t.csv': text}, how, minimal)
    objs = [{k: v for k, v in zip(names, row) if v} for row in rows]
    exp = {'tables': [{'url': w.base + 't.csv', 'row': [
        {'url': w.base + 't.csv#row={}'.format(i + 2), 'rownum': i + 1, 'describes': [o]} for i, o in enumerate(objs)]}]}
    if minimal:
        exp = objs
    c.describe((text, where))
    c.state(text, where, minimal, how)
    c.tick()
    c.check(norm(got) == norm(exp), json.dumps([text, where, minimal]), lambda: 'got {}, expected {}'.format(
        norm(got), norm(exp)))
    c.outcome(norm(objs))


HARNESSES = [
    Harness('conversion', conversion, 2, 3),
    Harness('formats', formats, 1, 2),
    Harness('subjects', subjects, 1, 2),
    Harness('embedded', embedded, 2, 3),
    Harness('sizes', sizes.c24, None),
]
