import io
import re
import html
import json
import copy
import contextlib

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup
from csvw.utils import metadata2markdown
from csvw.__main__ import csvw2markdown

ASSUMPTIONS = [
    'names, titles, URLs of tables and regular expressions contain no backticks',
    'foreign keys which refer to a schema rather than a table are not rendered; the target of '
    'the others is a table of the group',
    'the lexical details of bounds (e.g. whether times are shown for dates) are left open',
]
NS = 'http://www.w3.org/ns/csvw'
# (datatype, text expected for the base, [choices], regex, [(sign, bound)])
DATATYPES = [
    (None, 'string', None, None, []),
    ('integer', 'integer', None, None, []),
    ('string', 'string', None, None, []),
    ({'base': 'string', 'format': '[a-z]+'}, 'string', None, '[a-z]+', []),
    ({'base': 'string', 'format': 'a|b.'}, 'string', None, 'a|b.', []),
    ({'base': 'string', 'format': '(x|y){2}'}, 'string', None, '(x|y){2}', []),
    ({'base': 'string', 'format': 'yes|no|may be'}, 'string', ['yes', 'no', 'may be'], None, []),
    ({'base': 'string', 'format': 'one'}, 'string', ['one'], None, []),
    ({'base': 'boolean', 'format': 'Y|N'}, 'boolean', ['Y', 'N'], None, []),
    ({'base': 'token', 'format': 'a|b'}, 'token', ['a', 'b'], None, []),
    ({'base': 'date', 'format': 'yyyyMMdd'}, 'date', None, None, []),
    ({'base': 'dateTime', 'format': 'yyyyMMdd HHmm'}, 'dateTime', None, None, []),
    ({'base': 'time', 'format': 'HHmm'}, 'time', None, None, []),
    ({'base': 'date', 'minimum': '2020-01-02'}, 'date', None, None, [('&ge;', '2020-01-02')]),
    ({'base': 'integer', 'format': '000'}, 'integer', None, None, []),
    ({'base': 'decimal', 'format': {'pattern': '0.0', 'decimalChar': ','}}, 'decimal', None, None, []),
    ({'base': 'decimal', 'format': {'groupChar': '|'}}, 'decimal', None, None, []),
    ({'base': 'float', 'format': '#,##0.0'}, 'float', None, None, []),
    ({'base': 'integer', 'minimum': '0'}, 'integer', None, None, [('&ge;', '0')]),
    ({'base': 'integer', 'maximum': 0, 'minimum': -5}, 'integer', None, None,
     [('&ge;', '-5'), ('&le;', '0')]),
    ({'base': 'decimal', 'minInclusive': '0.5', 'maxExclusive': '7.5'}, 'decimal', None, None,
     [('&ge;', '0.5'), ('&lt;', '7.5')]),
    ({'base': 'integer', 'minExclusive': '1', 'maxInclusive': '3'}, 'integer', None, None,
     [('&gt;', '1'), ('&le;', '3')]),
    ({'base': 'duration', 'format': 'P1D|P2D'}, 'duration', ['P1D', 'P2D'], None, []),
    ({'base': 'string', 'minLength': 0, 'maxLength': 5}, 'string', None, None, []),
    ({'base': 'json'}, 'json', None, None, []),
    ({'base': 'anyURI', 'dc:title': 'URI'}, 'anyURI', None, None, []),
]
SEPARATORS = [None, ';', '|', ' ', ', ', '\\']
# (value of the property, text)
TEXTS = [
    (None, ''), ('simple', 'simple'), ('with | pipe', 'with | pipe'), ('two\nlines', 'two lines'),
    ('a\r\nb', 'a b'), (['first', 'second'], 'first second'),
    ({'@value': 'tagged', '@language': 'en'}, 'tagged'),
    ([{'@value': 'x | y'}, 'z'], 'x | y z'), ('', ''), (0, '0'), ('<b>&amp;</b>', '<b>&amp;</b>'),
    ('see [x](y)', 'see [x](y)'),
]
IMAGES = [
    None, 'http://example.org/i.png',
    {'https://schema.org/contentUrl': 'http://example.org/i.png',
     'https://schema.org/caption': 'cap'},
    ['http://example.org/i.png', {'https://schema.org/contentUrl': 'http://example.org/j.png'}],
]
PROPS = [
    None, {'dc:creator': 'me'}, {'dc:creator': 'a | b\nc'}, {'dc:subject': ['x', 'y']},
    {'dc:source': {'dc:title': 'T', 'dc:x': 1}}, {'schema:name': True},
    {'http://example.org/p': 'v'}, {'dc:source': {'dc:title': '<b>&amp; x', 'http://example.org/q': '1<2'}},
    {'dc:subject': [{'dc:title': '</dd>|\n'}, {'@id': 'x'}]}, {'dcat:a:b': 'v'},
]
URLS = ['b.csv', 'data/b.csv', 'B-1.csv', 'b 2.csv', 'b|c.csv', 'ü.csv', 'acsv', 'a-csv']
NAMES = [
    ({'name': 'x'}, 'x'), ({'titles': 'a title'}, 'a title'), ({}, '_col.2'),
    ({'titles': {'de': ['der Titel', 'zwei']}}, '_col.2'), ({'name': 'x|y'}, 'x|y'),
    ({'name': 'name', 'titles': 'title'}, 'name'),
]
CONTAINERS = ['column', 'schema', 'table', 'group']


def cells(line):
    """The cells of a row of a (GitHub flavored) markdown table."""
    res, cell, i = [], '', 0
    while i < len(line):
        if line[i:i + 2] == '\\|':
            cell += '|'
            i += 2
            continue
        if line[i] == '|':
            res.append(cell)
            cell = ''
        else:
            cell += line[i]
        i += 1
    return [s.strip() for s in res + [cell]]


def parse(md):
    """-> title, preamble, [(anchor, title, preamble, [row])]"""
    lines = md.split('\n')
    title, intro, tables, current = None, [], [], None
    in_columns = False
    for line in lines:
        m = re.fullmatch(r'## <a name="([^"]*)"></a>Table (.*)', line)
        if m:
            current = (m.group(1), m.group(2), [], [])
            tables.append(current)
            in_columns = False
        elif title is None and line.startswith('# '):
            title = line[2:]
        elif current is None:
            intro.append(line)
        elif line == '### Columns':
            in_columns = True
        elif in_columns and line.strip():
            current[3].append(cells(line))
        else:
            current[2].append(line)
    return title, '\n'.join(intro), [(a, t, '\n'.join(p), r) for a, t, p, r in tables]


def put(target, key, value):
    if value is not None:
        target[key] = value


def group(c):
    """The metadata and, per table, what is expected for its columns."""
    md = {'@context': NS, 'tables': []}
    title = c.choose('title', TEXTS)
    put(md, 'dc:title', title[0])
    intro = c.choose('group description', TEXTS)
    put(md, 'dc:description', intro[0])
    n = c.choose('tables', [2, 1, 3])
    urls = ['a.csv', c.choose('url', URLS), 'c.csv'][:n]
    if n == 3:
        urls[2] = c.choose('third url', ['c.csv', 'A.csv', 'a,csv'])
    tables = []
    for i, url in enumerate(urls):
        cols = [{'name': 'id'}]
        want = [{'name': 'id', 'base': 'string'}]
        if i == 0:
            spec, name = c.choose('name', NAMES)
            col, exp = copy.deepcopy(spec), {'name': name}
            dt, base, choices, regex, bounds = c.choose('datatype', DATATYPES)
            exp.update(base=base, choices=choices, regex=regex, bounds=bounds)
            inherited = c.choose('datatype of', CONTAINERS) if dt else 'column'
            if inherited == 'column':
                put(col, 'datatype', dt)
            sep = c.choose('separator', SEPARATORS)
            sepof = c.choose('separator of', CONTAINERS) if sep else 'column'
            if sepof == 'column':
                put(col, 'separator', sep)
            exp['separator'] = sep
            desc, exp['description'] = c.choose('description', TEXTS)
            put(col, 'dc:description', desc)
            put(col, 'propertyUrl', c.choose(
                'propertyUrl', [None, 'http://example.org/{_name}#x', 'http://example.org/a|b']))
            exp['propertyUrl'] = col.get('propertyUrl')
            cols.append(col)
            want.append(exp)
            cols.append({'name': 'f'})
            want.append({'name': 'f', 'base': 'string'})
            if c.flag('virtual column'):
                cols.append({'name': 'v', 'virtual': True, 'valueUrl': '{id}'})
                want.append({'name': 'v', 'base': 'string'})
        else:
            cols.append({'name': 'id2', 'datatype': 'integer', 'dc:description': 'number two'})
            want.append({'name': 'id2', 'base': 'integer', 'description': 'number two'})
        schema = {'columns': cols}
        table = {'url': url, 'tableSchema': schema}
        if i == 0:
            for place, key, value in [(inherited, 'datatype', dt), (sepof, 'separator', sep)]:
                if place != 'column':
                    put({'schema': schema, 'table': table, 'group': md}[place], key, value)
        if i == 0:
            pk = c.choose('primary key', [None, ['id'], ['id', 'f'], ['f']])
            put(schema, 'primaryKey', pk)
            for exp in want:
                exp['pk'] = bool(pk) and exp['name'] in pk
            fks = {
                'none': [],
                'single': [(['f'], urls[-1], ['id'])],
                'self': [(['f'], 'a.csv', ['id'])],
                'composite': [(['id', 'f'], urls[-1], ['id2' if n > 1 else 'f', 'id'])],
                'two': [(['f'], urls[-1], ['id']), (['f'], urls[0], ['id'])],
                'two columns': [(['f'], urls[-1], ['id']), (['id'], urls[-1], ['id'])],
                'second table': [(['f'], urls[min(n - 1, 1)], ['id'])],
            }[c.choose('foreign keys', [
                'none', 'single', 'self', 'composite', 'two', 'two columns', 'second table'])]
            if fks:
                schema['foreignKeys'] = [{
                    'columnReference': cc, 'reference': {'resource': t, 'columnReference': r}}
                    for cc, t, r in fks]
            if c.flag('schemaReference'):
                schema.setdefault('foreignKeys', []).append({
                    'columnReference': ['id'],
                    'reference': {'schemaReference': 'http://example.org/s',
                                  'columnReference': ['id']}})
            for exp in want:
                exp['fks'] = [
                    (t, ref) for cc, t, r in fks for col_, ref in zip(cc, r) if col_ == exp['name']]
            tdesc = c.choose('table description', TEXTS)
            put(table, 'dc:description', tdesc[0])
            props = c.choose('table properties', PROPS)
            table.update(copy.deepcopy(props or {}))
            put(table, 'https://schema.org/image', c.choose('image', IMAGES))
            put(table, 'dialect', c.choose(
                'dialect', [None, {'delimiter': ';'}, {'commentPrefix': '#', 'header': False}]))
            put(md, 'dialect', c.choose('group dialect', [None, {'delimiter': '\t'}]))
        else:
            tdesc, props = ('', ''), None
            for exp in want:
                # Inherited from the group:
                if inherited == 'group' and exp['name'] != 'id2':
                    exp.update(base=base, choices=choices, regex=regex, bounds=bounds)
                if sepof == 'group':
                    exp['separator'] = sep
        if i == 0:
            for exp in want:
                if exp['name'] in ('id', 'f', 'v') and exp is not want[1]:
                    if inherited != 'column':
                        exp.update(base=base, choices=choices, regex=regex, bounds=bounds)
                    if sepof != 'column':
                        exp['separator'] = sep
        md['tables'].append(table)
        tables.append((url, tdesc[1], props, table.get('https://schema.org/image'),
                       table.get('dialect') or md.get('dialect'), want))
    return md, title[1], intro[1], tables


def squeeze(s):
    return re.sub(r'\s+', ' ', s)


def check_column(c, key, row, exp, anchors):
    c.check(len(row) == 3, key('cells'), lambda: '{} in place of 3 cells: {}'.format(len(row), row))
    name, dt, desc = row
    if exp.get('propertyUrl'):
        c.check(name == '[{}]({})'.format(exp['name'], exp['propertyUrl']), key('name'), name)
    else:
        c.check(name == '`{}`'.format(exp['name']), key('name'), name)
    # The datatype:
    m = re.match(r'(list of )?`([^`]*)`', dt)
    c.check(m and m.group(2) == exp['base'], key('base'), dt)
    rest = dt[m.end():]
    sep = exp.get('separator')
    c.check(bool(m.group(1)) == bool(sep), key('list'), dt)
    if sep:
        tail = '(separated by `{}`)'.format(sep)
        c.check(rest.endswith(tail), key('separator'), dt)
        rest = rest[:-len(tail)]
    parts = [p.strip() for p in rest.split('<br>')]
    choices = regex = None
    bounds = []
    for i, part in enumerate(parts):
        if part == 'Valid choices:':
            choices = re.findall('`([^`]*)`', parts[i + 1])
        elif part.startswith('Regex: '):
            regex = part[len('Regex: '):].strip('`')
        elif part.startswith('&'):
            bounds.append(tuple(part.split(' ', 1)))
    c.check(choices == exp.get('choices'), key('choices'), lambda: '{} {}'.format(dt, exp))
    c.check(regex == exp.get('regex'), key('regex'), lambda: '{} {}'.format(dt, exp))
    want = exp.get('bounds') or []
    c.check(len(bounds) == len(want) and all(
        s == s2 and (b == b2 or b.startswith(b2 + ' ') or b.startswith(b2 + 'T'))
        for (s, b), (s2, b2) in zip(sorted(bounds), sorted(want))),
        key('bounds'), lambda: '{} {}'.format(dt, exp))
    # The description:
    parts = desc.split('<br>') if desc else []
    want = [squeeze(exp['description'])] if exp.get('description') else []
    c.check([squeeze(p) for p in parts[:len(want)]] == want, key('description'),
            lambda: '{!r}: expected {}'.format(desc, want))
    parts = parts[len(want):]
    c.check(('Primary key' in parts) == bool(exp.get('pk')), key('primary key'), desc)
    parts = [p for p in parts if p != 'Primary key']
    refs = ['References [{}::{}](#{})'.format(t, ref, anchors[t]) for t, ref in exp.get('fks', [])]
    c.check(sorted(parts) == sorted(refs), key('foreign key'),
            lambda: '{!r}: expected {}'.format(desc, refs))


def rendered(c):
    """A table group with one rich table, rendered by the function or the command."""
    md, title, intro, tables = group(c)
    made = c.choose('from', ['value', 'file', 'file/str'])
    if made != 'value':
        p = c.dir / 'md.json'
        p.write_text(json.dumps(md), encoding='utf8')
        if c.flag('data exists'):
            (c.dir / 'a.csv').write_text('id\n')
    before = json.dumps(md)
    how = c.choose('rendered by', ['function', 'function with links', 'command']
                   if made != 'value' else ['function', 'function with links'])
    if how == 'command':
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            import argparse
            csvw2markdown(argparse.Namespace(url=str(p) if made == 'file/str' else p), test=True)
        res = out.getvalue()
    else:
        tg = TableGroup.fromvalue(md) if made == 'value' else TableGroup.from_file(
            p if made == 'file' else str(p))
        res = metadata2markdown(tg, link_files='links' in how)
    c.tick()

    def key(what):
        return '{} {}'.format(what, before)
    gtitle, gintro, sections = parse(res)
    want_title = title if 'dc:title' in md else 'Dataset'
    # (a title of several lines is continued in the lines that follow)
    c.check(squeeze(gtitle) == squeeze(want_title) or
            squeeze(gtitle + ' ' + gintro).strip().startswith(squeeze(want_title)),
            key('title'), lambda: repr(gtitle))
    if md.get('dc:description'):
        c.check(squeeze(intro) in squeeze(gintro), key('group description'), lambda: gintro)
    c.check(len(sections) == len(tables), key('sections'), lambda: str([s[:2] for s in sections]))
    anchors = {url: s[0] for (url, *_), s in zip(tables, sections)}
    c.check(len(set(anchors.values())) == len(tables), key('anchors'), lambda: str(anchors))
    for (url, desc, props, image, dialect, cols), (anchor, name, text, rows) in zip(tables, sections):
        c.check(name in (url, '[{0}]({0})'.format(url)), key('table name'), name)
        c.check(squeeze(desc) in squeeze(text) or desc == '0', key('table description'), lambda: text)
        for k, v in (props or {}).items():
            line = [cells(s) for s in text.split('\n') if cells(s)[0].strip('[').startswith(k)]
            c.check(len(line) == 1 and len(line[0]) == 2, key('property'), lambda: text)
            prefix, _, local = k.partition(':')
            ns = {'dc': 'http://purl.org/dc/terms/', 'dcat': 'http://www.w3.org/ns/dcat#'}.get(prefix)
            c.check(line[0][0] == ('[{}]({}{})'.format(k, ns, local) if ns else k), key('property link'), lambda: str(line))
            if isinstance(v, str):
                c.check(line[0][1] == squeeze(v), key('property value'), lambda: str(line))
            items = v if isinstance(v, list) else [v]
            if isinstance(items[0], dict):
                # Nested values are text.
                got = re.findall('<dt>(.*?)</dt><dd>(.*?)</dd>', line[0][1])
                c.check([html.unescape(dd) for _, dd in got] == [squeeze(str(x)) for d in items for x in d.values()]
                        and not any('<' in dd for _, dd in got),
                        key('nested values'), lambda: str(line))
        if image:
            for url_ in re.findall(r'http://example.org/\w\.png', json.dumps(image)):
                c.check('({})'.format(url_) in text, key('image'), lambda: text)
        if dialect:
            for k, v in dialect.items():
                c.check(re.search('"{}": {}'.format(k, re.escape(json.dumps(v))), text),
                        key('dialect'), lambda: text)
        c.check([cell.lower() for cell in rows[0]] == ['name/property', 'datatype', 'description'] and
                all(set(cell) == {'-'} for cell in rows[1]), key('table header'), lambda: str(rows[:2]))
        c.check(len(rows) - 2 == len(cols), key('number of columns'), lambda: str(rows))
        for row, exp in zip(rows[2:], cols):
            check_column(c, key, row, exp, anchors)
            c.tick()
    c.state(before)
    c.outcome(res)
    c.describe(md)


HARNESSES = [Harness('rendered', rendered, 3, 4), Harness('sizes', sizes.c31, None)]
