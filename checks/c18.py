import io
import json
import zipfile

import requests
import requests_mock

from mc.explore import Harness
from checks import sizes

from csvw import CSVW, TableGroup, Table

ASSUMPTIONS = [
    'HTTP is answered by a stand-in for the transport adapter of requests (requests_mock)',
    'open files are text files opened with newline="" and the right encoding',
    'the file in an archive is the only one with its name; its folder does not matter',
]
URL = 'http://example.org/data/'
ENC = ['utf-8', 'bom', 'utf-16', 'utf-16-le', 'utf-16-be', 'latin1', 'ISO-8859-15', 'cp1252', 'utf-32',
       'UTF-8', 'utf8', 'utf-8-sig', 'UTF-8-BOM', 'bom UTF-8', 'bom utf8']
CELLS = ['x', '\u00e4', 'a{0}b', '{0}', 'q"q', 'c,d', '', ' s ', '{0}{0}', '#', "\u00e9'"]
SOURCES = ['plain', 'zip', 'str', 'path', 'open', 'stringio', 'http', 'fname url', 'absolute url',
           'fname zip', 'zip folder', 'zip members', 'zip stored', 'object']


def q(s, eol):
    s = s.format(eol) if '{' in s else s
    return '"{}"'.format(s.replace('"', '""')) if set(s) & set(',"\r\n') else s


def build(c, rows, eol, header, final, comment):
    """text, [(line number, row)]"""
    text, line, exp = '', 0, []
    if header:
        text += 'a,b' + eol
        line += 1
    for i, row in enumerate(rows):
        if comment == i:
            text += '#c{}'.format(eol)
            line += 1
        s = ','.join(q(x, eol) for x in row) + eol
        text += s
        line += s.count(eol)
        exp.append((line, {'a': row[0].replace('{0}', eol) or None,
                           'b': row[1].replace('{0}', eol) or None}))
    if not final:
        text = text[:-len(eol)]
    return text, exp


def provide(c, source, name, data, m, md):
    """Puts the data where it belongs. Returns (table, keyword arguments of iterdicts, name)."""
    path = c.dir / name
    path.parent.mkdir(exist_ok=True)
    other = c.dir / 'other dir'
    other.mkdir(exist_ok=True)
    mdfile = c.dir / 'md.json'

    def zipped(p, folder='', members=(), compression=zipfile.ZIP_DEFLATED):
        with zipfile.ZipFile(str(p) + '.zip', 'w', compression=compression) as z:
            for n in members:
                z.writestr(n, 'other,data\n')
            z.writestr(folder + p.name, data)
            for n in members:
                z.writestr(n + '2', 'other,data\n')

    table = md['tables'][-1]
    table['url'] = name
    kw, where = {}, path
    if source == 'plain':
        path.write_bytes(data)
    elif source.startswith('zip'):
        zipped(path,
               folder={'zip folder': 'some/folder/'}.get(source, ''),
               members=['x.csv', 'x' + path.name, 'readme'] if source == 'zip members' else [],
               compression=zipfile.ZIP_STORED if source == 'zip stored' else zipfile.ZIP_DEFLATED)
    elif source in ('str', 'path', 'fname zip'):
        path.write_bytes(b'a,b\r\nwrong,data\r\n')
        where = other / 'file.csv'
        kw['fname'] = str(where) if source == 'str' else where
        if source == 'fname zip':
            zipped(where)
        else:
            where.write_bytes(data)
    elif source in ('open', 'stringio'):
        kw['fname'] = None
    elif source == 'http':
        m.get(URL + 'md.json', text=json.dumps(md))
        m.get(URL + name, content=data)
        return TableGroup.from_url(URL + 'md.json').tables[-1], kw, URL + name
    elif source == 'fname url':
        where = 'https://example.org/x.csv'
        m.get(where, content=data)
        kw['fname'] = where
    else:
        where = table['url'] = URL + 'abs.csv'
        m.get(where, content=data)
    mdfile.write_text(json.dumps(md), encoding='utf8')
    return TableGroup.from_file(mdfile).tables[-1], kw, where


def sources(c):
    """One text in every encoding, with every line end, from every kind of source."""
    source = c.choose('source', SOURCES)
    enc = c.choose('encoding', ENC)
    eol = c.choose('eol', ['\n', '\r\n', '\r'])
    header = c.choose('header', [True, False])
    final = c.choose('final eol', [True, False])
    name = c.choose('name', ['t.csv', 'sub/t.csv', 't', 'sub/x.y.txt'])
    second = c.choose('tables', [1, 2])
    n = c.choose('rows', [2, 1, 3, 600])
    comment = c.choose('comment', [None, 0, 1])
    rows = []
    for i in range(min(n, 3)):
        rows.append([c.choose('cell{}{}'.format(i, k), [CELLS[i + k]] + CELLS) for k in (0, 1)])
    if n > 3:
        rows = rows * (n // 3)
    if comment is not None and any(r[0].startswith('#') for r in rows):
        return
    text, exp = build(c, rows, eol, header, final, comment)
    pyenc = 'utf-8-sig' if enc in ('UTF-8-BOM', 'utf-8-sig') or enc.startswith('bom') else enc
    try:
        data = text.encode(pyenc)
    except UnicodeEncodeError:
        return
    dialect = {}
    if enc not in ('utf-8', 'bom'):
        dialect['encoding'] = enc.split(' ')[-1]
    if not header:
        dialect['header'] = False
    if comment is not None:
        dialect['commentPrefix'] = '#'
    md = {'tables': [{'url': 'first.csv'}] * (second - 1) + [
        {'url': '', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}]}
    if dialect:
        md['dialect'] = dialect
    if source == 'object':
        md = {'tables': [dict(md['tables'][-1], dialect=dialect)]}
    key = json.dumps([md, source, text[:500]])
    c.describe((md, source, text[:500]))
    c.state(md, source, text)
    with requests_mock.Mocker() as m:
        if source == 'object':
            # a table description on its own, with the data in an open file
            t = Table.fromvalue(dict(md['tables'][0], url='t.csv'))
            t._fname = c.dir / 'md.json'
            kw, where = {'fname': None}, None
        else:
            t, kw, where = provide(c, source, name, data, m, md)
        for turn in (1, 2) if n <= 3 else (1,):  # twice
            handle = None
            if source == 'stringio':
                handle = io.StringIO(text, newline='')
            elif source in ('open', 'object'):
                p = c.dir / 'opened'
                p.write_bytes(data)
                handle = p.open(encoding=pyenc, newline='')
            if handle:
                kw['fname'] = where = handle
            got = list(t.iterdicts(with_metadata=True, **kw))
            if handle:
                handle.close()
            c.tick(len(got))
            c.check([(g[1], dict(g[2])) for g in got] == exp, key, lambda: 'turn {}: got {}, expected {}'.format(
                turn, [(g[1], dict(g[2])) for g in got][:5], exp[:5]))
            c.check(all(str(g[0]) == str(where) for g in got), key,
                    lambda: 'reported as {}, expected {}'.format([g[0] for g in got][:3], where))
            if not handle and n <= 3:
                got = [dict(r) for r in (t.iterdicts(**kw) if kw else iter(t))]
                c.check(got == [e[1] for e in exp], key, lambda: 'got {}'.format(got[:5]))
        log = m.request_history
    c.outcome(exp if n <= 3 else len(exp), len(log))


def schedules(c):
    """All interleavings of iterations, checks and writes on two tables sharing a description."""
    source = c.every('source', ['plain', 'zip', 'http'])
    rows = {'a': [['1', 'x'], ['2', 'y\nz'], ['3', '']], 'b': [['7', 'p']]}
    md = {'tables': [
        {'url': n + '.csv', 'tableSchema': {'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}],
                                            'primaryKey': 'a'}} for n in 'ab']}
    exp = {}
    with requests_mock.Mocker() as m:
        for n, rr in rows.items():
            text, _ = build(c, rr, '\n', True, True, None)
            exp[n] = [{'a': int(r[0]), 'b': r[1] or None} for r in rr]
            if source == 'plain':
                (c.dir / (n + '.csv')).write_text(text, encoding='utf8')
            elif source == 'zip':
                with zipfile.ZipFile(str(c.dir / (n + '.csv.zip')), 'w') as z:
                    z.writestr(n + '.csv', text)
            else:
                m.get(URL + n + '.csv', text=text)
        if source == 'http':
            m.get(URL + 'md.json', text=json.dumps(md))
            tg = TableGroup.from_url(URL + 'md.json')
        else:
            (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
            tg = TableGroup.from_file(c.dir / 'md.json')
        tables = dict(zip('ab', tg.tables))
        its, hist = [], []
        ops = ['stop', 'new a', 'new b', 'check', 'write b', 'all a']
        for step in range(5 if c.tier == 'quick' else 7):
            live = [i for i, it in enumerate(its) if it]
            op = c.every('op{}'.format(step), [
                o for o in ops if not (o == 'write b' and source == 'http')]
                + ['next {}'.format(i) for i in live] + ['close {}'.format(i) for i in live])
            hist.append(op)
            if op == 'stop':
                break
            if op.startswith('new'):
                n = op[-1]
                its.append([tables[n].iterdicts(), n, 0, list(exp[n])])
            elif op == 'check':
                c.check(tg.tables[0].check_primary_key(), str(hist))
            elif op == 'all a':
                got = list(tables['a'])
                c.check(got == exp['a'], str(hist), lambda: 'got {}'.format(got))
            elif op == 'write b':
                if any(it and it[1] == 'b' for it in its):
                    return  # reading what is being written: no business of ours
                data = [{'a': step, 'b': str(step)}, {'a': step + 10, 'b': None}]
                tables['b'].write(data, _zipped=source == 'zip')
                exp['b'] = data
            elif op.startswith('close'):
                i = int(op.split()[1])
                its[i][0].close()
                its[i] = None
            else:
                it = its[int(op.split()[1])]
                got = next(it[0], None)
                want = it[3][it[2]] if it[2] < len(it[3]) else None
                c.check(got == want, str(hist), lambda: 'got {}, expected {}'.format(got, want))
                it[2] += 1
            c.tick()
            c.state(source, [it and it[1:] for it in its], exp['b'])
        # All iterations started can be finished:
        for it in reversed(its):
            if it:
                got = list(it[0])
                c.check(got == it[3][it[2]:], str(hist), lambda: 'remaining {}, expected {}'.format(
                    got, it[3][it[2]:]))
        c.describe((source, hist))
        c.outcome(source, [it and it[2] for it in its])


PAGES = {
    'empty': b'',
    'text': b'Not found',
    'html': b'<html>\n<p>Sorry, "nothing" here, yet</p>\n</html>\n',
    'json': b'{"error": 1}',
    'list': b'["error"]',
    'data': b'a,b\n9,z\n',
}
STATUS = ['ok', 'redirect 301', 'redirect 302', 'redirect 307', 'redirect 308', 'refused', 'timeout'] + [
    400, 401, 403, 404, 406, 410, 429, 451, 500, 502, 503, 504]
RESOURCES = ['data', 'group', 'table', 'schema', 'dialect', 'user metadata']


def faults(c):
    """Requests which fail or are redirected: the result is the data, or an error; then a retry."""
    resource = c.every('resource', RESOURCES)
    states = [c.choose('status{}'.format(i), STATUS) for i in (0, 1)]
    page = c.choose('page', sorted(PAGES))
    how = c.choose('how', ['iterdicts', 'iter', 'key', 'references', 'dict', 'json', 'object'])
    schema = {'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}], 'primaryKey': 'a'}
    table = {'url': 't.csv', 'tableSchema': 'schema.json' if resource == 'schema' else schema}
    if resource == 'dialect':
        table['dialect'] = 'dialect.json'
    md = {'@context': 'http://www.w3.org/ns/csvw'}
    md.update(table if resource in ('table', 'user metadata') else {'tables': [table]})
    files = {
        'md.json': md,
        'schema.json': schema,
        'dialect.json': {'delimiter': ';'},
    }
    bad = {'data': 't.csv', 'schema': 'schema.json', 'dialect': 'dialect.json'}.get(resource, 'md.json')
    text = 'a,b\n1,x\n2,y\n'
    if resource == 'dialect':
        text = text.replace(',', ';')
    exp = [{'a': 1, 'b': 'x'}, {'a': 2, 'b': 'y'}]
    c.describe((resource, states, page, how))
    c.state(resource, states, page, how)
    key = str((resource, states, page, how))
    obj = None
    for i, status in enumerate(states):
        with requests_mock.Mocker() as m:
            contents = {n: json.dumps(v).encode('utf8') for n, v in files.items()}
            contents['t.csv'] = text.encode('utf8')
            m.head(requests_mock.ANY, status_code=200)
            m.get(requests_mock.ANY, status_code=404)
            for n, content in contents.items():
                m.get(URL + n, content=content)
            if status in ('refused', 'timeout'):
                m.get(URL + bad, exc={
                    'refused': requests.ConnectionError, 'timeout': requests.Timeout}[status])
            elif status != 'ok' and isinstance(status, str):
                m.get(URL + bad, status_code=int(status.split()[1]),
                      headers={'Location': 'http://example.org/other/place'}, content=PAGES[page])
                m.get('http://example.org/other/place', content=contents[bad])
            elif status != 'ok':
                m.get(URL + bad, status_code=status, content=PAGES[page])
            good = isinstance(status, str) and status not in ('refused', 'timeout')
            try:
                if obj is None or resource != 'data' or how == 'json':
                    if resource == 'user metadata':
                        obj = CSVW(URL + 't.csv', md_url=URL + 'md.json')
                    elif how == 'json':
                        obj = CSVW(URL + 'md.json')
                    elif resource == 'table':
                        obj = Table.from_url(URL + 'md.json')
                    else:
                        obj = TableGroup.from_url(URL + 'md.json')
                t = obj if isinstance(obj, Table) else obj.tables[0]
                if resource == 'user metadata' and how != 'json':
                    obj = t
                if how == 'json' and isinstance(obj, CSVW):
                    got = [dict(r) for r in obj.to_json(minimal=True)]
                elif how == 'iter':
                    got = [dict(r) for r in t]
                elif how == 'key':
                    t.check_primary_key()
                    got = exp
                    c.check(good, key, 'the keys of an error page were checked')
                elif how == 'references' and isinstance(obj, TableGroup):
                    obj.check_referential_integrity()
                    got = [dict(r) for r in t.iterdicts()]
                elif how == 'dict' and isinstance(obj, TableGroup):
                    got = [dict(r) for r in obj.tabledict['t.csv']]
                elif how == 'object':
                    got = [dict(r) for r in t.iterdicts(fname=URL + 't.csv')]
                else:
                    got = [dict(r) for r in t.iterdicts()]
            except Exception as e:
                got = type(e).__name__
            c.tick()
        if good:
            c.check(got == exp, key, lambda: 'attempt {}: got {}, expected {}'.format(i, got, exp))
        elif isinstance(got, list):
            c.check(False, key, lambda: 'attempt {}: {} read as {}'.format(i, status, got))
        c.outcome(got if isinstance(got, list) else 'error')


def archives(c):
    """Every single byte of an archive damaged, in several ways: an error, or the data."""
    compression = c.every('compression', [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
    rows = c.every('rows', [1, 2, 40])
    how = c.every('how', ['xor 1', 'xor 255', 'zero', 'xor 32', 'cut'])
    ref = io.BytesIO()
    with zipfile.ZipFile(ref, 'w', compression=compression) as z:
        info = zipfile.ZipInfo('t.csv', (2020, 1, 1, 0, 0, 0))
        info.compress_type = compression
        z.writestr(info, 'a,b\n' + ''.join('{},x{}\n'.format(i, i * 7) for i in range(rows)))
    data = ref.getvalue()
    exp = [{'a': i, 'b': 'x{}'.format(i * 7)} for i in range(rows)]
    md = {'tables': [{'url': 't.csv', 'tableSchema': {
        'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}], 'primaryKey': 'a'}}]}
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    archive = c.dir / 't.csv.zip'
    t = TableGroup.from_file(c.dir / 'md.json').tables[0]
    c.describe((compression, rows, how))
    good = 0
    for pos in range(len(data)):
        b = bytearray(data)
        if how == 'cut':
            del b[pos:]
        else:
            b[pos] = {'xor 1': b[pos] ^ 1, 'xor 255': b[pos] ^ 255, 'zero': 0,
                      'xor 32': b[pos] ^ 32}[how]
        archive.write_bytes(bytes(b))
        c.state(compression, rows, how, pos)
        key = str((compression, rows, how, pos))
        try:
            got = [dict(r) for r in t.iterdicts()]
            good += 1
        except Exception as e:
            got = type(e).__name__
        c.tick()
        c.check(isinstance(got, str) or got == exp, key,
                lambda: 'damaged archive read as {}'.format(str(got)[:300]))
        c.check(bytes(b) == archive.read_bytes(), key, 'the archive was changed')
        c.outcome(got == exp)
    archive.write_bytes(data)
    c.check([dict(r) for r in t.iterdicts()] == exp, str((compression, rows)), 'intact archive')


HARNESSES = [
    Harness('sources', sources, 3, 4),
    Harness('schedules', schedules, None),
    Harness('faults', faults, 3, 4),
    Harness('archives', archives, None),
    Harness('sizes', sizes.c18, None),
]
