import os
import json
import copy
import shutil
import zipfile
import contextlib

from mc.explore import Harness
from checks import sizes

from csvw import CSVW, TableGroup

ASSUMPTIONS = [
    'tables have relative URLs which do not lead out of the directory of the metadata',
    'rows written do not depend on the file that is overwritten (no lazy iteration of the table '
    'that is written)',
    'the directory given to TableGroup.write for the metadata exists',
]
NS = 'http://www.w3.org/ns/csvw'
COLUMNS = [{'name': 'id'}, {'name': 'n', 'datatype': 'integer'},
           {'name': 'l', 'separator': ';'}]
ROWS = {
    'plain': [{'id': 'a', 'n': 1, 'l': ['x', 'y']}, {'id': 'b', 'n': None, 'l': []}],
    'other': [{'id': 'c', 'n': -5, 'l': ['z']}],
    'none': [],
    'quoting': [{'id': 'q"u,o\'\t;|te', 'n': 0, 'l': ['a b', 'c"d']},
                {'id': 'two\nlines', 'n': 10 ** 20, 'l': [' x ']}],
    'unicode': [{'id': 'é ü', 'n': 7, 'l': ['ß']}],
}
CONTEXTS = [NS, [NS, {'@language': 'en'}], [NS, {'@base': 'sub/'}], [NS, {'@base': './'}],
            [NS, {'@base': 'x/y/'}], [NS, {'@base': 'x/y'}], [NS, {'@base': 'http://example.org/d/'}]]
BASES = {'sub/': 'sub', 'x/y/': 'x/y', 'x/y': 'x'}
URLS = ['a.csv', 'data/a.csv', './a.csv', 'a b.csv', 'é%20.csv', 'a', 'd/e/a.x.tsv', 'A.zip']
DIALECTS = [None, {'delimiter': '\t'}, {'header': False}, {'encoding': 'utf-16'},
            {'encoding': 'latin-1', 'quoteChar': "'"}, {'doubleQuote': False},
            {'lineTerminators': '\r\n', 'commentPrefix': '#'}]
DIRS = ['src', 'new', 'new/deep', 'existing']


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob('*')) if p.is_file()}


def strip(rows):
    return [{k: v for k, v in row.items() if k in ('id', 'n', 'l')} for row in rows]


class Model:
    """Which rows the data file at a path holds, zipped or not."""

    def __init__(self, base, urls):
        self.base, self.urls, self.files = base, urls, {}

    def path(self, d, i):
        return os.path.normpath(os.path.join(d, self.base, self.urls[i]))

    def write(self, d, i, rows, zipped):
        p = self.path(d, i)
        self.files.pop(p, None)
        self.files[p + '.zip' if zipped else p] = rows

    def source(self, d, i):
        p = self.path(d, i)
        return p if p in self.files else p + '.zip' if p + '.zip' in self.files else None

    def copy(self, s, d, i):
        """-> (path copied from, path copied to)"""
        src = self.source(s, i)
        p = self.path(d, i)
        if src.endswith('.zip') and src != self.path(s, i):
            self.files.pop(p, None)
            p += '.zip'
        self.files[p] = self.files[src]
        return src, p

    def rows(self, d, i):
        src = self.source(d, i)
        return None if src is None else self.files[src]


def form(rows, how):
    if how == 'dicts':
        return copy.deepcopy(rows)
    if how == 'lists':
        return [[r['id'], r['n'], list(r['l'])] for r in rows]
    if how == 'tuples':
        return tuple((r['id'], r['n'], tuple(r['l'])) for r in rows)
    return ({'l': r['l'], 'n': r['n'], 'id': r['id']} for r in copy.deepcopy(rows))


def configure(c):
    ctx = c.choose('context', CONTEXTS)
    base = BASES.get(ctx[-1].get('@base'), '') if isinstance(ctx, list) else ''
    n = c.choose('tables', [2, 1, 3])
    urls = [c.choose('url', URLS), 'b.csv', 'data/c.csv'][:n]
    dialect = c.choose('dialect', DIALECTS)
    where = c.choose('dialect of', ['group', 'table']) if dialect else None
    md = {'@context': ctx, 'dc:title': 'x', 'tables': []}
    if where == 'group':
        md['dialect'] = dialect
    for i, url in enumerate(urls):
        md['tables'].append({'url': url, 'tableSchema': {'columns': copy.deepcopy(COLUMNS)}})
    if where == 'table':
        md['tables'][0]['dialect'] = dialect
    if c.flag('virtual column'):
        md['tables'][0]['tableSchema']['columns'].append(
            {'name': 'v', 'virtual': True, 'valueUrl': '{id}'})
    if n > 1 and c.flag('foreign key'):
        md['tables'][0]['tableSchema']['foreignKeys'] = [{
            'columnReference': ['id'],
            'reference': {'resource': urls[1], 'columnReference': ['id']}}]
    return md, base, urls


def normalized(md):
    md = json.loads(json.dumps(md))
    return md


def history(c):
    """Write the data, then copy and write to other directories, reading everything in between."""
    md, base, urls = configure(c)
    os.mkdir(str(c.dir / 'src'))
    os.mkdir(str(c.dir / 'existing'))
    (c.dir / 'existing' / 'readme.txt').write_text('x')
    model = Model(base, urls)
    if c.flag('stale data'):
        for i, url in enumerate(urls):
            p = c.dir / model.path('existing', i)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text('stale')
            model.files[model.path('existing', i)] = 'stale'
    name = c.choose('metadata', ['md.json', 'csv-metadata.json', urls[0].split('/')[-1] + '-metadata.json'])
    made = c.choose('made from', ['value', 'file', 'CSVW'])
    if made == 'value':
        tg = TableGroup.fromvalue(copy.deepcopy(md))
    else:
        os.mkdir(str(c.dir / 'orig'))
        (c.dir / 'orig' / 'orig.json').write_text(json.dumps(md), encoding='utf8')
        tg = TableGroup.from_file(c.dir / 'orig' / 'orig.json') if made == 'file' else \
            CSVW(str(c.dir / 'orig' / 'orig.json')).t
    c.state(json.dumps(md), made, name)
    live = []  # (object, directory it reads from)
    hist = []

    def key():
        return 'history {}'.format(json.dumps([md, name, made, hist]))

    how = c.choose('paths', ['Path', 'str', 'relative'])
    rowform = c.choose('rows as', ['dicts', 'lists', 'tuples', 'iterator'])

    def arg(p):
        """Paths are given as str or Path, absolute or relative."""
        return p if how == 'Path' else str(p) if how == 'str' else os.path.relpath(str(p), str(c.dir))

    @contextlib.contextmanager
    def cwd():
        old = os.getcwd()
        os.chdir(str(c.dir))
        try:
            yield
        finally:
            os.chdir(old)

    def read(tg):
        res = []
        for t in tg.tables:
            try:
                res.append(strip(t.iterdicts()))
            except FileNotFoundError:
                res.append(None)
        return res

    def check():
        with cwd():
            for d in DIRS:
                if (c.dir / d / name).exists():
                    got = TableGroup.from_file(c.dir / d / name)
                    want = [model.rows(d, i) for i in range(len(urls))]
                    rows = read(got)
                    c.tick()
                    c.check(rows == want, key(), lambda: '{} loaded from {}: got {}, expected {}'.format(
                        hist, d, rows, want))
                    c.check(got.asdict() == expected_md, key(), lambda: 'metadata in {}: {}'.format(
                        d, got.asdict()))
            for obj, d in live:
                want = [model.rows(d, i) for i in range(len(urls))]
                rows = read(obj)
                c.tick()
                c.check(rows == want, key(), lambda: '{} object at {}: got {}, expected {}'.format(
                    hist, d, rows, want))
        c.state(repr(sorted(model.files.items())))

    expected_md = TableGroup.fromvalue(copy.deepcopy(md)).asdict()
    reserved = set()

    def write(tg, d, zipped, rows, which):
        before = tree(c.dir)
        items = {}
        for i in which:
            items[urls[i]] = form(rows, rowform)
        fname = arg(c.dir / d / name)
        with cwd():
            tg.write(fname, _zipped=zipped, **items)
        for i in which:
            model.write(d, i, rows, zipped)
        reserved.add(os.path.join(d, name))
        files(before, {
            f for i in which for f in (model.path(d, i), model.path(d, i) + '.zip')}
            | {os.path.join(d, name)})
        if zipped:
            for i in which:
                p = model.path(d, i)
                with zipfile.ZipFile(str(c.dir / (p + '.zip'))) as z:
                    c.check(z.namelist() == [os.path.basename(p)], key(), str(z.namelist()))

    def files(before, touched):
        after = tree(c.dir)
        want = set(model.files) | reserved | {'existing/readme.txt'} | (
            {'orig/orig.json'} if made != 'value' else set())
        c.check(set(after) == want, key(), lambda: '{}: files {} expected {}'.format(
            hist, sorted(after), sorted(want)))
        for f, content in before.items():
            c.check(f in touched or after[f] == content, key(), '{} changed {}'.format(hist, f))
        return after

    def copy_to(tg, s, d):
        before = tree(c.dir)
        missing = [i for i in range(len(urls)) if model.rows(s, i) is None]
        dest = arg(c.dir / d)
        with cwd():
            try:
                tg.copy(dest)
            except FileNotFoundError:
                c.check(missing, key(), 'copy failed')
                c.outcome('missing')
                return False
        c.check(not missing, key(), 'data is missing')
        copies = [model.copy(s, d, i) for i in range(len(urls))]
        reserved.add(os.path.join(d, name))
        after = files(before, {t for _, t in copies} | {os.path.join(d, name)} | {
            model.path(d, i) for i in range(len(urls))})
        for f, t in copies:
            c.check(after[t] == before[f], key(), 'copied data differs: {} {}'.format(hist, t))
        return True

    which = list(range(len(urls)))
    if c.flag('not all tables'):
        which = which[1:]
    zipped = c.choose('zipped', [False, True])
    rows = c.choose('rows', ['plain', 'none', 'quoting', 'unicode'])
    hist.append(('write', 'src', zipped, rows, which))
    write(tg, 'src', zipped, ROWS[rows], which)
    check()
    with cwd():
        live.append((TableGroup.from_file(c.dir / 'src' / name), 'src'))
    for _ in range(c.every('operations', [2, 1] if c.tier == 'quick' else [3, 2, 1])):
        op = c.every('operation', ['copy', 'write', 'write zipped'])
        k = c.every('object', list(range(len(live))) + [None])
        if k is None:
            d = c.every('loaded from', [
                d for d in DIRS if (c.dir / d / name).exists()])
            obj = TableGroup.from_file(c.dir / d / name)
            live.append((obj, d))
        else:
            obj, d = live[k]
        to = c.every('to', DIRS)
        hist.append((op, k, d, to))
        if op == 'copy':
            done = copy_to(obj, d, to)
            i = next(i for i, (o, _) in enumerate(live) if o is obj)
            if not done:
                break
            live[i] = (obj, to)
        else:
            if not (c.dir / to).exists():
                os.makedirs(str(c.dir / to))
            write(obj, to, op != 'write', ROWS['other'], list(range(len(urls))))
        check()
    c.outcome(repr(sorted(model.files.items())))
    c.describe({'metadata': md, 'paths': how, 'rows as': rowform, 'history': hist})


def from_csv(c):
    """The table group made up for a data file without group metadata."""
    urls = ['t.csv']
    text = 'id,n\n1,x\n"a ""q""",\n'
    d = c.dir / 'in'
    d.mkdir()
    (d / 't.csv').write_text(text)
    how = c.every('metadata', ['none', 'table', 'table with @base'])
    if how != 'none':
        md = {'@context': [NS, {'@base': 'sub/'}] if 'base' in how else NS, 'url': 't.csv',
              'tableSchema': {'columns': [{'name': 'id'}, {'name': 'n'}]}}
        (d / 'm.json').write_text(json.dumps(md))
        if 'base' in how:
            (d / 'sub').mkdir()
            (d / 't.csv').rename(d / 'sub' / 't.csv')
    csvw = CSVW(str(d / 't.csv')) if how == 'none' else CSVW(str(d / 'm.json'))
    tg = csvw.tablegroup
    before = tree(d)
    rows = [{'id': '1', 'n': 'x'}, {'id': 'a "q"', 'n': None}]
    if how == 'none':
        rows[1]['n'] = ''  # There is no column description, hence, no null value.
    c.check([dict(r) for r in tg.tables[0]] == rows, 'read ' + how, '')
    dest = c.dir / 'out'
    # Rows cannot be written to a table without columns.
    op = c.every('operation', ['copy', 'write'] if how != 'none' else ['copy'])
    if op == 'copy':
        tg.copy(dest)
        mds = [p for p in dest.rglob('*.json')]
        c.check(len(mds) == 1, 'md ' + how, str(mds))
        md = mds[0]
    else:
        dest.mkdir()
        md = dest / 'md.json'
        tg.write(md, **{'t.csv': [dict(r) for r in tg.tables[0]]})
    c.check(tree(d) == before, 'original changed ' + how, '')
    shutil.rmtree(str(d))
    tg2 = TableGroup.from_file(md)
    got = [dict(r) for r in tg2.tables[0]]
    c.check(got == rows, 'group of {} {}'.format(how, op), str(got))
    if op == 'copy':
        got = [dict(r) for r in tg.tables[0]]
        c.check(got == rows, 'group of {} {} object'.format(how, op), str(got))
    c.outcome(how, op)
    c.state(how, op)
    c.describe([how, op])


HARNESSES = [
    Harness('history', history, 1, 1),
    Harness('from_csv', from_csv, 0, None),
    Harness('sizes', sizes.c30, None),
]
