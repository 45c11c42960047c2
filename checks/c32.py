import io
import os
import re
import sys
import json
import argparse
import contextlib
import decimal
import sqlite3
import unittest.mock

from mc.explore import Harness

from csvw import CSVW, TableGroup
from csvw import __main__ as cli
from csvw.utils import metadata2markdown

ASSUMPTIONS = [
    'the tools are called as the console scripts do: with sys.argv set, or with parsed arguments',
    'where several files are described at once, they have the suffix .csv or .tsv and different '
    'stems (a limitation of frictionless)',
    'the exact text of problems is left open, that each of them is reported with -v is not',
]
CONTEXT = 'http://www.w3.org/ns/csvw'


def call(name, argv, parsed=None):
    """(exit status or exception, stdout): run a console script in this process."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            if parsed is not None:
                rc = getattr(cli, name)(argparse.Namespace(**parsed), test=True)
            else:
                with unittest.mock.patch.object(sys, 'argv', [name] + argv):
                    rc = getattr(cli, name)()
        except SystemExit as e:
            rc = e.code or 0
        except Exception as e:
            rc = type(e).__name__
    return rc, re.sub('\x1b' + r'\[[0-9;]*m', '', out.getvalue())


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(str(d))
    try:
        yield
    finally:
        os.chdir(old)


def snapshot(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob('*')) if p.is_file()}


ROWS = [('1', 'x', '1.5'), ('2', 'ü "y"', ''), ('3', '', '-2')]
VALUES = [(1, 'x', '1.5'), (2, 'ü "y"', None), (3, None, '-2')]


def columns():
    return [{'name': 'a', 'datatype': 'integer', 'required': True}, {'name': 'b'},
            {'name': 'c', 'datatype': 'decimal'}]


def to_csv(rows, delimiter=',', header=('a', 'b', 'c')):
    return ''.join(
        delimiter.join('"{}"'.format(s.replace('"', '""')) if set(s) & set('",; \t') else s
                       for s in row) + '\r\n' for row in [header] + rows).encode('utf8')


KINDS = ['group', 'table', 'csv', 'adjacent', 'directory']
# what is wrong -> possible exit statuses of csvwvalidate
PROBLEMS = [
    ('none', {0}), ('value', {1}), ('required', {1}), ('key', {1}), ('reference', {1}),
    ('datatype', {1}), ('lang', {1}), ('header', {1}), ('context', {2}), ('broken', {1, 2}),
    ('list', {1, 2}), ('nodata', {1, 2}), ('nothing', {2}), ('bytes', {1, 2}), ('two', {1}),
]


def dataset(d, kind, problem, props=None, delimiter=None):
    """Create the files of a dataset in directory d and return the name of the one to process."""
    rows, cols = list(ROWS), columns()
    schema = {'columns': cols, 'primaryKey': 'a'}
    header = ('a', 'b', 'c')
    if problem in ('value', 'two'):
        rows[1] = ('x1',) + rows[1][1:]
    if problem == 'two':
        rows[2] = rows[2][:2] + ('x2',)
    if problem == 'required':
        rows[1] = ('',) + rows[1][1:]
    if problem == 'key':
        rows[2] = ('1',) + rows[2][1:]
    if problem == 'datatype':
        cols[1]['datatype'] = 'x3'
    if problem == 'header':
        cols[1] = {'name': 'z', 'titles': 'x4'}
    table = {'url': 'a.csv', 'tableSchema': schema}
    md = {'@context': CONTEXT}
    if problem == 'lang':
        md['@context'] = [CONTEXT, {'@language': 'x--6'}]
    if problem == 'context':
        md['@context'] = 'http://example.org/x7'
    if props:
        md.update(props)
    if delimiter:
        table['dialect'] = {'delimiter': delimiter}
    if kind == 'group':
        md['tables'] = [table, {'url': 'sub/b.csv', 'tableSchema': {
            'columns': [{'name': 'id'}, {'name': 'a', 'datatype': 'integer'}],
            'primaryKey': 'id',
            'foreignKeys': [{'columnReference': 'a', 'reference': {
                'resource': 'a.csv', 'columnReference': 'a'}}]}}]
    else:
        md.update(table)
    main = {'csv': 'a.csv', 'adjacent': 'a.csv', 'directory': 'a.csv'}.get(kind, 'md.json')
    mdname = {'csv': None, 'adjacent': 'a.csv-metadata.json',
              'directory': 'csv-metadata.json'}.get(kind, 'md.json')
    data = to_csv(rows, delimiter or ',', header)
    if problem == 'bytes':
        data = data.replace('ü'.encode('utf8'), b'\xff')
    if problem != 'nodata' and (problem != 'nothing' or main != 'a.csv'):
        (d / 'a.csv').write_bytes(data)
    if kind == 'group':
        (d / 'sub').mkdir()
        (d / 'sub' / 'b.csv').write_bytes(
            b'id,a\r\ni1,%s\r\ni2,1\r\n' % (b'9' if problem == 'reference' else b'3'))
    if mdname and not (problem == 'nothing' and main == 'md.json'):
        text = json.dumps(md)
        if problem == 'broken':
            text = text[:-1]
        if problem == 'list':
            text = '[' + text + ']'
        (d / mdname).write_text(text, encoding='utf8')
    return main


def relevant(kind, problem):
    if kind == 'csv':  # there is no metadata
        return problem in ('none', 'nothing', 'bytes')
    if kind == 'directory':
        return problem == 'none'  # only looked for by URL, thus like csv
    if problem == 'reference':
        return kind == 'group'
    if problem in ('nodata', 'nothing') and kind == 'adjacent':
        return False  # metadata for a file that does not exist
    return True


def locate(c, d, main):
    """The argument given, and the directory to run the tool from."""
    style = c.choose('argument', ['relative', 'absolute', 'below', 'dot', 'up'])
    if style == 'absolute':
        (d.parent / 'x' / 'other').mkdir()
        return str(d / main), d / 'other'
    if style == 'below':
        return d.name + '/' + main, d.parent
    if style == 'dot':
        return './' + main, d
    if style == 'up':
        (d / 'other').mkdir()
        return '../' + main, d / 'other'
    return main, d


def validate(c):
    """csvwvalidate: the exit status and what is printed tell whether the dataset is valid."""
    kind = c.every('kind', KINDS)
    problem, expected = c.every('problem', [p for p in PROBLEMS if relevant(kind, p[0])])
    d = c.dir
    main = dataset(d, kind, problem)
    arg, where = locate(c, d, main)
    verbose = c.choose('verbose', [None, '-v', '--verbose', 'last'])
    parsed = c.flag('parsed')
    before = snapshot(d)
    key = json.dumps([kind, problem])
    c.describe((kind, problem, arg, verbose))
    with cwd(where):
        argv = {None: [arg], 'last': [arg, '-v']}.get(verbose, [verbose, arg])
        rc, out = call('csvwvalidate', argv, dict(url=arg, verbose=bool(verbose)) if parsed else None)
        api = None
        if rc in (0, 1):
            api = bool(CSVW(arg, validate=True).is_valid)
    c.check(rc in expected, key, 'exit status {}, expected {}: {}'.format(rc, expected, out[:500]))
    if api is not None:
        c.check(api == (rc == 0), key, 'exit status {}, but is_valid {}'.format(rc, api))
    lines = out.split('\n')
    c.check(lines[0] == ('OK' if rc == 0 else 'FAIL') and lines[-1] == '', key, out[:500])
    if rc == 0 or not verbose:
        c.check(len(lines) == 2, key, out[:500])
    else:
        c.check(len(lines) > 2 and all(x for x in lines[1:-1]), key, out[:500])
        if problem in ('value', 'two', 'lang', 'context') and rc == 1:
            for word in {'value': ['x1'], 'two': ['x1', 'x2']}.get(problem, []):
                c.check(word in out, key, '{} not reported: {}'.format(word, out[:500]))
    c.check(snapshot(d) == before, key, 'files were changed')
    c.outcome(kind, problem, rc, len(lines))
    c.state(kind, problem, bool(verbose))


PROPS = [
    {}, {'dc:title': 'A title'}, {'dc:title': 'Über', 'dc:license': 'CC', 'dc:source': 's'},
    {'dc:description': 'two\nlines'},
    {'dc:title': {'@value': 'tagged', '@language': 'en'}, 'dc:license': ['x', 'y']},
]


def typed(kind, short=None):
    if short is not None:
        return typed(kind)[:short if isinstance(short, int) else 0]
    if kind in ('csv', 'directory'):
        return [tuple(v if v else None for v in row) for row in ROWS]
    return [(a, b, None if x is None else decimal.Decimal(x)) for a, b, x in VALUES]


def content(p):
    conn = sqlite3.connect(str(p))
    try:
        names = [r[0] for r in conn.execute("select name from sqlite_master where type = 'table'")]
        res = {}
        for n in names:
            cur = conn.execute('select * from `{}`'.format(n))
            cols = [x[0] for x in cur.description]
            res[n] = [dict(zip(cols, row)) for row in cur.fetchall()]
        return res
    finally:
        conn.close()


def check_db(c, p, kind, key, short=None):
    got = content(p)
    exp = {'a.csv': [dict(zip('abc', row)) for row in typed(kind, short)]}
    if short in (0, 'nothing'):  # there may be an empty table or none
        got.setdefault('a.csv', [])
    if kind == 'group':
        exp['sub/b.csv'] = [{'id': 'i1', 'a': 3}, {'id': 'i2', 'a': 1}]
    c.check(set(got) == set(exp), key, 'tables {}'.format(sorted(got)))
    for name, rows in exp.items():
        c.check(len(got[name]) == len(rows), key, got[name])
        for g, e in zip(got[name], rows):
            c.check(set(g) == set(e), key, g)
            for k in e:
                v = g[k]
                if isinstance(e[k], decimal.Decimal):
                    v = decimal.Decimal(str(v))
                if kind in ('csv', 'directory') and v == '':
                    v = None
                c.check(v == e[k], key, '{}: {!r}, expected {!r}'.format(k, v, e[k]))
                c.tick()


def convert(c):
    """
    csvw2json, csvw2sqlite, csvw2datasette and csvw2markdown: what they write is what the dataset
    contains, and nothing but the output is written.
    """
    kind = c.every('kind', KINDS)
    tool = c.every('tool', ['csvw2json', 'csvw2sqlite', 'csvw2datasette', 'csvw2markdown'])
    if kind != 'group' and tool in ('csvw2sqlite', 'csvw2markdown'):
        return  # these only accept metadata describing a TableGroup
    props = c.choose('properties', PROPS) if kind in ('group', 'table', 'adjacent') else {}
    delimiter = c.choose('delimiter', [None, ';', '\t']) \
        if kind in ('group', 'table', 'adjacent') else None
    short = c.choose('rows', [None, 1, 0, 'nothing']) if kind == 'csv' else None
    d = c.dir
    main = dataset(d, kind, 'none', props, delimiter)
    if short is not None:
        (d / main).write_bytes(b'' if short == 'nothing' else to_csv(ROWS[:short]))
    arg, where = locate(c, d, main)
    parsed = c.flag('parsed')
    again = tool in ('csvw2sqlite', 'csvw2datasette') and c.flag('again')
    before = snapshot(d)
    key = json.dumps([kind, tool])
    c.describe((kind, tool, props, delimiter, arg, again))
    written = set()
    with cwd(where):
        if tool == 'csvw2json':
            rc, out = call(tool, [arg], dict(url=arg) if parsed else None)
            c.check(rc == 0, key, rc)
            got = json.loads(out)
            c.equal(got, json.loads(json.dumps(CSVW(arg).to_json())), key)
            rows = [r['describes'][0] for r in got['tables'][0]['row']]
            exp = [
                {k: float(v) if isinstance(v, decimal.Decimal) else v
                 for k, v in zip('abc', row) if v is not None} for row in typed(kind, short)]
            c.equal(rows, exp, key)
        elif tool == 'csvw2markdown':
            rc, out = call(tool, [arg], dict(url=arg) if parsed else None)
            c.check(rc == 0, key, rc)
            c.equal(out, metadata2markdown(TableGroup.from_file(arg), link_files=True) + '\n', key)
        elif tool == 'csvw2sqlite':
            target = d / 'out.sqlite'
            out_arg = os.path.relpath(str(target), str(where))
            old = c.choose('existing', [None, 'empty', 'database', 'text'])
            if old == 'database':
                conn = sqlite3.connect(str(target))
                conn.execute('create table `a.csv` (z text)')
                conn.execute('insert into `a.csv` values (1)')
                conn.commit()
                conn.close()
            elif old:
                target.write_bytes(b'' if old == 'empty' else b'text')
            for _ in range(2 if again else 1):
                rc, out = call(
                    tool, [arg, out_arg], dict(url=arg, output=out_arg) if parsed else None)
                c.check(rc == 0, key, rc)
                check_db(c, target, kind, key)
            written = {'out.sqlite'}
        else:
            outdir = c.choose('outdir', ['.', 'dir', '-o', '--outdir='])
            target = where
            argv = [arg]
            if outdir != '.':
                target = d / 'o'
                target.mkdir()
                rel = os.path.relpath(str(target), str(where))
                argv = {'dir': [arg, '--outdir', rel], '-o': ['-o', rel, arg],
                        '--outdir=': ['--outdir=' + rel, arg]}[outdir]
            import pathlib
            rc, out = call(tool, argv, dict(
                url=arg, outdir=pathlib.Path(os.path.relpath(str(target), str(where)))
            ) if parsed else None)
            c.check(rc == 0, key, '{} {}'.format(rc, out))
            db, md = target / 'datasette.db', target / 'datasette-metadata.json'
            check_db(c, db, kind, key, short)
            got = json.loads(md.read_text(encoding='utf8'))
            exp = {k: props['dc:' + k] for k in ('title', 'description', 'license')
                   if 'dc:' + k in props}
            c.equal(got, exp, key)
            c.check('datasette.db' in out and 'datasette-metadata.json' in out, key, out)
            written = {os.path.relpath(str(p), str(d)) for p in (db, md)}
            if again:  # an existing database is not overwritten
                state = snapshot(d)
                rc, out = call(tool, argv)
                c.check(rc != 0 and snapshot(d) == state, key, 'overwritten')
    if target_outside(written):
        for p in written:
            os.unlink(str(d / p))
    after = snapshot(d)
    for p in written:
        after.pop(p, None)
    c.equal(after, before, key, 'other files')
    c.outcome(kind, tool, delimiter, again)
    c.state(kind, tool, str(props), delimiter, again)


def target_outside(written):
    return any(p.startswith('..') for p in written)


# name of the file, delimiter, rows
FILES = [
    ('a.csv', ',', [('1', 'x'), ('2', 'ü "y"')]),
    ('s.csv', ';', [('1', 'x,y'), ('2', 'z')]),
    ('t.tsv', '\t', [('1', 'x'), ('2', 'z w')]),
    ('t.txt', ',', [('1', 'x'), ('2', 'z')]),
    ('sub/c.csv', ',', [('10', 'p'), ('20', 'q')]),
    ('n.csv', ',', [('1.5', 'true'), ('-2.25', 'false')]),
    ('sub/d', '!', [('10', 'p,q'), ('20', 'r;s')]),  # not described unless the delimiter is given
    ('sub/e.csv', '!', [('1', 'p,q'), ('2', 'r,s')]),
    ('sub/f.csv', '!', [('1', 'p,q'), ('3', 't,s')]),
]
SETS = [[0], [1], [2], [3], [4], [5], [0, 4], [4, 0], [0, 2, 5], [1, 4], [0, 1, 2, 4, 5], 'glob', [6], [7], [8, 7]]


def describe(c):
    """
    csvwdescribe: the metadata printed describes all the files, in order, with the columns named in
    the headers, and reading the files with it gives their content. The frictionless command runs
    in a process of its own.
    """
    which = c.every('files', SETS)
    files = FILES[:6] if which == 'glob' else [FILES[i] for i in which]
    parsed = c.flag('parsed')
    dl = None
    if len({f[1] for f in files}) == 1:
        dl = c.choose('delimiter', ['given'] if files[0][1] == '!' else [None, 'given'])
    d = c.dir
    for name, delim, rows in FILES:
        (d / name).parent.mkdir(exist_ok=True)
        (d / name).write_bytes(to_csv(rows, delim, ('a', 'b')))
    args = [f[0] for f in files]
    if which == 'glob':
        args, files = ['*.csv'], [f for f in sorted(FILES) if re.match(r'[a-z]\.csv', f[0])]
    argv = args if dl is None else ['--delimiter', files[0][1]] + args
    c.describe(argv)
    before = snapshot(d)
    key = json.dumps(argv)
    with cwd(d):
        rc, out = call('csvwdescribe', argv, dict(
            csv=args, delimiter=files[0][1] if dl else None) if parsed else None)
        c.check(rc == 0, key, '{} {}'.format(rc, out))
        c.check(snapshot(d) == before, key, 'files were changed')
        md = json.loads(out)
        c.equal([t['url'] for t in md['tables']], [f[0] for f in files], key)
        (d / 'md.json').write_text(out, encoding='utf8')
        tg = TableGroup.from_file('md.json')
        for (name, delim, rows), table in zip(files, tg.tables):
            c.equal([x.name for x in table.tableSchema.columns], ['a', 'b'], key)
            exp = [{'a': decimal.Decimal(a), 'b': {'true': True, 'false': False}.get(b, b)}
                   for a, b in rows]
            c.equal(list(map(dict, table)), exp, key)
        c.check(CSVW('md.json', validate=True).is_valid, key, 'not valid')
    c.outcome(key)
    c.state(key)


HARNESSES = [
    Harness('validate', validate, 1, 3),
    Harness('convert', convert, 1, 3),
    Harness('describe', describe, 1, 2),
]
