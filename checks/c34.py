import argparse
import builtins
import contextlib
import errno
import io
import json
import logging
import os
import pathlib
import resource
import sqlite3
import sys
import tempfile
import warnings
import zipfile

from mc.explore import Harness

from csvw import CSVW, TableGroup
from csvw import __main__ as cli
from csvw.db import Database
from csvw.dsv import (
    UnicodeDictReader, UnicodeReader, UnicodeReaderWithLineNumber, UnicodeWriter, add_rows,
    filter_rows_as_dict, iterrows, rewrite)
from csvw.frictionless import DataPackage
from csvw.utils import metadata2markdown

LEVEL = 'fault_enumeration'
RULE = ('one execution per (operation, kind of data, consumption, fault kind); within it each fault site '
        'is hit once: every audited file-system event (it fails with OSError), every size at which storage '
        'is full, every call of a callback or iterator; distinct (operation, data, site, result) are counted')
ASSUMPTIONS = [
    'a file counts as closed if close was called before the operation ended, no matter whether the '
    'garbage collector would have closed it',
    'the connection of a Database without a file stays open as long as the object lives',
    'an iterator which is not exhausted is closed by the caller (generator.close)',
]

ROWS = {'a.csv': ['a,b', '1,x', '2,"y', 'z"', '3,z'], 'r.csv': ['id,ref', 'p,1', 'q,3', 'r,1']}
MD = {
    '@context': 'http://www.w3.org/ns/csvw',
    'dc:title': 'T',
    'tables': [
        {'url': 'a.csv', 'tableSchema': {'primaryKey': 'a', 'columns': [
            {'name': 'a', 'datatype': 'integer', 'required': True}, {'name': 'b'}]}},
        {'url': 'r.csv', 'tableSchema': {
            'columns': [{'name': 'id'}, {'name': 'ref', 'datatype': 'integer'}],
            'foreignKeys': [{'columnReference': 'ref', 'reference': {
                'resource': 'a.csv', 'columnReference': 'a'}}]}}]}
PACKAGE = {
    'name': 'p', 'resources': [{
        'name': 'a', 'path': 'a.csv', 'profile': 'tabular-data-resource', 'scheme': 'file', 'format': 'csv',
        'schema': {'fields': [{'name': 'a', 'type': 'integer'}, {'name': 'b', 'type': 'string'}]}}]}
# What is wrong with the data: line to insert (or bytes) at one of the positions
DEFECTS = {
    'value': b'x,x', 'quote': b'9,"x"y', 'open': b'9,"x', 'bytes': b'9,\xff', 'duplicate': b'1,1',
    'short': b'7', 'long': b'8,x,y', 'empty': b'', 'required': b',x', 'huge': b'9,' + b'h' * 140000,
}
WHOLE = ['missing', 'nothing', 'directory', 'corrupt', 'crc', 'no member', 'header']


def silent():
    log = logging.getLogger('c34')
    log.handlers[:] = [logging.NullHandler()]
    log.propagate = False
    return log


class Boom(Exception):
    pass


def build(d, kind, where, line, source):
    """The dataset, in directory `d`."""
    for p in sorted(d.rglob('*'), reverse=True):
        p.rmdir() if p.is_dir() and not p.is_symlink() else p.unlink()
    for name, lines in ROWS.items():
        raw = [s.encode() for s in lines]
        if name == where:
            if kind in DEFECTS:
                raw.insert(line if line <= 2 else len(raw), DEFECTS[kind])
            elif kind == 'header':
                raw[0] = b'c,d'
            elif kind == 'nothing':
                raw = []
        data = b''.join(s + b'\n' for s in raw)
        path = d / name
        if name == where and kind == 'missing':
            continue
        if name == where and kind == 'directory':
            path.mkdir()
        elif source == 'zip':
            path = d / (name + '.zip')
            member = 'other' if name == where and kind == 'no member' else name
            with zipfile.ZipFile(str(path), 'w', compression=zipfile.ZIP_STORED) as z:
                z.writestr(member, data)
            if name == where and kind == 'corrupt':
                path.write_bytes(path.read_bytes()[:50])
            if name == where and kind == 'crc':
                path.write_bytes(path.read_bytes().replace(b'\n3,z', b'\n3,y').replace(b'p,1', b'p,2'))
        else:
            path.write_bytes(data)
    (d / 'md.json').write_text(json.dumps(MD), encoding='utf8')
    (d / 'datapackage.json').write_text(json.dumps(PACKAGE), encoding='utf8')


# -- monitors -------------------------------------------------------------------------------------
_audit = {'dir': None, 'n': 0, 'k': None, 'errno': errno.EACCES, 'installed': False}


def _hook(event, args):
    if _audit['dir'] is None:
        return
    if event == 'open' or event.startswith(('os.', 'shutil.', 'tempfile.', 'sqlite3.connect')):
        if not event.startswith('sqlite3.connect/') and args and isinstance(args[0], (str, bytes, os.PathLike)):
            p = os.fspath(args[0])
            p = p.decode('utf8', 'replace') if isinstance(p, bytes) else p
            # Relative paths are relative to the dataset; everything else belongs to the interpreter.
            if p.startswith('/') and not p.startswith(_audit['dir']):
                return
            _audit['n'] += 1
            if _audit['n'] == _audit['k']:
                raise OSError(_audit['errno'], os.strerror(_audit['errno']), p)


class Monitor:
    """Records each file and database connection which is opened."""

    def __init__(self, roots, k=None, err=errno.EACCES, limit=None):
        self.roots = roots
        self.k, self.err, self.limit = k, err, limit
        self.files, self.connections = [], []

    def __enter__(self):
        self.before = set(os.listdir('/proc/self/fd'))
        if not _audit['installed']:
            sys.addaudithook(_hook)
            _audit['installed'] = True
        self.open, self.connect = builtins.open, sqlite3.connect

        def open_(*args, **kw):
            fp = self.open(*args, **kw)
            self.files.append((fp, args[0] if args else kw.get('file')))
            return fp

        def connect(database, *args, **kw):
            con = self.connect(database, *args, **kw)
            if database != ':memory:':
                self.connections.append((con, database))
            return con

        builtins.open = io.open = open_
        sqlite3.connect = connect
        _audit.update(dir=self.roots[0], n=0, k=self.k, errno=self.err)
        self.rlimit = resource.getrlimit(resource.RLIMIT_FSIZE)
        if self.limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.rlimit[1]))
        return self

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.rlimit)
        self.events = _audit['n']
        _audit.update(dir=None, k=None)
        builtins.open = io.open = self.open
        sqlite3.connect = self.connect

    def left_open(self, allowed=()):
        res = ['file {}'.format(os.path.basename(str(name))) for fp, name in self.files
               if not fp.closed and not any(fp is x for x in allowed)]
        for con, name in self.connections:
            try:
                con.total_changes
                res.append('database {}'.format(os.path.basename(str(name))))
            except sqlite3.ProgrammingError:
                pass
        mine = {fp.fileno() for fp in allowed if not fp.closed}
        for fd in os.listdir('/proc/self/fd'):
            try:
                target = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if target.startswith(tuple(self.roots)) and int(fd) not in mine and fd not in self.before:
                res.append('descriptor of ' + os.path.basename(target))
        return sorted(res)


# -- operations -----------------------------------------------------------------------------------
def consume(gen, n):
    """Reads n rows, then closes the generator, or (n < 0) throws an exception into it."""
    res = []
    try:
        for _ in range(abs(n)):
            res.append(next(gen))
    except StopIteration:
        return res
    if n < 0 and res:
        with contextlib.suppress(Boom, StopIteration):
            gen.throw(Boom())
    gen.close()
    return res


class Env:
    def __init__(self, d, n, at):
        self.d, self.n, self.at = d, n, at
        self.mine = []

    def group(self):
        return TableGroup.from_file(self.d / 'md.json')

    def tables(self):
        return self.group().tables

    def db(self, fname='t.sqlite'):
        return Database(self.group(), fname=self.d / fname if fname else None)

    def rows(self, *rows, bad=None):
        """Some rows, failing in the middle."""
        for i, row in enumerate(rows):
            if i == self.at:
                if bad is None:
                    raise Boom()
                yield bad
            yield row

    def call(self, *args):
        self.at -= 1
        if self.at < 0:
            raise Boom()
        return True

    def opened(self, name='a.csv', mode='r'):
        if 'r' in mode and not (self.d / name).exists():
            raise FileNotFoundError(name)
        self.mine.append((self.d / name).open(mode, encoding='utf8', newline=''))
        return self.mine[-1]


def with_rows(cls, f, e, **kw):
    res = []
    with cls(f, **kw) as reader:
        for row in reader:
            res.append(row)
            if len(res) == abs(e.n):
                if e.n < 0:
                    raise Boom()
                break
    return res


def write_rows(f, e, **kw):
    with UnicodeWriter(f, **kw) as w:
        w.writerow(['h', 'i'])
        w.writerows(e.rows(['1', 'x'], ['2', 'y'], **({'bad': ['\ud800']} if e.n % 2 else {})))
        return w.read() if f is None else None


def database(e, fname, how, force=False):
    db = e.db(fname)
    a = [{'a': 1, 'b': 'x'}, {'a': 2, 'b': 'y'}]
    r = [{'id': 'p', 'ref': 1}]
    if how == 'write':
        db.write(_force=force, **{'a.csv': list(e.rows(*a, bad={'a': 1, 'b': 'z'})) if e.at < 2 else a, 'r.csv': r})
    elif how == 'unknown':
        db.write(_force=force, **{'a.csv': a + [{'a': 5, 'nope': 1}]})
    elif how == 'iterator':
        db.write(_force=force, **{'a.csv': e.rows(*a)})
    elif how == 'dangling':
        db.write(_force=force, **{'a.csv': a, 'r.csv': r + [{'id': 'q', 'ref': 7}]})
    elif how == 'twice':
        db.write(_force=True, **{'a.csv': a, 'r.csv': r})
        db.write(_force=force, **{'a.csv': a})
    else:
        db.write_from_tg(_force=force)
    return db.read()


def write_table(e, rows, bad, **kw):
    return e.tables()[0].write(e.rows(*rows, bad=bad), **kw)


def command(name, url, output=None):
    return lambda e: getattr(cli, name)(argparse.Namespace(
        url=str(e.d / url), verbose=True, output=output and e.d / output, outdir=e.d), test=True)


DICTS = [{'a': 1, 'b': 'x'}, {'a': 2, 'b': 'y'}]
# name: (function, reads rows (how many), has a callback or rows provided by the caller, writes)
OPS = {
    'iterrows': (lambda e: consume(iterrows(str(e.d / 'a.csv')), e.n), 1, 0, 0),
    'iterrows dicts': (lambda e: consume(iterrows(e.d / 'a.csv', dicts=True), e.n), 1, 0, 0),
    'iterrows namedtuples': (lambda e: consume(iterrows(e.d / 'a.csv', namedtuples=True), e.n), 1, 0, 0),
    'iterrows file': (lambda e: consume(iterrows(e.opened()), e.n), 1, 0, 0),
    'reader': (lambda e: with_rows(UnicodeReader, e.d / 'a.csv', e), 1, 0, 0),
    'dict reader': (lambda e: with_rows(UnicodeDictReader, e.d / 'a.csv', e), 1, 0, 0),
    'line numbers': (lambda e: with_rows(UnicodeReaderWithLineNumber, str(e.d / 'a.csv'), e), 1, 0, 0),
    'reader file': (lambda e: with_rows(UnicodeReader, e.opened(), e), 1, 0, 0),
    'writer': (lambda e: write_rows(e.d / 'w.csv', e), 1, 1, 1),
    'writer encoding': (lambda e: write_rows(str(e.d / 'w.csv'), e, encoding='utf-16'), 1, 1, 1),
    'writer file': (lambda e: write_rows(e.opened('w.csv', 'w'), e), 1, 1, 1),
    'writer memory': (lambda e: write_rows(None, e), 1, 1, 0),
    'rewrite': (lambda e: rewrite(e.d / 'a.csv', lambda i, row: e.call() and row[:1] or row), 0, 1, 1),
    'rewrite encoding': (lambda e: rewrite(e.d / 'a.csv', lambda i, row: e.call() and row, encoding='latin1'), 0, 1, 1),
    'rewrite bad': (lambda e: rewrite(e.d / 'a.csv', lambda i, row: row if i != e.at else ['\udfff']), 0, 1, 1),
    'filter': (lambda e: filter_rows_as_dict(e.d / 'a.csv', e.call), 0, 1, 1),
    'add': (lambda e: add_rows(e.d / 'a.csv', *[r if i != e.at else ['\udfff'] for i, r in enumerate(['x'] * 3)]), 0, 1, 1),
    'add new': (lambda e: add_rows(e.d / 'n.csv', ['x'], ['y']), 0, 0, 1),
    'load': (lambda e: e.group() and None, 0, 0, 0),
    'read': (lambda e: e.group().read(), 0, 0, 0),
    'iterate': (lambda e: consume(iter(e.tables()[0]), e.n), 1, 0, 0),
    'iterate log': (lambda e: consume(e.tables()[0].iterdicts(log=silent()), e.n), 1, 0, 0),
    'iterate lenient': (lambda e: consume(e.tables()[0].iterdicts(strict=False, with_metadata=True), e.n), 1, 0, 0),
    'iterate file name': (lambda e: consume(e.tables()[1].iterdicts(fname=str(e.d / 'r.csv')), e.n), 1, 0, 0),
    'iterate file': (lambda e: consume(e.tables()[0].iterdicts(fname=e.opened()), e.n), 1, 0, 0),
    'keys': (lambda e: [t.check_primary_key() for t in e.tables()], 0, 0, 0),
    'keys log': (lambda e: [t.check_primary_key(log=silent()) for t in e.tables()], 0, 0, 0),
    'references': (lambda e: e.group().check_referential_integrity(), 0, 0, 0),
    'references log': (lambda e: e.group().check_referential_integrity(log=silent(), strict=True), 0, 0, 0),
    'copy': (lambda e: e.group().copy(e.d / 'sub'), 0, 0, 1),
    'write': (lambda e: write_table(e, DICTS, None), 0, 1, 1),
    'write bad': (lambda e: write_table(e, DICTS, {'a': 'x'}), 0, 1, 1),
    'write surplus': (lambda e: write_table(e, DICTS, {'q': 1}, strict=True), 0, 1, 1),
    'write lists zipped': (lambda e: write_table(e, [[1, 'x'], [2, 'y']], [1], _zipped=True), 0, 1, 1),
    'write file name': (lambda e: write_table(e, DICTS, {'b': '\ud800'}, fname=e.d / 'w.csv', _zipped=e.n > 1), 1, 1, 1),
    'write memory': (lambda e: write_table(e, DICTS, {'b': 1}, fname=None), 0, 1, 0),
    'write group': (lambda e: e.group().write(e.d / 'new' / 'md.json', **{
        'a.csv': e.rows(*DICTS), 'r.csv': [{'id': 'p', 'ref': 1}]}), 0, 1, 1),
    'write group zipped': (lambda e: e.group().write(e.d / 'md2.json', _zipped=True, **{
        'a.csv': e.rows(*DICTS, bad={'a': 'x'}), 'r.csv': []}), 0, 1, 1),
    'to_file': (lambda e: e.group().to_file(e.d / 'md3.json') and None, 0, 0, 1),
    'json': (lambda e: CSVW(str(e.d / 'md.json')).to_json(), 0, 0, 0),
    'json minimal': (lambda e: CSVW(str(e.d / 'md.json')).to_json(minimal=True), 0, 0, 0),
    'json csv': (lambda e: CSVW(str(e.d / 'a.csv')).to_json(), 0, 0, 0),
    'json override': (lambda e: CSVW(str(e.d / 'a.csv'), md_url=str(e.d / 'md.json')).to_json(), 0, 0, 0),
    'valid': (lambda e: CSVW(str(e.d / 'md.json'), validate=True).is_valid, 0, 0, 0),
    'valid csv': (lambda e: CSVW(str(e.d / 'a.csv'), validate=True).is_valid, 0, 0, 0),
    'markdown': (lambda e: metadata2markdown(e.group(), link_files=True), 0, 0, 0),
    'package': (lambda e: DataPackage(e.d / 'datapackage.json').to_tablegroup().read(), 0, 0, 0),
    'db from tg': (lambda e: database(e, 't.sqlite', 'tg'), 0, 0, 1),
    'db from tg forced': (lambda e: database(e, 't.sqlite', 'tg', True), 0, 0, 1),
    'db write': (lambda e: database(e, 't.sqlite', 'write'), 0, 1, 1),
    'db unknown': (lambda e: database(e, 't.sqlite', 'unknown'), 0, 0, 1),
    'db iterator': (lambda e: database(e, 't.sqlite', 'iterator'), 0, 1, 1),
    'db dangling': (lambda e: database(e, 't.sqlite', 'dangling'), 0, 0, 1),
    'db twice': (lambda e: database(e, 't.sqlite', 'twice'), 0, 0, 1),
    'db twice forced': (lambda e: database(e, 't.sqlite', 'twice', True), 0, 0, 1),
    'db memory': (lambda e: database(e, None, 'tg'), 0, 0, 0),
    'csvwvalidate': (command('csvwvalidate', 'md.json'), 0, 0, 0),
    'csvw2json': (command('csvw2json', 'md.json'), 0, 0, 0),
    'csvw2json csv': (command('csvw2json', 'a.csv'), 0, 0, 0),
    'csvw2markdown': (command('csvw2markdown', 'md.json'), 0, 0, 0),
    'csvw2sqlite': (command('csvw2sqlite', 'md.json', 'o.sqlite'), 0, 0, 1),
    'csvw2datasette': (command('csvw2datasette', 'md.json'), 0, 0, 1),
}


def resources(c):
    """Each operation, on good and bad data, with faults at each point."""
    name = c.every('operation', list(OPS))
    fn, reads, calls, writes = OPS[name]
    source = c.choose('source', ['plain', 'zip'])
    kind = c.choose('defect', [None] + list(DEFECTS) + [k for k in WHOLE if source == 'zip' or k not in (
        'corrupt', 'crc', 'no member')])
    where = c.choose('where', ['a.csv', 'r.csv']) if kind else None
    line = c.choose('line', [2, 1, 9]) if kind in DEFECTS else None
    n = c.choose('rows', [100, 0, 1, 2, -1, -2]) if reads else 100
    at = c.choose('failing call', [99, 0, 1, 2]) if calls else 99
    fault = c.choose('fault', [None, 'events'] + (['full'] if writes else []))
    err = c.choose('errno', [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ENOSPC]) if fault == 'events' else None
    base = c.dir
    d = base / 'd'
    d.mkdir()
    roots = [str(base), tempfile.gettempdir()]

    def once(what, **kw):
        build(d, kind, where, line, source)
        e = Env(d, n, at)
        key = json.dumps([name, source, kind, where, line, n, at, what])
        c.describe([name, source, kind, where, line, n, at, what])
        error = res = None
        with Monitor(roots, **kw) as m:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    res = fn(e)
                except BaseException as ex:
                    error = ex
        left = m.left_open(e.mine)
        c.check(not left, key, lambda: 'still open: {} ({!r})'.format(left, error))
        for fp in e.mine:
            c.check(not fp.closed, key, 'the file of the caller was closed')
            with contextlib.suppress(OSError):
                fp.close()
        c.trace()
        c.state(name, source, kind, where, line, n, at, what)
        c.outcome(name, type(error).__name__, repr(res)[:500] if error is None and what is None else None)
        return m, error, res

    m, error, _ = once(None)
    if fault == 'events':
        for k in range(1, m.events + 1):
            once(['event', k, err], k=k, err=err)
    elif fault == 'full':
        for limit in [0, 1, 5, 20, 100, 600, 4096, 10000]:
            once(['full', limit], limit=limit)
    c.check(m.events or kind or source == 'zip' or n == 0 or name.endswith('memory'), 'vacuous', lambda: repr((name, m.files, error)))


HARNESSES = [
    Harness('resources', resources, 2, 3),
]
