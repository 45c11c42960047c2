import os
import sys
import json
import sqlite3
import resource
import contextlib

from mc.explore import Harness

from csvw import TableGroup
from csvw.db import Database

LEVEL = 'fault_enumeration'
ASSUMPTIONS = [
    'SQLite itself is correct: a transaction is atomic, a process which dies loses an open one',
    'a database is written by one process at a time',
    'a forced write which fails may have removed the old database; an attempt to read a database '
    'which does not exist may create an empty file',
]


def group(pk=True):
    return TableGroup.fromvalue({'tables': [
        {'url': 't', 'tableSchema': {
            'columns': [{'name': 'id'}, {'name': 'f', 'separator': ' '}, {'name': 'x', 'datatype': 'integer'},
                        {'name': 'b', 'datatype': 'boolean'}, {'name': 's', 'separator': ';', 'required': True}],
            'primaryKey': ['id'],
            'foreignKeys': [{'columnReference': 'f', 'reference': {'resource': 'p', 'columnReference': 'id'}}]}},
        {'url': 'p', 'tableSchema': dict({
            'columns': [{'name': 'id'}, {'name': 'n', 'datatype': {'base': 'decimal', 'maximum': '10'}}]},
            primaryKey=['id'])},
        {'url': 'u', 'tableSchema': {'columns': [{'name': 'id'}, {'name': 'v'}]}},  # no primary key
    ]})


def data(name, n=2):
    """Rows of all tables with keys derived from name."""
    return {
        'u': [{'id': 'u', 'v': name}] * n,
        'p': [{'id': '{}{}'.format(name, i), 'n': None} for i in range(n)],
        't': [{'id': '{}{}'.format(name, i), 'f': ['{}{}'.format(name, n - 1), name + '0'], 'x': i,
               'b': bool(i % 2), 's': [name, 's']} for i in range(n)],
    }


class Stop(Exception):
    pass


def raising(rows, k, exc):
    for i, row in enumerate(rows):
        if i == k:
            raise exc()
        yield row
    raise exc()


def bad(kind):
    """Rows which cannot be written; the problem is in the last possible place."""
    d = data('x')
    last = d['t'][-1]
    if kind == 'extra':
        last['nope'] = 1
    elif kind == 'extra in p':
        d['p'][0]['nope'] = None
    elif kind == 'primary key':
        d['t'].append(dict(last))
    elif kind == 'primary key of p':
        d['p'].append(dict(d['p'][0]))
    elif kind == 'foreign key':
        last['f'] = last['f'] + ['nope']
    elif kind == 'required':
        last['s'] = None
    elif kind == 'maximum':
        d['p'][-1]['n'] = 11
    elif kind == 'convert':
        last['b'] = 'x'
    elif kind == 'bind':
        last['x'] = object()
    elif kind == 'overflow':
        last['x'] = 2 ** 64
    elif kind.startswith('iterator'):
        _, t, k, exc = kind.split()
        d[t] = raising(d[t], int(k), {'S': Stop, 'K': KeyboardInterrupt}[exc])
    elif kind == 'no iterable':
        d['t'] = 5
    return d


BAD = ['extra', 'primary key', 'foreign key', 'required', 'convert', 'iterator t 1 S', 'extra in p', 'bind',
       'primary key of p', 'maximum', 'overflow', 'no iterable'] + [
    'iterator {} {} {}'.format(t, k, exc) for t in 'upt' for k in (0, 1, 2) for exc in 'SK' if (t, k, exc) != ('t', 1, 'S')]


def merged(*datas):
    res = {}
    for d in datas:
        for t, rows in d.items():
            res.setdefault(t, []).extend(rows)
    return {t: rows for t, rows in res.items() if rows}


def rows_of(read):
    return {t: [dict(r) for r in rows] for t, rows in read.items()}


def raw(path):
    """All rows in all tables of a file, by SQLite itself."""
    with contextlib.closing(sqlite3.connect('file:{}?mode=ro'.format(path), uri=True)) as conn:
        names = [r[0] for r in conn.execute("select name from sqlite_master where type = 'table' order by name")]
        return {n: conn.execute('select * from `{}` order by rowid'.format(n)).fetchall() for n in names}


_cache = {}


def canonical(c, *datas):
    """What a fresh file holds after a write."""
    key = repr(datas) if len(str(datas)) < 10000 else None
    if key and key in _cache:
        return _cache[key]
    path = c.dir / 'canonical.db'
    if path.exists():
        path.unlink()
    Database(group(), fname=path).write(**merged(*datas))
    res = raw(path)
    path.unlink()
    if key:
        _cache[key] = res
    return res


def attempt(fn):
    try:
        with contextlib.redirect_stdout(None):
            fn()
        return None
    except (Exception, KeyboardInterrupt) as e:
        return e


GARBAGE = {'text': b'id,v\n1,2\n', 'empty': b'', 'sqlite header': b'SQLite format 3\x00' + bytes(40)}


def histories(c):
    """All histories of (forced) writes, failing writes and reads on one or two objects."""
    storage = c.every('storage', ['file', 'memory'])
    path = c.dir / 'x.db'
    fname = {'file': c.choose('fname', [path, str(path)])}.get(storage)
    dbs = [Database(group(), fname=fname)]
    content = None  # rows of the model; None: no file, or no tables yet
    hist = []
    if storage == 'file':
        initial = c.choose('initial', [None, 'db', 'text', 'empty', 'sqlite header'])
        if initial == 'db':
            Database(group(), fname=path).write(**data('o', 1))
            content = [data('o', 1)]
        elif initial:
            path.write_bytes(GARBAGE[initial])
            content = 'garbage'
        hist.append(initial)
    depth = 3 if c.tier == 'quick' else 4
    nbad = 6 if depth == 3 else 4
    count = 0
    for step in range(depth):
        ops = ['stop', 'write', 'read', 'again', 'nothing'] + ['bad ' + b for b in BAD[:nbad]]
        if storage == 'file':
            ops.extend(['force', 'delete', 'reopen'] + ['force bad ' + b for b in BAD[:nbad]])
        op = c.every('op{}'.format(step), ops)
        if op.endswith(BAD[0]):  # the others are explored as deviations
            op = op[:-len(BAD[0])] + c.choose('problem', [BAD[0]] + BAD[nbad:])
        hist.append(op)
        key = json.dumps([storage, hist])
        c.describe((storage, hist))
        if op == 'stop':
            break
        db = dbs[-1]
        if op == 'delete':
            if path.exists():
                path.unlink()
            content = None
        elif op == 'reopen':
            dbs.append(Database(group(), fname=fname))
        elif op != 'read':
            force = op.startswith('force')
            problem = op.split('bad ')[1] if 'bad ' in op else None
            count += op in ('write', 'force')
            new = data('abcdef'[max(count - 1, 0) if op == 'again' else count]) if not problem else bad(problem)
            if op == 'nothing':
                new = {}
            before = path.read_bytes() if path.exists() else None
            err = attempt(lambda: db.write(force=force, **new))
            if before is not None and not force:
                c.check(isinstance(err, ValueError), key, lambda: 'file exists, but: {!r}'.format(err))
                c.check(path.read_bytes() == before, key, 'existing file was changed')
            elif problem:
                c.check(err is not None, key, 'no error')
                if storage == 'file':
                    content = [] if path.exists() else None
            else:
                fail = op == 'again' and storage == 'memory' and content and any(
                    d.get('p') == new['p'] for d in content)
                c.check((err is not None) == bool(fail), key, lambda: 'error: {!r}'.format(err))
                if not fail:
                    content = ([] if storage == 'file' else content or []) + [new]
        c.tick()
        # What is there now?
        if storage == 'file':
            before = path.read_bytes() if path.exists() else None
            if before is not None and content != 'garbage':
                rows = {k: v for k, v in raw(path).items() if v}
                exp = {k: v for k, v in canonical(c, *content).items() if v}
                c.check(rows == exp, key, lambda: 'file has {}, expected {}'.format(rows, exp))
        if op == 'read' or step == depth - 1:
            if content == 'garbage' or storage == 'file' and not path.exists():
                continue
            try:
                got = rows_of(db.read())
            except sqlite3.OperationalError:
                got = {}
            exp = merged(*content or [])
            c.check(got == exp, key, lambda: 'read {}, expected {}'.format(got, exp))
            if storage == 'file':
                c.check(path.read_bytes() == before, key, 'read changed the file')
        c.state(storage, content)
    c.outcome(storage, hist[0], content)
    for db in dbs:
        if db._connection:
            db._connection.close()


def in_child(fn):
    """Run fn in a forked child: 0 completed, 10 raised, 42 died by injection."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            try:
                with contextlib.redirect_stdout(None):
                    fn()
                code = 0
            except BaseException:
                code = 10
        finally:
            sys.settrace(None)
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


class Setup:
    """A write to a file (which may exist) which is hit by a fault."""

    def __init__(self, c, sizes=('small',), ops=('write', 'bad extra', 'bad foreign key')):
        self.c = c
        self.op = c.every('op', list(ops))
        self.initial = c.every('initial', [None, 'db'])
        self.size = c.every('size', list(sizes))
        self.path = c.dir / 'sub' / 'x.db'
        self.path.parent.mkdir()
        self.old = None
        if self.initial == 'db':
            Database(group(), fname=self.path).write(**data('o', 1))
            self.old = self.path.read_bytes()
            self.oldrows = raw(self.path)
        self.good = self.op == 'write'
        self.new = data('a', 2 if self.size == 'small' else 9000) if self.good else None
        if self.size == 'large':
            for r in self.new['u']:
                r['v'] = 'v' * 300
        self.exp = canonical(c, self.new) if self.good else None
        c.describe(dict(initial=self.initial, op=self.op, size=self.size))

    def restore(self):
        for p in self.path.parent.iterdir():
            p.unlink()
        if self.old is not None:
            self.path.write_bytes(self.old)

    def run(self):
        Database(group(), fname=self.path).write(
            force=bool(self.initial), **(self.new if self.good else bad(self.op[4:])))

    def verdict(self, rc, what):
        c = self.c
        key = '{} {} {} {}'.format(self.initial, self.op, self.size, what)
        c.check(rc in (0, 10, 42), key, lambda: 'child: {}'.format(rc))
        c.tick()
        c.trace()
        which = 'missing'
        if self.path.exists():
            if self.path.read_bytes() == self.old:
                which = 'old'
            else:
                rows = raw_rw(self.path)
                if not any(rows.values()):
                    which = 'empty'
                elif rows == self.exp:
                    which = 'new'
                elif self.old is not None and rows == self.oldrows:
                    which = 'old'
                else:
                    which = 'half'
                    c.fail(key, 'rows: {}'.format({k: len(v) for k, v in rows.items()}))
        if rc == 10:
            c.check(which != 'new', key, 'the write failed, but the rows are there')
        if rc == 0:
            c.check(which == 'new', key, lambda: 'no error, but the file is: {}'.format(which))
        c.state(self.initial, self.op, self.size, what)
        c.outcome(self.initial, self.op, self.size, what, rc, which)
        # The next, forced, write is as if nothing had happened.
        if self.size == 'small':
            Database(group(), fname=self.path).write(force=True, **data('z'))
            got = raw(self.path)
            exp = canonical(c, data('z'))
            c.check(got == exp, key, lambda: 'afterwards: {}'.format(got))


def raw_rw(path):
    """Like raw, but lets SQLite recover from an interrupted transaction first."""
    with contextlib.closing(sqlite3.connect(str(path))) as conn:
        conn.execute('select count(*) from sqlite_master').fetchall()
    return raw(path)


def crashes(c):
    """The process dies before the k-th line of Python executed by the write."""
    s = Setup(c)
    limit = 2 if c.tier == 'quick' else 12

    def traced(k):
        n, seen = [0], {}

        def local(frame, event, arg):
            key = (id(frame.f_code), frame.f_lineno)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= limit:
                n[0] += 1
                if n[0] == k:
                    os._exit(42)
            return local

        def trace(frame, event, arg):
            if frame.f_globals.get('__name__', '') == 'csvw.db':
                return local

        def fn():
            sys.settrace(trace)
            try:
                s.run()
            finally:
                sys.settrace(None)
                if k is None:
                    (c.dir / 'count').write_text(str(n[0]))
        return fn

    s.verdict(in_child(traced(None)), 'dry run')
    total = int((c.dir / 'count').read_text())
    s.restore()
    hit = 0
    for k in range(1, total + 1):
        rc = in_child(traced(k))
        hit += rc == 42
        s.verdict(rc, 'crash at {}'.format(k))
        s.restore()
    c.check(hit > 10, 'vacuous', hit)


class Faulty(sqlite3.Connection):
    """The k-th call of SQLite fails, or the process dies there."""
    n, k, how = 0, None, None

    def _call(self, name, *args):
        Faulty.n += 1
        if Faulty.n == Faulty.k:
            if Faulty.how == 'dies':
                os._exit(42)
            if Faulty.how == 'interrupt':
                raise KeyboardInterrupt()
            raise sqlite3.OperationalError('database or disk is full')
        res = getattr(sqlite3.Connection, name)(self, *args)
        if Faulty.n == Faulty.k and Faulty.how == 'dies after':
            os._exit(42)
        return res

    def execute(self, *args):
        return self._call('execute', *args)

    def executemany(self, *args):
        return self._call('executemany', *args)

    def executescript(self, *args):
        return self._call('executescript', *args)

    def commit(self, *args):
        return self._call('commit', *args)


def calls(c):
    """Every call of SQLite (create, insert, commit) fails."""
    s = Setup(c)
    how = c.every('how', ['error', 'dies', 'interrupt'])

    def fn(k):
        def run():
            connect = sqlite3.connect
            Faulty.n, Faulty.k, Faulty.how = 0, k, how

            def faulty(*args, **kw):
                kw.setdefault('factory', Faulty)
                return connect(*args, **kw)

            sqlite3.connect = faulty
            try:
                s.run()
            finally:
                if k is None:
                    (c.dir / 'count').write_text(str(Faulty.n))
        return run

    s.verdict(in_child(fn(None)), how + ' dry run')
    total = int((c.dir / 'count').read_text())
    s.restore()
    c.check(total > 3, 'vacuous', total)
    for k in range(1, total + 1):
        s.verdict(in_child(fn(k)), '{} in call {}'.format(how, k))
        s.restore()


_hook = {'k': None, 'n': 0, 'pid': None}


def hook(event, args):
    if _hook['pid'] != os.getpid():
        return
    if event.startswith(('open', 'os.', 'sqlite3.', 'shutil.')) and event not in ('os.fork', 'os.listdir', 'os.scandir'):
        _hook['n'] += 1
        if _hook['n'] == _hook['k']:
            raise OSError(28, os.strerror(28))


def events(c):
    """Every system-level event (unlink, connect, ...) fails."""
    s = Setup(c)

    def fn(k):
        def run():
            _hook.update(k=k, n=0, pid=os.getpid())
            sys.addaudithook(hook)
            try:
                s.run()
            finally:
                n = _hook['n']
                _hook['pid'] = None
                if k is None:
                    (c.dir / 'count').write_text(str(n))
        return run

    s.verdict(in_child(fn(None)), 'dry run')
    total = int((c.dir / 'count').read_text())
    s.restore()
    c.check(total > 0, 'vacuous', total)
    for k in range(1, total + 1):
        s.verdict(in_child(fn(k)), 'event {} fails'.format(k))
        s.restore()


def full(c):
    """Storage is full after n bytes."""
    s = Setup(c, sizes=['small', 'large'], ops=['write'])
    if s.size == 'large' and s.initial == 'db' and c.tier == 'quick':
        return
    s.run()
    size = s.path.stat().st_size
    s.restore()
    step = 1024 if s.size == 'small' else (size // (16 if c.tier == 'quick' else 64))
    for n in list(range(0, size + 1, step)) + [1, 511, 513, 4095, 4097, size - 1, size]:
        def run():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
            s.run()
        rc = in_child(run)
        c.check(rc == 10 if n < size else rc in (0, 10), 'full', 'n={} rc={}'.format(n, rc))
        s.verdict(rc, 'full after {}'.format(n))
        s.restore()


HARNESSES = [
    Harness('histories', histories, 1, 1),
    Harness('crashes', crashes, None),
    Harness('calls', calls, None),
    Harness('events', events, None),
    Harness('full', full, None),
]
