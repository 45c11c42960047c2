import os
import sys
import errno
import shutil
import resource
import tempfile

from mc.explore import Harness

from csvw.dsv import add_rows, rewrite, filter_rows_as_dict
from csvw.dsv_dialects import Dialect

LEVEL = 'fault_enumeration'
RULE = ('one execution per (history of up to two operations, kind of fault, fault site): every visitor '
        'call, every line of Python executed by the operation (process dies before it), every '
        'audited system-level event (it fails with OSError), every number of bytes after which '
        'storage is full (every 64th for large files), every kind of bad input; an execution is '
        'non-trivial if the fault was actually hit; distinct (history, site, outcome) are counted')
ASSUMPTIONS = [
    'rename within a file system is atomic and durable (no power loss model)',
    'a dying process loses its unflushed buffers (os._exit); death inside one C-level call is '
    'covered by the storage-full enumeration only',
]

SMALL = b'h,i\r\na,b\r\n"c\nd",e\r\nf,g\r\n'
LARGE = b'h,i\r\n' + b''.join(b'r%d,%s\r\n' % (i, b'x' * 90) for i in range(220))
INITIAL = {'small': SMALL, 'large': LARGE, 'missing': None, 'empty': b''}
# Other files in the directory, which happen to be named like temporary files or backups.
NEIGHBOURS = ['data.tmp', 'data.csv.tmp', 'data.csv~', 'data.csv.bak', 'data.csv.new', '.data.csv.swp',
              'tmp', 'temp', 'data', '.data.csv', 'data.csv.1', 'data.bak', 'data.new', '.data.csv.tmp',
              'data.csv.orig', 'data.csv.lock', '~data.csv', 'data.csv.part', '_data.csv', 'new']


def ident(i, row):
    return row


OPS = {
    'add': lambda f, v: add_rows(f, ['x', 'y'], ['z', 'w' * 30]),
    'add to large': lambda f, v: add_rows(f, *[['n{}'.format(i), 'y' * 50] for i in range(200)]),
    'rewrite': lambda f, v: rewrite(f, lambda i, row: v(i, row) and [c + '!' for c in row]),
    'shrink': lambda f, v: rewrite(f, lambda i, row: row[:1] if v(i, row) and i % 2 else None),
    'filter': lambda f, v: filter_rows_as_dict(f, lambda d: v(0, d) and d.get('h') != 'a'),
    'empty': lambda f, v: rewrite(f, lambda i, row: None),
    'str path': lambda f, v: rewrite(str(f), lambda i, row: v(i, row) and row[::-1]),
    'dialect': lambda f, v: rewrite(
        f, lambda i, row: v(i, row) and row + ['"'], dialect=Dialect(lineTerminators=['\n'])),
}


def always(i, row):
    return True


def content(p):
    return p.read_bytes() if p.exists() else None


def in_child(fn):
    """Run fn in a forked child: 0 completed, 10 raised, 42 died by injection."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            try:
                fn()
                code = 0
            except BaseException:
                code = 10
        finally:
            sys.settrace(None)
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def other_fs(here):
    """A directory on another file system than `here`, if there is one."""
    for d in ['/tmp', '/var/tmp', '/verif', '/dev/shm']:
        if os.path.isdir(d) and os.access(d, os.W_OK) and os.stat(d).st_dev != os.stat(here).st_dev:
            return tempfile.mkdtemp(prefix='csvwmc', dir=d)
    return None


class Setup:
    def __init__(self, c):
        self.c = c
        self.initial = c.every('initial', list(INITIAL))
        self.first = c.choose('first', [None] + list(OPS))
        self.op = c.every('op', list(OPS))
        self.target = self.path = c.dir / 'sub' / 'data.csv'
        self.path.parent.mkdir()
        self.link = c.choose('link', [None, 'absolute', 'relative'])
        if self.link:
            self.path = c.dir / 'elsewhere' / 'link.csv'
            self.path.parent.mkdir()
            self.path.symlink_to(self.target if self.link == 'absolute' else '../sub/data.csv')
        for name in NEIGHBOURS:
            (self.target.parent / name).write_bytes(b'not ' + name.encode())
        if INITIAL[self.initial] is not None:
            self.path.write_bytes(INITIAL[self.initial])
        self.valid = self.initial != 'missing' or (
            self.op.startswith('add') or (self.first or '').startswith('add'))
        if self.first and self.initial == 'missing' and not self.first.startswith('add'):
            self.valid = False
        if not self.valid:
            return
        if self.first:
            self.run(self.first)
        self.old = content(self.path)
        self.run()
        self.new = content(self.path)
        self.restore()
        c.describe(dict(initial=self.initial, first=self.first, op=self.op, link=self.link))

    def restore(self):
        for p in self.target.parent.iterdir():
            if p.name not in NEIGHBOURS:
                p.unlink()
        if self.old is not None:
            self.target.write_bytes(self.old)

    def run(self, op=None, visit=always):
        OPS[op or self.op](self.path, visit)

    def verdict(self, rc, what, clean=True):
        """
        The property.

        :param clean: Whether nothing prevented the operation from removing its temporary files.
        """
        c = self.c
        c.trace()
        c.state(self.initial, self.first, self.op, self.link, what)
        now = content(self.path)
        c.describe(dict(initial=self.initial, first=self.first, op=self.op, link=self.link, fault=what, rc=rc))
        which = 'old' if now == self.old else ('new' if now == self.new else 'damaged')
        c.check(rc in (0, 10, 42), 'child', rc)
        c.check(which != 'damaged', 'damaged', lambda: '{}: file has {!r}, was {!r}, should be '
                '{!r}'.format(what, now and now[:300], self.old and self.old[:300],
                              self.new and self.new[:300]))
        if rc == 10:
            c.check(which == 'old', 'changed', 'operation raised, but changed the file: ' + what)
        if rc == 0:
            c.check(now == self.new, 'lost', 'no error, but nothing was done: ' + what)
        c.outcome(self.initial, self.first, self.op, what, rc, which)
        c.tick()
        for name in NEIGHBOURS:
            c.check(content(self.target.parent / name) == b'not ' + name.encode(), 'neighbour',
                    lambda: '{}: {}'.format(what, name))
        if self.link:
            c.check(self.path.is_symlink() and self.path.resolve() == self.target.resolve(), 'link', what)
        if clean and rc != 42:
            left = {p.name for p in list(self.target.parent.iterdir()) + list(self.path.parent.iterdir())}
            left -= set(NEIGHBOURS) | {self.target.name, self.path.name}
            c.check(not left, 'left behind', lambda: '{}: {}'.format(what, left))
        # and one can carry on as if nothing had happened
        if which == 'old' and rc:
            self.run()
            c.check(content(self.path) == self.new, 'retry', what)


def interrupts(c):
    """The visitor or filter raises at its k-th call."""
    s = Setup(c)
    if not s.valid:
        return
    n = []
    s.run(visit=lambda i, row: n.append(1) or True)
    s.restore()
    if not n:
        return
    exc = c.every('exception', [ValueError, KeyboardInterrupt, SystemExit, StopIteration, OSError])
    for k in range(len(n)) if len(n) < 50 else [0, 1, 2, len(n) // 2, len(n) - 1]:
        calls = []

        def visit(i, row):
            calls.append(1)
            if len(calls) == k + 1:
                raise exc()
            return True

        try:
            s.run(visit=visit)
            rc = 0
        except BaseException as e:
            rc = 10
            c.check(isinstance(e, exc) or isinstance(e, RuntimeError), 'exception', repr(e))
        c.check(rc == 10, 'swallowed', repr(exc))
        s.verdict(rc, 'visitor {} at {}'.format(exc.__name__, k))
        s.restore()


def crashes(c):
    """The process dies before the k-th line of Python executed by the operation."""
    s = Setup(c)
    if not s.valid:
        return
    cross = c.every('tempdir', ['same fs', 'other fs'])
    tmp = None
    if cross == 'other fs':
        tmp = other_fs(s.path.parent)
        if not tmp:
            return
    try:
        # Lines repeated per row or per directory entry add nothing after some rounds.
        limit = 3 if c.tier == 'quick' else 12

        def traced(k):
            n = [0]
            seen = {}

            def local(frame, event, arg):
                key = (id(frame.f_code), frame.f_lineno)
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= limit:
                    n[0] += 1
                    if n[0] == k:
                        os._exit(42)
                return local

            def trace(frame, event, arg):
                mod = frame.f_globals.get('__name__', '')
                if mod.startswith(('csvw', 'shutil', 'tempfile', 'pathlib', 'contextlib', 'checks')):
                    return local

            def fn():
                if tmp:
                    tempfile.tempdir = tmp
                sys.settrace(trace)
                s.run()
                sys.settrace(None)
                if k is None:
                    (s.path.parent.parent / 'count').write_text(str(n[0]))
            return fn

        s.verdict(in_child(traced(None)), 'dry run')
        total = int((s.path.parent.parent / 'count').read_text())
        s.restore()
        hit = 0
        for k in range(1, total + 1):
            rc = in_child(traced(k))
            hit += rc == 42
            s.verdict(rc, 'crash at {}'.format(k))
            s.restore()
        c.check(hit > 10, 'vacuous', hit)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


_hook = {'k': None, 'n': 0, 'pid': None}


def hook(event, args):
    if _hook['pid'] != os.getpid():
        return
    if event.startswith(('open', 'os.', 'shutil.', 'tempfile.')) and event not in (
            'os.fork', 'os.listdir', 'os.scandir'):
        _hook['n'] += 1
        if _hook['n'] == _hook['k']:
            raise OSError(_hook['errno'], os.strerror(_hook['errno']))


def events(c):
    """The k-th system-level event (open, rename, chmod, ...) of the operation fails."""
    s = Setup(c)
    if not s.valid:
        return
    err = c.every('errno', [errno.ENOSPC, errno.EACCES, errno.EXDEV, errno.ENOENT])

    def fn(k):
        def run():
            _hook.update(k=k, n=0, pid=os.getpid(), errno=err)
            sys.addaudithook(hook)
            s.run()
            n = _hook['n']
            _hook['pid'] = None
            if k is None:
                (s.path.parent.parent / 'count').write_text(str(n))
        return run

    s.verdict(in_child(fn(None)), 'dry run')
    total = int((s.path.parent.parent / 'count').read_text())
    s.restore()
    c.check(total > 1, 'vacuous', total)
    for k in range(1, total + 1):
        rc = in_child(fn(k))
        s.verdict(rc, 'event {} fails with {}'.format(k, err), clean=False)
        s.restore()


def full(c):
    """Storage is full after n bytes."""
    s = Setup(c)
    if not s.valid:
        return
    size = max(len(s.new or b''), len(s.old or b''))
    step = 1 if size < 400 else (64 if c.tier == 'thorough' else 256)
    for n in list(range(0, size + 2, step)) + [8191, 8192, 8193, size - 1, size]:
        if n < 0 or n > size + 1:
            continue

        def run():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
            s.run()
        rc = in_child(run)
        c.check(rc == (10 if n < len(s.new) else 0), 'full', 'n={} rc={}'.format(n, rc))
        s.verdict(rc, 'full after {}'.format(n))
        s.restore()


BAD = {
    'undecodable': (b'h,i\r\na,\xff\r\n', {}),
    'undecodable late': (LARGE + b'\xff', {}),
    'strict quoting': (b'h,i\r\n"a"b,c\r\n', {'dialect': Dialect()}),
    'unterminated': (b'h,i\r\na,"b\r\n', {'dialect': Dialect()}),
    'field too long': (b'h,i\r\n' + b'x' * 140000 + b'\r\n', {}),
    'utf-16 truncated': ('h,i\r\na,b'.encode('utf-16')[:-1], {'encoding': 'utf-16'}),
    'not ascii': ('h,i\r\na,\u00e4\r\n'.encode('utf-8'), {'encoding': 'ascii'}),
}


def bad_input(c):
    """The file cannot be read to its end."""
    name = c.every('input', list(BAD))
    raw, kw = BAD[name]
    op = c.every('op', ['add', 'rewrite', 'filter'])
    p = c.dir / 'data.csv'
    p.write_bytes(raw)
    c.describe(dict(input=name, op=op))
    try:
        if op == 'add':
            if kw:
                return
            add_rows(p, ['x', 'y'])
        elif op == 'rewrite':
            rewrite(p, ident, **kw)
        else:
            filter_rows_as_dict(p, lambda d: True, **kw)
        c.fail('accepted', name)
    except Exception as e:
        c.outcome(name, op, type(e).__name__)
    c.check(p.read_bytes() == raw, 'damaged', name)
    c.check(os.listdir(c.dir) == ['data.csv'], 'left behind', lambda: os.listdir(c.dir))


def bad_output(c):
    """A row cannot be written (at any position)."""
    bad = c.every('row', [
        ['\ud800'], 5, [['x'], object], ['\u20ac'], ['a\nb'], ['a,b'], [''], iter([1, 2, '\udfff']),
    ])
    kw = c.every('kw', [{}, {'encoding': 'latin-1'}, {'encoding': 'ascii', 'delimiter': ';'},
                        {'dialect': Dialect(quoteChar=None, encoding='ascii')}])
    initial = c.every('initial', ['small', 'large'])
    raw = INITIAL[initial].replace(b'"c\nd"', b'cd')
    op = c.every('op', ['rewrite', 'add'])
    at = c.every('at', [0, 1, 2, 3])
    p = c.dir / 'data.csv'
    p.write_bytes(raw)
    c.describe(dict(row=repr(bad), kw=str(kw), op=op, at=at, initial=initial))
    try:
        if op == 'rewrite':
            rewrite(p, lambda i, row: bad if i == at else row, **kw)
        elif kw:
            return
        else:
            rows = [['x', 'y']] * 3
            rows.insert(at, bad)
            add_rows(p, *rows)
        c.outcome('ok')
        c.check(p.read_bytes() != raw, 'lost')
    except Exception as e:
        c.outcome(repr(bad), str(kw), op, at, type(e).__name__)
        c.check(p.read_bytes() == raw, 'damaged', repr(e))
    c.check(os.listdir(c.dir) == ['data.csv'], 'left behind', lambda: os.listdir(c.dir))


HARNESSES = [
    Harness('interrupts', interrupts, 1),
    Harness('crashes', crashes, 0, 1),
    Harness('events', events, 0, 1),
    Harness('full', full, 1),
    Harness('bad_input', bad_input, None),
    Harness('bad_output', bad_output, None),
]
