"""
A controlled scheduler for two real threads.

The first thread runs under a line tracer which sees every line of csvw it executes. At the chosen
line, it is preempted: the second thread runs, to its end (or, with two preemptions, to a chosen
function call of its own, where it is suspended until the first one is done). All the lines (calls)
are enumerated in turn, for all ordered pairs of operations.
"""
import io
import os
import sys
import json
import decimal
import datetime
import pathlib
import tempfile
import threading
import collections

import csvw
from mc.explore import Harness

from csvw import CSVW, TableGroup, Table, Column
from csvw.metadata import Datatype
from csvw.db import Database
from csvw.dsv import UnicodeWriter, UnicodeReader, UnicodeDictReader, rewrite, reader
from csvw.dsv_dialects import Dialect
from csvw.frictionless import DataPackage
from csvw.utils import metadata2markdown

ASSUMPTIONS = [
    'threads switch between lines of csvw (not within one), up to two times; a thread which is '
    'blocked by a lock is not switched to',
    'validation (CSVW(validate=True), is_valid) is left out: it records warnings with the process-'
    'wide machinery of the Python standard library',
    'a database object is used by one thread, as sqlite3 demands',
]
SRC = str(pathlib.Path(csvw.__file__).resolve().parent) + os.sep

MD = {
    '@context': ['http://www.w3.org/ns/csvw', {'@language': 'en'}],
    'dc:title': 'both',
    'null': ['', 'NA'],
    'dialect': {'commentPrefix': '#', 'quoteChar': '"'},
    'tables': [
        {
            'url': 'one.csv',
            'aboutUrl': 'http://example.org/{id}',
            'tableSchema': {
                'columns': [
                    {'name': 'id', 'datatype': 'integer', 'required': True},
                    {'name': 'list', 'separator': ';', 'datatype': {'base': 'decimal', 'format': {
                        'pattern': '#,##0.0#', 'decimalChar': ',', 'groupChar': '.'}}},
                    {'name': 'day', 'titles': ['Day', 'Date'],
                     'datatype': {'base': 'date', 'format': 'dd.MM.yyyy'}},
                    {'name': 'at', 'datatype': {'base': 'dateTime', 'format': 'yyyy-MM-ddTHH:mm:ss'},
                     'null': '-'},
                    {'name': 'yes', 'datatype': {'base': 'boolean', 'format': 'Y|N'},
                     'default': 'N'},
                    {'name': 'word', 'datatype': {'base': 'string', 'format': '[a-z ]+', 'maxLength': 9},
                     'valueUrl': 'http://example.org/w/{word}{?id}'},
                    {'name': 'v', 'virtual': True, 'propertyUrl': 'dc:type',
                     'valueUrl': 'schema:Thing'},
                ],
                'primaryKey': ['id'],
            },
        },
        {
            'url': 'two.csv',
            'dialect': {'delimiter': ';', 'header': True, 'skipInitialSpace': True, 'encoding': 'latin1'},
            'tableSchema': {
                'columns': [
                    {'name': 'key', 'datatype': {'base': 'string', 'minLength': 1}},
                    {'name': 'ref', 'datatype': 'integer', 'separator': ' '},
                    {'name': 'x', 'datatype': {'base': 'float', 'minimum': '0', 'maximum': '10'}},
                    {'name': 'span', 'datatype': 'dayTimeDuration'},
                ],
                'primaryKey': 'key',
                'foreignKeys': [{'columnReference': 'ref', 'reference': {
                    'resource': 'one.csv', 'columnReference': 'id'}}],
            },
        },
    ],
}
ONE = '''#comment
id,list,Date,at,yes,word
1,"1,5;1.234,0",24.12.2020,2020-12-24T10:11:12,Y,ab cd
2,,NA,-,,
3,"0,25",01.01.2021,2021-01-01T00:00:00,N,x
'''
TWO = '''key;ref;x;span
\u00e4;1 2; 1.5;P1DT2H
b;;NA;
"c;d";3;10;PT1S
'''
BAD = '''id,list,Date,at,yes,word
1,x,24.12.2020,2020-12-24T10:11:12,Y,ab
2,,2020-12-24,-,?,
3,"0,25",01.01.2021,2021-01-01T00:00:00,N,UPPER
4,"0,25",01.01.2021,2021-01-01T00:00:00,N,lower
'''
PLAIN = 'a\tb\n1\tx\n2\t"y\nz"\n3\t\n'
PACKAGE = {'name': 'p', 'resources': [{
    'name': 'two', 'path': 'two.csv', 'scheme': 'file', 'format': 'csv', 'encoding': 'latin1', 'profile': 'tabular-data-resource',
    'dialect': {'csvddfVersion': '1.2', 'delimiter': ';', 'skipInitialSpace': True},
    'schema': {'fields': [
        {'name': 'key', 'type': 'string', 'constraints': {'required': True}},
        {'name': 'ref', 'type': 'string'}, {'name': 'x', 'type': 'string'},
        {'name': 'span', 'type': 'string'}]}}]}
FILES = {
    'md.json': json.dumps(MD), 'one.csv': ONE, 'bad.csv': BAD, 'plain.tsv': PLAIN,
    'single.json': json.dumps({
        '@context': 'http://www.w3.org/ns/csvw', 'url': 'plain.tsv',
        'dialect': {'delimiter': '\t', 'trim': 'end'},
        'tableSchema': {'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}]}}),
    'datapackage.json': json.dumps(PACKAGE),
}
ROW = collections.OrderedDict([
    ('id', 7), ('list', [decimal.Decimal('1234.5'), decimal.Decimal('0.25')]),
    ('day', datetime.date(2022, 2, 3)), ('at', datetime.datetime(2022, 2, 3, 4, 5, 6)),
    ('yes', True), ('word', 'new')])


class World:
    """The objects shared by the threads."""

    def __init__(self, d):
        self.dir = d
        self.csvw = CSVW(str(d / 'md.json'))
        self.tg = self.csvw.t
        self.one, self.two = self.tg.tables
        self.single = Table.from_file(d / 'single.json')
        self.dialect = Dialect(delimiter='\t', quoteChar="'", commentPrefix='%', trim=True)
        self.columns = self.one.tableSchema.columndict
        self.markup = Datatype.fromvalue({'base': 'integer', 'format': '#,##0', 'minimum': '5'})

    def snapshot(self):
        """The description, and what depends on the state of its objects."""
        return repr([
            self.tg.asdict(omit_defaults=False), self.single.asdict(omit_defaults=False),
            self.dialect, self.markup, [str(t.local_name) for t in self.tg.tables],
            [c.header for t in self.tg.tables for c in t.tableSchema.columns],
            [c.inherit_null() for t in self.tg.tables for c in t.tableSchema.columns],
            self.csvw.common_props, self.csvw.warnings])


class Log:
    def __init__(self):
        self.messages = []

    def warning(self, msg, *args):
        self.messages.append(msg % args if args else str(msg))


BODIES = collections.OrderedDict()


def body(f):
    BODIES[f.__name__] = f
    return f


@body
def read_one(w, d):
    return list(w.one.iterdicts(with_metadata=True))


@body
def read_two(w, d):
    return [list(w.two), list(w.tg.tabledict['two.csv'])]


@body
def read_bad(w, d):
    log = Log()
    return list(w.one.iterdicts(fname=w.dir / 'bad.csv', log=log)), log.messages


@body
def read_single(w, d):
    return list(w.single), list(w.single.iterdicts(strict=False))


@body
def convert(w, d):
    return json.dumps([w.csvw.to_json(), w.csvw.to_json(minimal=True)])


@body
def keys(w, d):
    log = Log()
    return (w.one.check_primary_key(log=log), w.two.check_primary_key(),
            w.tg.check_referential_integrity(log=log), log.messages)


@body
def write_text(w, d):
    return w.one.write([ROW, dict(ROW, id=8, list=[], word=None)], fname=None)


@body
def write_files(w, d):
    w.two.write([{'key': 'k', 'ref': [5, 6], 'x': 0.5, 'span': datetime.timedelta(seconds=61)}],
                fname=d / 'out.csv')
    w.single.write([['1', 'ü']], fname=d / 'single.csv', _zipped=True)
    return sorted((p.name, p.read_bytes() if p.suffix == '.csv' else 0) for p in d.iterdir())


@body
def serialize(w, d):
    w.tg.to_file(d / 'copy.json')
    return (w.tg.asdict(), w.single.asdict(omit_defaults=False),
            (d / 'copy.json').read_text(encoding='utf8').replace(str(w.dir), ''))


@body
def markdown(w, d):
    return metadata2markdown(w.tg)


@body
def database(w, d):
    db = Database(w.tg, fname=d / 'db.sqlite')
    db.write_from_tg()
    return repr(db.read())


@body
def cells(w, d):
    res = [w.markup.base, w.markup.asdict()]
    for name, strings in [
            ('list', ['1,5;2,25', '', 'x']), ('day', ['03.04.2021', 'NA', '3.4.21']),
            ('at', ['-', '2020-01-01T01:02:03']), ('yes', ['Y', '', 'x']), ('word', ['ab', 'A'])]:
        for s in strings:
            try:
                v = w.columns[name].read(s)
                res.append((v, w.columns[name].write(v)))
            except ValueError as e:
                res.append(str(e))
    for s in ('1,234', '4', 'x'):
        try:
            v = w.markup.parse(s)
            res.extend([v, w.markup.formatted(v), w.markup.validate(v)])
        except ValueError as e:
            res.append(str(e))
    return res


@body
def load(w, d):
    tg = TableGroup.from_file(w.dir / 'md.json')
    t = Table.fromvalue({'url': 'x', 'dialect': {'delimiter': '|', 'header': False},
                         'tableSchema': {'columns': [{'name': 'q', 'datatype': {
                             'base': 'decimal', 'format': {'decimalChar': ';'}}}]}})
    dp = DataPackage(w.dir / 'datapackage.json').to_tablegroup()
    return (tg.asdict(), t.tableSchema.columns[0].read('1;5'), [dict(r) for r in dp.tables[0]],
            dp.asdict(), w.tg == tg)


@body
def dsv(w, d):
    with UnicodeWriter(d / 'x.tsv', dialect=w.dialect) as wr:
        wr.writerows([['a', 'b'], ["q'q", 'x\ty'], ['%c', ' s ']])
    rewrite(d / 'x.tsv', lambda i, row: row + [str(i)] if i != 1 else None, dialect=w.dialect)
    with UnicodeReader(d / 'x.tsv', dialect=w.dialect) as r:
        rows = list(r)
    with UnicodeDictReader(d / 'x.tsv', dialect=w.dialect) as r:
        dicts = [dict(row) for row in r]
    return ((d / 'x.tsv').read_bytes(), rows, r.comments if hasattr(r, 'comments') else None, dicts,
            [tuple(x) for x in reader(w.dir / 'plain.tsv', delimiter='\t', namedtuples=True)],
            sorted(p.name for p in d.iterdir()))


class Preempt:
    """
    Runs `first` and stops it before the k-th event ('line': first `visits` executions of each line,
    'call': of each function): then, `second` runs; up to its own j-th call, if j is given.
    """
    patience = 10

    def __init__(self, first, second, events, visits, k=None, j=None):
        self.first, self.second, self.events, self.visits = first, second, events, visits
        self.k, self.j = k, j
        self.count = 0
        self.stopped = False
        self.results = [None, None]
        self.thread = None
        self.suspended = False
        self.pause, self.resume = threading.Event(), threading.Event()

    def call(self, i, fn):
        try:
            self.results[i] = ('ok', fn())
        except Exception as e:
            self.results[i] = ('exc', type(e).__name__, str(e))

    def tracer(self, limit, reached):
        visits, n = {}, 0
        events = self.events

        def count(frame):
            nonlocal n
            loc = (frame.f_code, frame.f_lineno)
            visits[loc] = v = visits.get(loc, 0) + 1
            if v > self.visits:
                return
            n += 1
            self.count = n
            if n == limit:
                sys.settrace(None)
                reached()

        def local(frame, event, arg):
            if limit is not None and n >= limit:
                return None
            if event == 'line':
                count(frame)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                if events == 'line':
                    return local
                count(frame)

        return trace

    def start_second(self):
        def run():
            def suspend():
                self.suspended = True
                self.pause.set()
                self.resume.wait(60)

            if self.j is not None:
                sys.settrace(self.tracer(self.j, suspend))
            self.call(1, self.second)
            sys.settrace(None)
            self.pause.set()

        self.stopped = True
        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()
        # A second thread which waits for a lock of the first one cannot be switched to.
        if not self.pause.wait(Preempt.patience):
            Preempt.patience = 0.02

    def run(self):
        old = sys.gettrace()
        sys.settrace(self.tracer(self.k, self.start_second))
        try:
            self.call(0, self.first)
        finally:
            sys.settrace(old)
        self.resume.set()
        if self.thread:
            self.thread.join(30)
        return self.results


def prepare(c):
    src = c.dir / 'src'
    src.mkdir()
    for n, text in FILES.items():
        (src / n).write_text(text, encoding='utf8', newline='')
    (src / 'two.csv').write_text(TWO, encoding='latin1', newline='')
    return src


def contents(d):
    return {p.name: p.read_bytes() for p in sorted(d.iterdir())}


class Scene:
    """Fresh objects and output directories for every run."""

    def __init__(self, c):
        self.src = prepare(c)
        self.base = c.dir
        self.files = contents(self.src)
        self.n = 0

    def fresh(self, shared=True):
        self.n += 1
        self.worlds = [World(self.src)]
        self.worlds.append(self.worlds[0] if shared else World(self.src))
        self.dirs = []
        for i in (0, 1):
            d = self.base / 'out{}-{}'.format(self.n, i)
            d.mkdir()
            self.dirs.append(d)

    def op(self, i, name):
        return lambda: repr(BODIES[name](self.worlds[i], self.dirs[i])).replace(str(self.dirs[i]), 'DIR').replace(str(self.base), 'BASE')

    def done(self):
        for d in self.dirs:
            for p in d.iterdir():
                p.unlink()
            d.rmdir()


CHUNKS = 4


def alone(scene, name):
    scene.fresh()
    before = scene.worlds[0].snapshot()
    res = ('ok', scene.op(0, name)())
    scene.done()
    scene.fresh()
    return res, before


def threads(c, events, visits, two, names):
    pair = (c.every('first', names), c.every('second', names))
    chunk = c.every('chunk', range(CHUNKS))
    scene = Scene(c)
    expected, snapshot = [], None
    for name in pair:
        res, snapshot = alone(scene, name)
        scene.done()
        expected.append(res)
    scene.fresh()
    probe = Preempt(scene.op(0, pair[0]), scene.op(1, pair[1]), events, visits)
    probe.run()
    total = probe.count
    scene.done()
    c.check(total > 2, str(pair), 'no schedules')
    c.describe((pair, total))
    second = None
    for k in range(chunk + 1, total + 1, CHUNKS):
        j = 0
        while True:
            j += 1
            scene.fresh()
            p = Preempt(scene.op(0, pair[0]), scene.op(1, pair[1]), events, visits, k, j if two else None)
            p.run()
            key = str((pair, k, j if two else None))
            for i in (0, 1):
                if p.results[i] is None and not (i and not p.stopped):
                    c.fail(key, 'thread {} did not finish'.format(i))
                c.check(p.results[i] in (expected[i], None), key,
                        lambda: '{} while {} runs, preempted at event {} ({}): got {}, expected {}'.format(
                            pair[i], pair[1 - i], k, j, *diff(p.results[i][-1], expected[i][-1])))
            c.check(scene.worlds[0].snapshot() == snapshot, key,
                    lambda: 'description changed: {} {}'.format(
                        *diff(scene.worlds[0].snapshot(), snapshot)))
            scene.done()
            c.trace()
            c.state(pair, k, j)
            c.tick(k)
            if not two or not p.suspended:
                break
    c.check(contents(scene.src) == scene.files, str(pair), 'the files read were changed')
    # ... and afterwards, in this process, everything is as before
    for i, name in enumerate(pair):
        res, _ = alone(scene, name)
        c.check(res == expected[i], str((pair, 'afterwards')), lambda: '{} afterwards: {} {}'.format(
            name, *diff(res[-1], expected[i][-1])))
        scene.done()
    c.outcome(expected)


def diff(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return '...' + a[max(0, n - 60):n + 120], '...' + b[max(0, n - 60):n + 120]


def once(c):
    """One preemption, before each line (at its first execution; thorough: first 3 executions)."""
    threads(c, 'line', 1 if c.tier == 'quick' else 3, False, list(BODIES))


def twice(c):
    """Two preemptions, at all pairs of (first) calls of functions (quick: of some operations)."""
    threads(c, 'call', 1, True, ['write_files', 'dsv', 'cells'] if c.tier == 'quick' else list(BODIES))


HARNESSES = [
    Harness('once', once, None),
    Harness('twice', twice, None),
]
