"""
Runs a catalogue of operations in a new process, for C35: python -m checks.environment DIR OPTIONS.

Prints a list of [operation, outcome] as JSON (in ASCII).
"""
import argparse
import contextlib
import datetime
import decimal
import gc
import io
import json
import os
import pathlib
import re
import sys
import warnings

DATATYPES = [
    ('dateTime', None, ['2020-02-29T23:59:59', '2020-01-01T00:00:00.5Z', '2020-01-01T10:00:00-03:30', 'x']),
    ('dateTime', 'yyyy-MM-dd HH:mm:ss', ['2020-02-29 23:59:59', '0001-01-01 00:00:00']),
    ('dateTime', 'd.M.yyyy HH:mm X', ['1.12.2020 10:11 Z', '1.12.2020 10:11 -0330', '30.3.2025 02:30 +14']),
    ('dateTime', 'yyyy-MM-ddTHH:mm:ss.SSSXXX', ['2020-01-05T10:11:12.123+01:00', '2020-01-05T10:11:12.1Z']),
    ('dateTimeStamp', None, ['2020-01-01T10:00:00.000001-03:30', '2020-01-01T10:00:00']),
    ('date', None, ['2020-02-29', '2021-02-29', '2020-12-31Z', '2020-12-31+05:45']),
    ('date', 'M/d/yyyy', ['3/29/2020', '12/1/1999', '29/3/2020']),
    ('date', 'dd.MM.yyyy xx', ['01.02.2020 +0545', '01.02.2020 -0000']),
    ('time', None, ['00:00:00', '23:59:59Z', '23:59:59-11:00', '10:00:00.5']),
    ('time', 'HHmm', ['2359', '0000', '2460']),
    ('time', 'HH:mm:ss XX', ['10:00:00 +0530', '10:00:00 Z']),
    ('decimal', None, ['1.5', '-0.00001', '12345678901234567890.123456789', '1,5', 'NaN', '1e5']),
    ('decimal', '#,##0.##', ['1,234.5', '1234567890', '0.126', '0.125', '-1']),
    ('decimal', {'pattern': '#,##0.00', 'decimalChar': ',', 'groupChar': '.'}, ['1.234,50', '0,05', '1,5']),
    ('decimal', {'decimalChar': ','}, ['1,5', '123456789,123456789', '5%', '25\u2030']),
    ('number', None, ['1.5', '1e308', 'INF', '-0', '12.5%']),
    ('double', '0.0#E0', ['1.25E3', '1E5', '-2.5E-2']),
    ('float', {'pattern': '#0.0%'}, ['12.5%', '0.1%', '100.0%']),
    ('integer', None, ['12345678901234567890', '-5', '+5', '1.0', '\u0663']),
    ('integer', '#,##0', ['1,234,567', '12', '1234']),
    ('unsignedLong', None, ['18446744073709551615', '18446744073709551616']),
    ('boolean', 'I|\u0131', ['I', '\u0131', 'i', 'true']),
    ('boolean', None, ['true', '1', 'TRUE']),
    ('duration', None, ['P1Y2M', 'P1DT2H3M4.5S', '-PT1S', 'x']),
    ('dayTimeDuration', None, ['P1DT2H', 'PT0.000001S']),
    ('gYearMonth', None, ['2020-02', '2020-13']),
    ('hexBinary', None, ['0aFf', '0g']),
    ('base64Binary', None, ['w6Q=', 'w6Q']),
    ('anyURI', None, ['http://example.org/\u00e4 b', '/x']),
    ('NMTOKEN', None, ['\u0131I', 'a b']),
    ('string', '\\w+', ['\u0130i\u00df', 'a-b']),
    ('json', None, ['{"b": 1, "a": [1.50, null]}', '{']),
    ('language', None, ['en', 'de-CH', '_']),
]
INVALID = {
    '@context': ['http://www.w3.org/ns/csvw', {'@language': 'en'}],
    'url': 't.csv', 'rowTitles': ['a'], 'x': 1, 'dc:title': {'@value': 'x', '@language': 'en'},
    'dialect': {'delimiter': ',', 'unknown': 1, 'other': 2},
    'transformations': [{'url': 'x', 'scriptFormat': 'http://example.org/f', 'targetFormat': 'http://example.org/t',
                         'titles': 't', 'a1': 1, 'a2': 2, 'a3': 3}],
    'notes': [{'\u00df': 1, 'a': {'z': 2, 'y': 3}}],
    'schema:about': [{'@id': 'http://example.org/x', 'dc:a': 'x', 'dc:b': ['y', 'z']}],
    'tableSchema': {
        'columns': [
            {'name': 'a', 'titles': {'en': ['A', 'B'], 'de': 'C'}, 'datatype': 'integer'},
            {'name': 'b', 'datatype': {'base': 'decimal', 'format': {'pattern': 'x'}}, 'width': 'wide'},
            {'name': 'v', 'virtual': True, 'propertyUrl': 'schema:x', 'valueUrl': '{a}'},
            {'name': 'w', 'virtual': True, 'aboutUrl': 'http://example.org/{a}', 'propertyUrl': 'dc:y', 'valueUrl': 'x-{b}'},
        ],
        'primaryKey': ['a'],
        'foreignKeys': [{'columnReference': ['b', 'a'], 'reference': {'resource': 't.csv', 'columnReference': ['b', 'a']}}],
    },
}
DATA = 'A,b\n1,1.5\nx,2\n1,y\n,\n'
CYCLE = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [
    {'url': n + '.csv', 'tableSchema': {
        'primaryKey': 'id', 'columns': [{'name': 'id'}] + [{'name': 'to_' + m} for m in refs] + [{'name': 'many', 'separator': ' '}],
        'foreignKeys': [{'columnReference': 'to_' + m, 'reference': {'resource': m + '.csv', 'columnReference': 'id'}} for m in refs]
        + [{'columnReference': 'many', 'reference': {'resource': 'd.csv', 'columnReference': 'id'}}]}}
    for n, refs in [('a', 'bcd'), ('b', 'cd'), ('c', 'd'), ('d', ''), ('e', 'abcd')]]}


class Now(type(datetime.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, datetime.datetime)


def fake_time(now):
    """datetime.now() yields a fixed time, where csvw uses the module datetime."""
    import types
    import csvw.datatypes
    import csvw.metadata

    class datetime_(datetime.datetime, metaclass=Now):
        def __new__(cls, *args, **kw):
            return datetime.datetime(*args, **kw)

        @classmethod
        def now(cls, tz=None):
            return now.replace(tzinfo=tz)
        utcnow = today = now

    class date_(datetime.date):
        def __new__(cls, *args, **kw):
            return datetime.date(*args, **kw)

        @classmethod
        def today(cls):
            return now.date()

    shim = types.ModuleType('datetime')
    shim.__dict__.update({k: v for k, v in vars(datetime).items() if not k.startswith('__')})
    shim.datetime = datetime_
    for mod in (csvw.datatypes, csvw.metadata):
        if getattr(mod, 'datetime', None) is datetime:
            mod.datetime = shim


def plain(v):
    """Something which looks the same for equal values."""
    if isinstance(v, dict):
        return [[plain(k), plain(vv)] for k, vv in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(json.dumps(plain(x)) for x in v)
    if isinstance(v, (datetime.datetime, datetime.date, datetime.time)):
        return ['date', v.isoformat()]
    if isinstance(v, bytes):
        return ['bytes', v.decode('latin1')]
    if v is None or isinstance(v, (str, bool, int)):
        return v
    return [type(v).__name__, str(v)]


def operations(base):
    from csvw import CSVW, TableGroup
    from csvw import __main__ as cli
    from csvw.db import Database
    from csvw.metadata import Column, Datatype
    from checks import c33

    for name, text in c33.FILES.items():
        if name.endswith('.json'):
            obj = json.loads(text)
            obj['title' if name == 'datapackage.json' else 'dc:title'] = '\u00dcbersicht \u2603'
            text = json.dumps(obj, ensure_ascii=False)
        (base / name).write_bytes(text.encode('utf8'))
    (base / 'two.csv').write_bytes(c33.TWO.encode('latin1'))
    (base / 't.csv').write_bytes(DATA.encode('utf8'))
    (base / 'invalid.json').write_text(json.dumps(INVALID, ensure_ascii=False), encoding='utf8')
    (base / 'cycle.json').write_text(json.dumps(CYCLE), encoding='utf8')
    for t in CYCLE['tables']:
        cols = [c['name'] for c in t['tableSchema']['columns']]
        rows = [','.join(cols), ','.join('1' for _ in cols), ','.join(['2'] + ['1'] * (len(cols) - 2) + ['1 2'])]
        (base / t['url']).write_text('\n'.join(rows) + '\n', encoding='utf8')

    def made(name):
        d = base / ('out-' + name)
        d.mkdir()
        return d

    def datatype(spec, values):
        dt = Datatype.fromvalue(spec)
        col = Column.fromvalue({'name': 'c', 'datatype': spec, 'separator': ' ', 'null': ['-']})
        res = [dt.asdict()]
        for s in values:
            for fn in (lambda: dt.read(s), lambda: dt.formatted(dt.read(s)), lambda: col.read(s + ' -'),
                       lambda: col.write(col.read(s)), lambda: dt.read(dt.formatted(dt.read(s)))):
                try:
                    res.append(fn())
                except Exception as e:
                    res.append([type(e).__name__, str(e)])
        return res

    for base_, fmt, values in DATATYPES:
        spec = {'base': base_, 'format': fmt} if fmt else base_
        yield 'datatype ' + json.dumps(spec), lambda: datatype(spec, values)

    for name, fn in c33.BODIES.items():
        yield name, lambda: fn(c33.World(base), made(name))

    def validated(url, md=None):
        c = CSVW(str(base / url), md_url=md and str(base / md), validate=True)
        return c.is_valid, sorted(str(w.message) for w in c.warnings), c.to_json(), c.to_json(minimal=True)

    for url, md in [('invalid.json', None), ('t.csv', 'invalid.json'), ('t.csv', None), ('cycle.json', None), ('md.json', None)]:
        yield 'validate {} {}'.format(url, md), lambda: validated(url, md)

    def group(name):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tg = TableGroup.from_file(base / name)
        log = c33.Log()
        return (tg.asdict(), tg.asdict(omit_defaults=False), [list(t.iterdicts(log=log, strict=False)) for t in tg.tables],
                [t.check_primary_key(log=log) for t in tg.tables], tg.check_referential_integrity(log=log), log.messages)

    for name in ['invalid.json', 'cycle.json', 'md.json']:
        yield 'group ' + name, lambda: group(name)

    def copied(name):
        d = made('copy-' + name)
        tg = TableGroup.from_file(base / name)
        tg.copy(d)
        tg.write(d / 'sub' / 'md.json', _zipped=False, **tg.read())
        return sorted((str(p.relative_to(d)), p.read_bytes() if p.is_file() else None) for p in d.rglob('*'))

    def dumped(name, **kw):
        db = Database(TableGroup.from_file(base / name), fname=made('db-' + name + str(len(kw))) / 'x.sqlite', **kw)
        db.write_from_tg()
        with contextlib.closing(db.connection().thing) as conn:
            return list(conn.iterdump()), db.read(), [t.name for t in db.tables]

    for name in ['cycle.json', 'md.json']:
        yield 'copy ' + name, lambda: copied(name)
        yield 'db ' + name, lambda: dumped(name)

    def command(name, url, **kw):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rc = getattr(cli, name)(argparse.Namespace(url=str(base / url), verbose=True, **kw), test=True)
        return rc, out.getvalue() if name != 'csvwvalidate' else sorted(out.getvalue().split('\n'))

    for name in ['csvwvalidate', 'csvw2json', 'csvw2markdown']:
        for url in ['md.json', 'cycle.json', 'invalid.json'] + (['plain.tsv'] if name != 'csvw2markdown' else []):
            yield '{} {}'.format(name, url), lambda: command(name, url)
    yield 'csvw2datasette', lambda: (
        command('csvw2datasette', 'md.json', outdir=made('datasette')),
        (base / 'out-datasette' / 'datasette-metadata.json').read_bytes())


def main(d, options):
    base = pathlib.Path(d)
    if options.get('now'):
        fake_time(datetime.datetime.fromisoformat(options['now']))
    if options.get('decimal'):
        ctx = decimal.getcontext()
        for k, v in options['decimal'].items():
            setattr(ctx, k, v)
    if options.get('gc') == 'off':
        gc.disable()
    elif options.get('gc') == 'often':
        gc.set_threshold(1)
    if options.get('cwd'):
        os.chdir(options['cwd'])
        if options['cwd'].endswith('gone'):
            os.rmdir(options['cwd'])
    res = []
    for name, fn in operations(base):
        try:
            out = ['ok', plain(fn())]
        except Exception as e:
            out = ['exc', type(e).__name__, str(e)]
        res.append([name, json.loads(re.sub(' at 0x[0-9a-f]+', '', json.dumps(out).replace(str(base), 'BASE')))])
    sys.__stdout__.buffer.write(json.dumps(res).encode('ascii'))


if __name__ == '__main__':
    main(sys.argv[1], json.loads(sys.argv[2]))
