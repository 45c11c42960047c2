import json
import decimal
import logging
import datetime
import warnings

from mc.explore import Harness
from checks import sizes

from csvw import TableGroup, Table

ASSUMPTIONS = [
    'lines of a file end with \\n or \\r\\n; a list with an invalid item read in non-strict mode is '
    'the list of the texts of its items; cells missing at the end of a row are null, no cells; '
    'all columns required are in the file (C16)',
]
D = decimal.Decimal
# name -> (spec, valid cells with values, invalid cells)
KINDS = {
    'integer': ({'datatype': 'integer'}, [('1', 1), ('-7', -7)], ['x', '1.5', '--1']),
    'string': ({}, [('s', 's'), ('x\ny', 'x\ny'), ('x\r\ny"', 'x\r\ny"')], []),
    'list': ({'datatype': 'integer', 'separator': ';'},
             [('1;2', [1, 2]), ('3', [3]), ('1;;2', [1, None, 2])], ['1;x', 'x;y', '1,2', 'x;']),
    'decimal': ({'datatype': {'base': 'decimal', 'minimum': '0'}},
                [('1.50', D('1.5')), ('0', D(0))], ['-1', '1e5', '.', '1,0']),
    'date': ({'datatype': {'base': 'date', 'format': 'dd.MM.yyyy'}},
             [('31.12.2020', datetime.datetime(2020, 12, 31))],
             ['31.11.2020', '2020-12-31', '1.2.3']),
    'boolean': ({'datatype': {'base': 'boolean', 'format': 'Y|N'}}, [('Y', True), ('N', False)],
                ['true', '1', 'y', 'YN']),
    'regex': ({'datatype': {'base': 'string', 'format': '[ab]{2}'}}, [('ab', 'ab')],
              ['abb', 'a', 'ab\n']),
    'length': ({'datatype': {'base': 'string', 'maxLength': 2}}, [('ab', 'ab'), ('a\n', 'a\n')],
               ['abc', 'a\r\n']),
    'null': ({'datatype': 'integer', 'null': ['-', 'NA']}, [('-', None), ('5', 5)], ['na', '--']),
    'default': ({'datatype': 'integer', 'default': '9'}, [('', 9), ('5', 5)], ['z']),
    'bad default': ({'datatype': 'integer', 'default': 'q'}, [('5', 5)], ['', 'z']),
    'gYear': ({'datatype': 'gYear'}, [('2020', '2020')], []),
    'float': ({'datatype': 'number'}, [('1.5', 1.5), ('1e3', 1000.0)], ['1.5.', 'one']),
    'hexBinary': ({'datatype': 'hexBinary'}, [('a0', b'\xa0')], ['g0', 'a0a', 'a0\u00e4']),
    'base64Binary': ({'datatype': 'base64Binary'}, [('YQ==', b'a')], ['Y\u00e4', '$']),
    'json': ({'datatype': 'json'}, [('{"a": [1]}', {'a': [1]}), ('1', 1)], ['{', "{'a': 1}"]),
    'duration': ({'datatype': 'duration'}, [('P1Y', None)], ['x', '1Y']),
    'dateTime': ({'datatype': 'dateTime'},
                 [('2020-01-02T03:04:05', datetime.datetime(2020, 1, 2, 3, 4, 5))],
                 ['2020-13-02T03:04:05', 'yesterday']),
    'time': ({'datatype': {'base': 'time', 'format': 'HH:mm'}}, [('12:30', None)], ['12', '25:00']),
    'nonNegative': ({'datatype': 'nonNegativeInteger'}, [('0', 0)], ['-1']),
    'byte': ({'datatype': 'byte'}, [('-128', -128)], ['128', '1000000000000000000000']),
}
REQ = [None, 'column', 'schema', 'table']


class Log:
    def __init__(self):
        self.msgs = []

    def warning(self, msg):
        self.msgs.append(msg)

    def __getattr__(self, name):
        raise AssertionError('unexpected use of log: ' + name)


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, record):
        assert record.levelname == 'WARNING'
        self.msgs.append(record.getMessage())


def csv(row, eol):
    if row == ['']:
        return '""' + eol
    return ','.join('"{}"'.format(x.replace('"', '""')) if set(x) & set(',"\r\n#') else x
                    for x in row) + eol


def same(a, b):
    if isinstance(a, dict):
        return a == b
    return type(a) == type(b) and a == b and (
        not isinstance(a, list) or all(same(x, y) for x, y in zip(a, b)))


def errors(c):
    n = c.choose('columns', [2, 1, 3])
    kinds = [c.choose('kind{}'.format(i), sorted(
        KINDS, key=lambda k: (k != ['integer', 'list', 'string'][i], list(KINDS).index(k))))
        for i in range(n)]
    required = c.choose('required', REQ) if n else None
    names = [c.choose('name{}'.format(i), ['abc'[i], None]) for i in range(n)]
    header = c.choose('header', [True, False])
    order = c.choose('order', [1, -1]) if header and n > 1 else 1
    titles = c.choose('titles', [False, True]) if header else False
    eol = c.choose('eol', ['\n', '\r\n'])
    final = c.choose('final eol', [True, False])
    comments = c.choose('comments', [False, True])
    blank = c.choose('skip blank', [False, True])
    skip = c.choose('skip rows', [0, 2])
    mode = c.choose('mode', ['log', 'none', 'logger'] if order < 0 else ['log', 'none', 'logger', 'non-strict', 'non-strict log'])
    target = c.choose('file', ['default', 'fname', 'path', 'zip', 'second'])
    specs, keys = [], []
    for i in range(n):
        spec = dict(KINDS[kinds[i]][0])
        if names[i]:
            spec['name'] = names[i]
            if titles:
                spec['titles'] = 'title ' + names[i]
        else:
            spec['titles'] = 'only title{}'.format(i)
        keys.append(names[i] or spec['titles'])
        if required == 'column' and i == 0:
            spec['required'] = True
        specs.append(spec)
    req = [bool(required) if i == 0 else required in ('schema', 'table') for i in range(n)]
    positions = list(range(n))[::order]
    head = [('title ' + names[i] if titles and names[i] else keys[i]) for i in positions]
    text, line = '', 0

    def add(s):
        nonlocal text, line
        text += s
        line += s.count('\n')

    for i in range(skip):
        add('skipped,{}{}'.format(i, eol))
    if comments:
        add('# comment' + eol)
    if header:
        add(csv(head, eol))
    rows, reports, bad = [], [], []
    for r in range(c.choose('rows', [3, 2, 1, 4] if c.tier == 'thorough' else [3, 2, 1])):
        filler = c.choose('filler{}'.format(r), ['none'] + (['comment'] if comments else [])
                          + ['blank'])
        if filler == 'comment':
            add('#x,1' + eol)
            if r == 0:
                add('# y' + eol)
        elif filler == 'blank' and blank:
            add(eol)
        cells, raw, errs, shorten = {}, {}, [], c.choose('short{}'.format(r), [False, True])
        line_cells = []
        blankrow = filler == 'blank' and not blank
        if blankrow:  # a row without any cells
            shorten = n
        for j, i in enumerate(positions):
            spec, good, wrong = KINDS[kinds[i]]
            if j >= n - int(shorten):
                cells[keys[i]] = raw[keys[i]] = None
                if req[i]:
                    errs.append(j)
                continue
            options = [(s, v, False) for s, v in good] + [(s, None, True) for s in wrong]
            if req[i] and 'default' not in spec:
                options.append(('', None, True))
            elif 'default' not in spec:
                options.append(('', [] if 'separator' in spec else (
                    '' if 'null' in spec else None), 'null' in spec))
            if req[i] and kinds[i] == 'null':
                options = [(s, v, e or s == '-') for s, v, e in options]
            if req[i] and kinds[i] == 'list':
                options.append((';', [None, None], False))
            s, v, err = c.choose('cell{}{}'.format(r, i), options)
            if err:
                errs.append(j)
                v = s
                if 'separator' in spec and s:
                    v = [x or None for x in s.split(';')]
                elif s == '' and spec.get('default'):
                    v = Ellipsis  # neither the text of the cell nor a value
            cells[keys[i]] = v
            line_cells.append(s)
        if not line_cells:
            if blank:
                return
            add(eol)
        elif blank and set(line_cells) == {''}:
            return
        else:
            add(csv(line_cells, eol))
        # errors of cells come first, then the ones of missing cells.
        rows.append((cells, bool(errs), line))
        if errs:
            bad.append(r)
            reports.extend((line, j + 1, head[j]) for j in errs)
    if not final and not text.endswith(eol + eol):
        text = text[:-len(eol)]
        if rows:
            pass

    md = {'url': 't.csv', 'tableSchema': {'columns': specs}}
    if required == 'schema':
        md['tableSchema']['required'] = True
    elif required == 'table':
        md['required'] = True
    dialect = {}
    if not header:
        dialect['header'] = False
    if comments:
        dialect['commentPrefix'] = '#'
    if blank:
        dialect['skipBlankRows'] = True
    if skip:
        dialect['skipRows'] = skip
    if dialect:
        md['dialect'] = dialect
    md = {'tables': ([{'url': 'x.csv'}] if target == 'second' else []) + [md]}
    c.describe((md, text, mode))
    key = json.dumps([md, text, mode, target])
    c.state(md, text)
    (c.dir / 'md.json').write_text(json.dumps(md), encoding='utf8')
    fname = c.dir / 't.csv'
    kw = {}
    if target == 'zip':
        import zipfile
        with zipfile.ZipFile(c.dir / 't.csv.zip', 'w') as z:
            z.writestr('t.csv', text.encode('utf8'))
    else:
        if target in ('fname', 'path'):
            fname = c.dir / 'other name.csv'
            kw['fname'] = str(fname) if target == 'fname' else fname
        fname.write_bytes(text.encode('utf8'))
    t = TableGroup.from_file(c.dir / 'md.json').tables[-1]

    msgs = None
    if mode in ('log', 'non-strict log'):
        log = kw['log'] = Log()
        msgs = log.msgs
    elif mode == 'logger':
        log = logging.Logger('csvw-check')
        handler = Handler()
        log.addHandler(handler)
        kw['log'], msgs = log, handler.msgs
    strict = not mode.startswith('non-strict')
    if not strict:
        kw['strict'] = False

    def location(msg):
        prefix = str(fname) + ':'
        if not msg.startswith(prefix):
            return msg
        line, rest = msg[len(prefix):].split(':', 1)
        col, rest = rest.split(' ', 1)
        name = next((h for h in sorted(head, key=len, reverse=True) if rest.startswith(h + ': ')), rest)
        return int(line), int(col), name

    got, exc = [], None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            for row in t.iterdicts(with_metadata=True, **kw):
                got.append(row)
        except ValueError as e:
            exc = e
    c.tick(len(got))
    if not strict:
        exp = rows
    elif msgs is None:
        exp = rows[:bad[0]] if bad else rows
    else:
        exp = [r for r in rows if not r[1]]
    if mode == 'none':
        c.check((exc is not None) == bool(bad), key, lambda: 'raises {!r}'.format(exc))
        if exc:
            c.check(location(str(exc)) == reports[0], key,
                    lambda: 'reported {}, expected {}'.format(exc, reports[0]))
    else:
        c.check(exc is None, key, lambda: 'raises {!r}'.format(exc))
    if mode in ('log', 'logger'):
        c.check([location(m) for m in msgs] == reports, key,
                lambda: 'reported {}, expected {}'.format(msgs, reports))
    elif mode == 'non-strict log':
        c.check(not msgs, key, lambda: msgs)
    if not strict:
        c.check(len(w) >= len(reports) and bool(w) == bool(reports), key,
                lambda: 'warnings {}, expected {}'.format([str(x.message) for x in w], reports))
    c.check([r[1] for r in got] == [r[2] for r in exp], key,
            lambda: 'rows in lines {}, expected {}'.format([r[1] for r in got], [r[2] for r in exp]))
    c.check(all(str(r[0]) == str(fname) for r in got), key, lambda: 'file names')
    for g, e in zip(got, exp):
        c.check(set(g[2]) == set(e[0]), key, lambda: 'keys {}'.format(g))
        for k, v in e[0].items():
            i = keys.index(k)
            if v is Ellipsis or v is None and kinds[i] in ('duration', 'time'):
                continue
            c.check(same(g[2][k], v), key, lambda: 'got {}, expected {}'.format(g[2], e[0]))
    c.outcome(len(got), reports, mode)


def interleaved(c):
    """All patterns of good and bad rows: each row stands for itself, each report for its cell."""
    n = c.every('rows', [1, 2, 3, 4] if c.tier == 'quick' else [1, 2, 3, 4, 5])
    alphabet = [('1', True), ('x', False), ('', True), ('2;y', False)]
    rows = [(c.every('a{}'.format(i), alphabet), c.every('b{}'.format(i), alphabet[:2])) for i in range(n)]
    text = 'a,b\n' + ''.join('{},{}\n'.format(a[0], b[0]) for a, b in rows)
    (c.dir / 't.csv').write_text(text, encoding='utf8')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [
        {'name': 'a', 'datatype': 'integer', 'separator': ';'},
        {'name': 'b', 'datatype': 'integer'}]}})
    t._fname = c.dir / 'md.json'
    c.state(rows)
    c.describe(rows)
    its, logs = [], []
    for i in range(2):
        logs.append(Log())
        its.append(t.iterdicts(log=logs[-1], with_metadata=True))
    exp = [i for i, (a, b) in enumerate(rows) if a[1] and b[1]]
    errs = ['{}:{}'.format(i + 2, j + 1) for i, row in enumerate(rows)
            for j, x in enumerate(row) if not x[1]]
    got = [[], []]
    for k, i in enumerate(exp):  # two iterations, in lock-step
        for it, g in zip(its, got):
            g.append(next(it, None))
    for it, g in zip(its, got):
        g.extend(it)
    for log, g in zip(logs, got):
        c.check([x and x[1] - 2 for x in g] == exp, str(rows), lambda: 'yields {}'.format(g))
        c.check(all(
            x[2]['b'] == int(rows[i][1][0]) and x[2]['a'] == ([1] if rows[i][0][0] else [])
            for x, i in zip(g, exp)), str(rows), lambda: 'yields {}'.format(g))
        rep = [m[len(str(c.dir / 't.csv')) + 1:].split(' ')[0] for m in log.msgs]
        c.check(rep == errs, str(rows), lambda: 'reports {}'.format(log.msgs))
    c.tick(len(exp))
    c.outcome(exp, errs)


HARNESSES = [
    Harness('errors', errors, 3, 4),
    Harness('interleaved', interleaved, None),
    Harness('sizes', sizes.c17, None),
]
