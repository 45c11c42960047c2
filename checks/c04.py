import os

from mc.explore import Harness
from checks import sizes
from .common import ref_parse

from csvw.dsv import UnicodeReader, add_rows, rewrite, filter_rows_as_dict
from csvw.dsv_dialects import Dialect

ASSUMPTIONS = [
    'one process edits the file; the dialect has no skipRows, skipColumns, comments or trimming '
    '(which by design remove content from what is read)',
    'blank lines are dropped by filters and not counted']

INITIAL = {
    'plain': 'h,i\r\na,b\r\nc,d\r\n',
    'missing': None,
    'empty': '',
    'header': 'h,i\r\n',
    'no final newline, lf': 'h,i\na,b\nc,d',
    'quoted': 'h,"i ""x"""\r\n"a\nb","c,d"\r\n" e ",\r\n',
    'ragged and blank': 'h,i\r\na\r\n\r\nb,c,d\r\n"",""\r\n',
    'comment': '#h,i\r\n#a,b\r\nc,d\r\n',
    'same': 'h,i\r\na,b\r\na,b\r\na,b\r\n',
    'bom': '\ufeffh,i\r\na,\u00e4\r\n',
    'many': 'h,i\r\n' + ''.join('r{},{}\r\n'.format(i, 'x' * 200) for i in range(150)),
}


def op_add(*rows):
    def fn(fname, model, kw, c):
        res = add_rows(fname, *rows)
        c.check(res is None, 'return', res)
        return (model or []) + [list(r) for r in rows]
    fn.__name__ = 'add{}'.format(rows)
    return fn


def op_rewrite(name, visit):
    def fn(fname, model, kw, c):
        calls = []

        def visitor(i, row):
            calls.append((i, list(row)))
            return visit(i, row)
        if model is None:
            try:
                rewrite(fname, visitor, **kw)
                c.fail('missing', 'rewrote a missing file')
            except (AssertionError, OSError):
                return None
        rewrite(fname, visitor, **kw)
        c.check(calls == list(enumerate(model)), 'visits', lambda: 'got {}, expected {}'.format(
            calls, model))
        new = [visit(i, list(r)) for i, r in enumerate(model)]
        return [list(r) for r in new if r is not None]
    fn.__name__ = name
    return fn


def op_filter(name, pred):
    def fn(fname, model, kw, c):
        seen = []

        def filter_(d):
            seen.append(dict(d))
            return pred(d)
        if model is None:
            try:
                filter_rows_as_dict(fname, filter_, **kw)
                c.fail('missing', 'filtered a missing file')
            except (AssertionError, OSError):
                return None
        removed = filter_rows_as_dict(fname, filter_, **kw)
        header, rows = model[:1], [r for r in model[1:] if r]
        dicts = [dict(zip(header[0], r)) for r in rows]
        c.check(seen == dicts, 'filter calls', lambda: 'got {}, expected {}'.format(seen, dicts))
        keep = [r for r, d in zip(rows, dicts) if pred(d)]
        c.check(removed == len(rows) - len(keep) and type(removed) is int, 'removed',
                lambda: 'got {}, expected {}'.format(removed, len(rows) - len(keep)))
        return header + keep
    fn.__name__ = name
    return fn


def inplace(i, row):
    row.append(str(i))
    return row


OPS = [
    op_add(['x', 'y']),
    op_rewrite('reverse cells', lambda i, r: r[::-1]),
    op_filter('h != a', lambda d: d.get('h') != 'a'),
    op_rewrite('drop second', lambda i, r: None if i == 1 else r),
    op_filter('none', lambda d: False),
    op_add(),
    op_add(['1', '"', ','], [], ['\n', '\u00e4']),
    op_add(('p', 'q'), ['#c', ' s ']),
    op_rewrite('identity', lambda i, r: r),
    op_rewrite('in place', inplace),
    op_rewrite('tuples', lambda i, r: tuple(r)),
    op_rewrite('drop first', lambda i, r: None if i == 0 else r),
    op_rewrite('drop all', lambda i, r: None),
    op_rewrite('empty rows', lambda i, r: []),
    op_rewrite('drop odd', lambda i, r: None if i % 2 else r),
    op_rewrite('split lines', lambda i, r: r + ['a\r\nb', '\r']),
    op_filter('all', lambda d: True),
    op_filter('i', lambda d: d.get('i')),
    op_filter('truthy', lambda d: [1] if 'x' in d.values() else ''),
    op_filter('header cell', lambda d: d.get('h') != 'h'),
]

DIALECTS = [
    {},
    {'delimiter': ';'},
    {'encoding': 'utf-16'},
    {'dialect': Dialect(delimiter='|', quoteChar="'", commentPrefix=None, encoding='utf-8-sig')},
    {'dialect': Dialect(delimiter='\t', doubleQuote=False, commentPrefix=None, encoding='utf-16')},
    {'lineterminator': '\n'},
]


def setup(c, initial, kw):
    p = c.dir / 'data.csv'
    d = kw.get('dialect')
    enc = d.encoding if d else kw.get('encoding', 'utf-8')
    delim = d.delimiter if d else kw.get('delimiter', ',')
    model = None
    text = INITIAL[initial]
    if text is not None:
        model = [r[0] for r in ref_parse(text.lstrip('\ufeff'))]
        if kw and model:
            text = '\r\n'.join(delim.join(
                "{1}{0}{1}".format(cell, d.quoteChar if d else '"') for cell in row)
                for row in model) + '\r\n'
        p.write_bytes(text.encode(enc))
    return p, model


def run(c, depth, ops, initial, kw, free):
    p, model = setup(c, initial, kw)
    target = c.choose('target', ['path', 'str', 'relative', 'link'])
    link = c.dir / 'links' / 'l.csv'
    if target == 'link':
        link.parent.mkdir()
        link.symlink_to(c.choose('links to', [os.path.join('..', p.name), p]))
    names = []
    mode = None
    if p.exists():
        mode = c.choose('mode', [0o644, 0o640, 0o600])
        os.chmod(p, mode)
    for i in range(depth):
        op = (c.every if free else c.choose)('op', ops)
        names.append(op.__name__)
        c.describe(dict(initial=initial, ops=names, kw=str(kw), target=target))
        fname = {'path': p, 'str': str(p), 'relative': 'data.csv', 'link': link}[target]
        cwd = os.getcwd()
        if target == 'relative':
            os.chdir(p.parent)
        try:
            if kw and op.__name__.startswith('add'):
                continue
            model = op(fname, model, kw, c)
        finally:
            os.chdir(cwd)
        c.tick()
        c.state(initial, str(kw), model)
        if model is None:
            c.check(not p.exists(), 'created')
            continue
        with UnicodeReader(p, **kw) as r:
            got = list(r)
        c.check(got == model, 'rows', lambda: 'got {}, expected {}'.format(got, model))
        if mode is not None:
            c.check(p.stat().st_mode & 0o777 == mode, 'mode', oct(p.stat().st_mode))
        c.check(set(os.listdir(p.parent)) - {'links'} == {'data.csv'}, 'files', os.listdir(p.parent))
        if target == 'link':
            c.check(link.is_symlink() and os.listdir(link.parent) == ['l.csv'], 'link', 'replaced')
    c.outcome(model)


def dense(c):
    """All sequences of operations of a core alphabet."""
    run(c, 3 if c.tier == 'quick' else 4, OPS[:7],
        c.every('initial', ['plain', 'missing', 'ragged and blank']), {}, True)


def wide(c):
    """Sequences over the whole alphabet, within the deviation bound, from all initial files."""
    initial = c.choose('initial', list(INITIAL))
    kw = c.choose('dialect', DIALECTS)
    if kw and initial in ('bom', 'quoted', 'many'):
        initial = 'plain'
    run(c, 4, OPS, initial, kw, False)


HARNESSES = [
    Harness('dense', dense, 0, 1),
    Harness('wide', wide, 3, 4),
    Harness('sizes', sizes.c04, None),
]
