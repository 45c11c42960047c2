import json
import decimal
import warnings

from mc.explore import Harness
from .common import norm, ref_parse

from csvw import TableGroup, Table, CSVW

ASSUMPTIONS = [
    'a property has the value at level L which names L, so that the level a value came from can be '
    'told', 'JSON conversion is observed for valid, non-null cells only']

LEVELS = ['group', 'table', 'schema', 'column']
U = 'http://example.org/'
VALUES = {
    'null': dict(group=['g'], table='t', schema=['s', 's2'], column='c'),
    'default': dict(group='dg', table='dt', schema='ds', column='dc'),
    'datatype': dict(group='integer', table='decimal', schema='float', column='string'),
    'separator': dict(group=';', table='/', schema='|', column='+'),
    'required': dict(group=True, table=False, schema=True, column=False),
    'aboutUrl': {L: U + 'about-' + L + '{_row}' for L in LEVELS},
    'propertyUrl': {L: U + 'prop-' + L for L in LEVELS},
    'valueUrl': {L: U + 'val-' + L + '-{c}' for L in LEVELS},
}
# Other values, to make sure that any explicit value counts, not just "true" ones.
ALT = {
    'null': dict(group=[], table=[], schema=[], column=[]),
    'required': dict(group=False, table=True, schema=False, column=True),
    'datatype': dict(group='string', table='float', schema={'base': 'decimal'},
                     column={'base': 'integer', 'minimum': 5}),
    'default': {L: 'g' for L in LEVELS},
    'null ""': dict(group=[''], table='', schema=[''], column=''),
}
PROPS = list(VALUES)
CELLS = ['10', '', 'g', 't', 's', 'c', '1;2', '3/4', '5|6', '7+8', '9', '1;2/3|4+5']
CONV = {
    'string': str, 'integer': int, 'decimal': decimal.Decimal, 'float': float,
}


def convert(v, dt):
    if dt is None:
        return v
    base = dt['base'] if isinstance(dt, dict) else dt
    try:
        res = CONV[base](v)
    except (ValueError, decimal.InvalidOperation):
        raise ValueError(v)
    if isinstance(dt, dict) and res < dt.get('minimum', res):
        raise ValueError(v)
    return res


def parse(cell, eff):
    default = eff['default'] or ''
    null = eff['null']
    s = cell or default
    if eff['required'] and (s in null or (eff['separator'] and not s)):
        raise ValueError
    if eff['separator']:
        if not s:
            return []
        if s in null:
            return None
        return [None if x in null else convert(x, eff['datatype'])
                for x in [x or default for x in s.split(eff['separator'])]]
    if s in null:
        return None
    return convert(s, eff['datatype'])


def inherit(c):
    """All placements of each property on any subset of the levels (others within the bound)."""
    kind = c.choose('metadata', ['group', 'table'])
    levels = LEVELS if kind == 'group' else LEVELS[1:]
    main = c.every('property', PROPS)
    desc = {L: {} for L in LEVELS}
    for prop in [main] + [p for p in PROPS if p != main]:
        for L in levels:
            opts = [None, VALUES[prop][L]]
            if prop in ALT:
                opts.append(ALT[prop][L])
            if prop == 'null':
                opts.append(ALT['null ""'][L])
            v = (c.every if prop == main else c.choose)(prop + '@' + L, opts)
            if v is not None:
                desc[L][prop] = v
    how = c.choose('made', ['fromvalue', 'file', 'append'])
    cells = CELLS
    schema = dict(desc['schema'], columns=[dict(desc['column'], name='c')])
    table = dict(desc['table'], url='t.csv', tableSchema=schema)
    ctx = {'@context': 'http://www.w3.org/ns/csvw'}
    md = dict(ctx, **dict(desc['group'], tables=[table])) if kind == 'group' else dict(ctx, **table)
    c.describe(md)
    c.state(md)
    (c.dir / 't.csv').write_text('c\n' + ''.join('"{}"\n'.format(x) for x in cells))
    cls = TableGroup if kind == 'group' else Table
    p = c.dir / 'md.json'
    p.write_text(json.dumps(md))
    if how == 'file':
        obj = cls.from_file(p)
    else:
        obj = cls.fromvalue(json.loads(json.dumps(md)))
        obj._fname = p
    t = obj.tables[0] if kind == 'group' else obj
    if how == 'append':
        # A column added later inherits once it is told its parent.
        old = t.tableSchema.columns.pop()
        t.tableSchema.columns.append(old)

    eff, raw_null = {}, None
    for prop in PROPS:
        eff[prop] = None
        for L in LEVELS:
            if prop in desc[L]:
                eff[prop] = desc[L][prop]
    through = [desc[L]['null'] for L in LEVELS if desc[L].get('null') not in (None, '', [''])]
    fix = lambda n: [n] if isinstance(n, str) else ([''] if n is None else n)  # noqa: E731
    eff['null'] = fix(eff['null'])

    def results(eff):
        exp = []
        for cell in cells:
            try:
                exp.append(norm(parse(cell, eff)))
            except ValueError:
                exp.append('ValueError')
        return exp

    exp = results(eff)
    got = []
    col = t.tableSchema.columns[0]
    for cell in cells:
        try:
            got.append(norm(col.read(cell)))
        except ValueError:
            got.append('ValueError')
    if eff['null'] == [''] and through and got != exp and got == results(
            dict(eff, null=fix(through[-1]))):
        c.fail('explicit null "" does not override an inherited null', repr(md))
        return
    c.check(got == exp, 'read', lambda: 'got {}, expected {}'.format(got, exp))

    class Log:
        def warning(self, msg):
            pass
    rows = [norm(r['c']) for r in t.iterdicts(log=Log())]
    c.check(rows == [e for e in exp if e != 'ValueError'], 'rows', repr(rows))
    c.outcome(exp)
    c.tick()

    # JSON conversion
    if any(p in desc[L] for p in ('aboutUrl', 'propertyUrl', 'valueUrl') for L in LEVELS) or \
            main == 'aboutUrl':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            js = CSVW(str(p)).to_json()['tables'][0]['row']
        c.check(len(js) == len(cells), 'json rows', len(js))
        about = None
        for L in LEVELS[:3]:
            about = desc[L].get('aboutUrl', about)
        about = desc['column'].get('aboutUrl', about)
        for i, (obj, e, cell) in enumerate(zip(js, exp, cells), start=1):
            if e in ('ValueError', ('NoneType', None)) or isinstance(e, list) or (
                    e[0] == 'decimal.Decimal' or e[0] == 'Decimal'):
                continue
            if e[1] == '' or e[1] in eff['null'] or e[0] == 'float':
                continue
            value = e[1]
            if eff['valueUrl']:
                value = eff['valueUrl'].replace('{c}', str(e[1]).replace('/', '%2F').replace(
                    '|', '%7C').replace('+', '%2B').replace(';', '%3B'))
            name = eff['propertyUrl'] or 'c'
            if 'aboutUrl' in desc['column'] and name == 'c':
                continue  # not a URL, cannot be serialized as triple
            found = False
            for o in obj['describes']:
                if o.get('@id') != (about and about.replace('{_row}', str(i))):
                    continue
                v = o.get(name)
                if v == value or (eff['valueUrl'] and v == {'@id': value}) or (
                        'aboutUrl' in desc['column'] and str(v) == str(value)):
                    found = True
            c.check(found, 'json', lambda: 'got {}, expected {} {} {}'.format(
                obj, about, name, value))
            c.outcome(about, name, value)
            c.tick()


def short_rows(c):
    """A required cell that is missing from a row is an error, wherever `required` is set."""
    desc = {L: {} for L in LEVELS}
    for L in LEVELS:
        v = c.every('required@' + L, [None, True, False])
        if v is not None:
            desc[L]['required'] = v
    schema = dict(desc['schema'], columns=[dict(name='k', required=False), dict(
        desc['column'], name='c')])
    md = dict(desc['group'], tables=[dict(desc['table'], url='t.csv', tableSchema=schema)])
    tg = TableGroup.fromvalue(md)
    tg._fname = c.dir / 'md.json'
    header = c.every('header', ['k,c', 'k'])
    (c.dir / 't.csv').write_text(header + '\nx,1\ny\nz,\n' if header == 'k,c' else 'k\nx\n')
    required = None
    for L in LEVELS:
        required = desc[L].get('required', required)
    c.state(md, header)
    c.describe(dict(md=md, header=header))
    msgs = []

    class Log:
        def warning(self, msg):
            msgs.append(msg)
    try:
        rows = [r['k'] for r in tg.tables[0].iterdicts(log=Log())]
    except ValueError:
        rows = 'ValueError'
    if header == 'k':
        exp = 'ValueError' if required else ['x']
    else:
        exp = ['x'] if required else ['x', 'y', 'z']
        c.check(len(msgs) == (2 if required else 0), 'messages', msgs)
    c.check(rows == exp, 'rows', lambda: 'got {}, expected {}'.format(rows, exp))
    c.outcome(rows)


DIALECTS = [None, {'delimiter': ';'}, {'quoteChar': "'"}, {'header': False}, {'skipRows': 1}, {},
            {'encoding': 'utf-16'}, {'commentPrefix': 'x'}]


def dialects(c):
    """The dialect of the table, else of the group, else the default one; never a mixture."""
    g = c.every('group', DIALECTS)
    t = c.every('table', DIALECTS)
    t2 = c.every('other table', DIALECTS[:3])
    how = c.every('how', ['inline', 'group linked', 'table linked'])
    eff = t if t is not None else (g or {})
    md = {'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}},
                     {'url': 'u.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}]}
    if g is not None:
        md['dialect'] = g
    if t is not None:
        md['tables'][0]['dialect'] = t
    if t2 is not None:
        md['tables'][1]['dialect'] = t2
    obj = md if how == 'group linked' else md['tables'][0]
    if how != 'inline':
        if 'dialect' not in obj or how == 'table linked':
            return
        p = c.dir / 'dialect.json'
        p.write_text(json.dumps(obj['dialect']))
        obj['dialect'] = str(p)
    c.state(md)
    c.describe(md)
    tg = TableGroup.fromvalue(md)
    tg._fname = c.dir / 'md.json'
    for eff, table in [(eff, tg.tables[0]), (t2 if t2 is not None else (g or {}), tg.tables[1])]:
        text = "a,b\nk;l,'m'\nxy,z\n\"u,v\"\n"
        (c.dir / table.local_name).write_text(
            text, encoding=eff.get('encoding', 'utf-8'), newline='')
        rows = [r for r, _, _ in ref_parse(
            text, delimiter=eff.get('delimiter', ','), quote=eff.get('quoteChar', '"'))]
        rows = rows[eff.get('skipRows', 0):]
        if 'commentPrefix' in eff:
            rows = [r for r in rows if not r[0].startswith(eff['commentPrefix'])]
        header = rows.pop(0) if eff.get('header', True) else ['a', 'b']
        exp = []
        for row in rows:
            d = dict.fromkeys(['a', 'b'])
            d.update(zip(header, row))
            exp.append(d)
        got = [dict(r) for r in table.iterdicts()]
        c.check(got == exp, 'rows', lambda: 'got {}, expected {}'.format(got, exp))
        c.outcome(got)


HARNESSES = [
    Harness('inherit', inherit, 1, 2),
    Harness('short_rows', short_rows, None),
    Harness('dialects', dialects, None),
]
