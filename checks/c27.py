import os
import re
import json
import pathlib
import datetime
import decimal
import warnings
import collections

import requests_mock

from mc.explore import Harness

from csvw import CSVW, Table, TableGroup, Link
from csvw.metadata import URITemplate, NAMESPACES

ASSUMPTIONS = [
    'HTTP is answered by a stand-in for the transport adapter of requests (requests_mock)',
    'exploded lists of empty strings as path-style parameters are out of scope (uritemplate)',
    'local links are paths: they are not percent-decoded, and a path is compared after os.path.normpath',
    'an absolute @base in the context of local metadata is out of scope of the repaired behaviour and listed as known finding',
    'URLs are the same if they differ only in an empty fragment or query, or the length of runs of slashes '
    '(as the standard library resolves them)',
    'the table of namespace prefixes of csvw is taken as given',
]
CTX = 'http://www.w3.org/ns/csvw'


# -- References: RFC 3986 and RFC 6570 ------------------------------------------------------------
URI = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?', re.DOTALL)


def dots(path):
    out = []
    segments = path.split('/')
    for i, s in enumerate(segments):
        last = i == len(segments) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if len(out) > 1 or (out and out[0] != ''):
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return '/'.join(out)


def resolve(base, ref):
    """RFC 3986, section 5.2.2"""
    b, r = URI.match(base).groups(), URI.match(ref).groups()
    (bs, ba, bp, bq), (s, a, p, q, f) = (b[0], b[2], b[4], b[5]), (r[0], r[2], r[4], r[5], r[7])
    if s:
        return ref
    s = bs
    if a is None:
        a = ba
        if not p:
            p = bp
            q = bq if q is None else q
        elif p.startswith('/'):
            p = dots(p)
        else:
            p = dots(('/' if ba and not bp else bp[:bp.rfind('/') + 1]) + p)
    return s + a + p + (q or '') + (f or '')


def local(base, ref):
    """The same for paths: `base` is the path of a file."""
    if ref[:1] in ('', '#', '?'):
        return base + ref
    return os.path.join(os.path.dirname(base), ref)


UNRESERVED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
RESERVED = set(":/?#[]@!$&'()*+,;=")


def encode(s, reserved):
    res, i = '', 0
    while i < len(s):
        if s[i] in UNRESERVED or (reserved and s[i] in RESERVED):
            res += s[i]
        elif reserved and re.match('%[0-9a-fA-F]{2}', s[i:]):
            res += s[i:i + 3]
            i += 2
        else:
            res += ''.join('%{:02X}'.format(x) for x in s[i].encode('utf8'))
        i += 1
    return res


OPS = {  # first, separator, named, if empty, reserved
    '': ('', ',', False, '', False),
    '+': ('', ',', False, '', True),
    '#': ('#', ',', False, '', True),
    '.': ('.', '.', False, '', False),
    '/': ('/', '/', False, '', False),
    ';': (';', ';', True, '', False),
    '?': ('?', '&', True, '=', False),
    '&': ('&', '&', True, '=', False),
}


def expand(template, variables):
    """RFC 6570, section 3.2 (without associative arrays)"""
    def expression(m):
        op, specs = m.groups()
        first, sep, named, ifemp, res = OPS[op]
        parts = []
        for spec in specs.split(','):
            explode = spec.endswith('*')
            name, _, length = spec.rstrip('*').partition(':')
            value = variables.get(name)
            if value is None or value == []:
                continue
            if isinstance(value, list):
                if explode:
                    parts.append(sep.join(
                        (name + (ifemp if v == '' else '=') if named else '') + encode(v, res) for v in value))
                else:
                    parts.append((name + '=' if named else '') + ','.join(encode(v, res) for v in value))
            else:
                if length:
                    value = value[:int(length)]
                parts.append((name + (ifemp if value == '' else '=') if named else '') + encode(value, res))
        return first + sep.join(parts) if parts else ''
    return re.sub(r'\{([+#./;?&]?)([^}]*)\}', expression, template)


def reference(template, variables, base):
    """Expansion, prefixed names, resolution."""
    res = expand(template, variables)
    m = re.match(r'([A-Za-z][A-Za-z0-9+.-]+):', res)
    if m and m.group(1) in NAMESPACES:
        return NAMESPACES[m.group(1)] + res[len(m.group(0)):]
    if m:
        return res
    return resolve(base, res) if re.match('https?:', base) else pathlib.Path(local(base, res))


# -- Links ----------------------------------------------------------------------------------------
REMOTE = 'http://example.org/a/b/md.json'
WHERE = ['path', 'str', 'relative', 'cwd', 'dotted', REMOTE, 'https://example.org/md.json', REMOTE + '?x=1/2#y']
BASES = [None, 'http://example.net/x/y/', 'http://example.net/x/y.json']
CTXBASES = [None, 'sub/', 'sub/other.json', '../', '..', '.', 'other.json', 'http://example.com/c/d.json', 'http://example.com/e/']
SHAPES = ['table', 'group', 'group itself']


def context(c, ctxbase):
    if ctxbase is None:
        return c.choose('context', [CTX, [CTX], [CTX, {'@language': 'en'}]])
    return c.choose('context', [[CTX, {'@base': ctxbase}], [CTX, {'@language': 'en', '@base': ctxbase}]])


def effective(where, mdpath, base, ctxbase):
    """The URL or path of the base, as string."""
    loc = base or (where.split('#')[0].split('?')[0] if where.startswith('http') else mdpath)
    if not ctxbase:
        return loc
    if loc.startswith('http'):
        return resolve(loc, ctxbase)
    if ctxbase.startswith('http'):
        return ctxbase
    res = local(loc, ctxbase)
    return res + '/' if ctxbase.split('/')[-1] in ('.', '..') else res


def target(base, link):
    if base.startswith('http'):
        return resolve(base, link)
    if link.startswith('http'):
        return link
    return os.path.join(os.path.dirname(base), link)


def local_md(c, where):
    if where == 'dotted':
        return c.dir / 'a.csv' / 'b.v1' / 'md.json'
    return c.dir / 'a' / 'b' / 'md.json'


class Site:
    """Scratch directory with a metadata file in a/b/ and everything that may be referenced."""
    def __init__(self, c, where):
        self.c, self.where = c, where
        self.dir = str(c.dir)
        self.cwd = os.getcwd()
        self.mdpath = str(local_md(c, where))

    def __enter__(self):
        os.makedirs(os.path.join(os.path.dirname(self.mdpath), 'sub'))
        if self.where == 'relative':
            os.chdir(self.dir)
        if self.where == 'cwd':
            os.chdir(os.path.dirname(self.mdpath))
        self.mock = requests_mock.Mocker()
        self.m = self.mock.__enter__()
        self.m.get(requests_mock.ANY, status_code=404, text='404')
        return self

    def __exit__(self, *args):
        self.mock.__exit__(*args)
        os.chdir(self.cwd)

    def put(self, loc, text):
        if loc.startswith('http'):
            self.m.get(loc.split('#')[0], text=text)
        else:
            p = os.path.normpath(loc.split('#')[0])
            assert p.startswith(self.dir + '/'), p
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf8') as fp:
                fp.write(text)

    def load(self, cls, md, entry):
        text = json.dumps(md)
        if self.where.startswith('http'):
            self.m.get(self.where.split('#')[0], text=text)
            arg = self.where
        else:
            self.put(self.mdpath, text)
            arg = {'path': pathlib.Path(self.mdpath), 'str': self.mdpath, 'cwd': 'md.json',
                   'relative': os.path.join('a', 'b', 'md.json'),
                   'dotted': pathlib.Path(self.mdpath)}[self.where]
        if entry == 'CSVW':
            return CSVW(arg).t
        if entry == 'from_url' and self.where.startswith('http'):
            return cls.from_url(arg)
        return cls.from_file(arg)


def same(got, exp):
    """URLs are strings, local files are paths"""
    if exp.startswith('http'):
        return isinstance(got, str) and got == exp
    return isinstance(got, pathlib.Path) and os.path.normpath(os.path.abspath(str(got))) == os.path.normpath(exp)


def known(c, where, base, ctxbase, failed):
    """Local metadata with an absolute base in the context"""
    if not base and not where.startswith('http') and (ctxbase or '').startswith('http'):
        if failed():
            c.fail(json.dumps(['local metadata', ctxbase]), 'base in the context is ignored')
            return True
    return False


def links(c):
    """Every way to locate the metadata, to give a base, and to write the url of a table."""
    where = c.every('where', WHERE)
    base = c.every('base', BASES)
    ctxbase = c.every('context base', CTXBASES)
    shape = c.every('shape', SHAPES)
    link = c.every('link', ['x.csv', 's/x.csv', './x.csv', '../x.csv', 'a b.csv', '\u00e4.csv', 'x', 'x.csv#f',
                            'http://example.edu/x.csv', 'https://example.edu/s/x.csv?y=1', 'ABS', '..x.csv', 's/../s/./x.csv'])
    entry = c.choose('entry', ['from_file', 'from_url', 'CSVW'])
    ctx = context(c, ctxbase)
    eff = effective(where, str(local_md(c, where)), base, ctxbase)
    if link == 'ABS':
        link = '/x.csv' if eff.startswith('http') else str(c.dir / 'abs.csv')
    exp = target(eff, link)
    c.describe((where, base, ctxbase, shape, link.replace(str(c.dir), ''), entry))
    c.state(where, base, ctxbase, shape, link.replace(str(c.dir), ''), entry, ctx)
    table = {'url': link, 'tableSchema': {'columns': [{'name': 'n', 'titles': 'n'}]}}
    md = collections.OrderedDict([('@context', ctx)])
    if base:
        md['@base'] = base
    if shape == 'table':
        md.update(table)
    else:
        md['tables'] = [table, {'url': 'zz.csv', 'tableSchema': {'columns': [{'name': 'z'}]}}]
    with Site(c, where) as site, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        site.put(exp, 'n\nright\n')
        obj = site.load(Table if shape == 'table' else TableGroup, md, entry)
        t = obj if shape == 'table' else obj.tables[0]
        b = (obj if shape == 'group itself' else t).base
        got = t.url.resolve(b)
        if known(c, where, base, ctxbase, lambda: not same(got, exp)):
            return
        key = json.dumps([where, base, ctxbase, shape, link.replace(str(c.dir), ''), entry])
        c.tick()
        c.check(same(got, exp), key, lambda: '{!r} resolved against {!r} gives {!r}, expected {!r}'.format(link, b, got, exp))
        if '#' not in link or exp.startswith('http'):
            rows = list(t.iterdicts())
            c.check(rows == [{'n': 'right'}], key, lambda: 'rows {}'.format(rows))
        c.check(Link(link).resolve(b) == got, key, 'Link')
        c.check(str(t.url) == link and t.url.asdict() == link, key, lambda: 'link {}'.format(t.url))
        c.outcome(str(got).replace(str(c.dir), ''))


def references(c):
    """Schemas and dialects given as link."""
    where = c.every('where', WHERE)
    base = c.every('base', BASES)
    ctxbase = c.every('context base', CTXBASES)
    place = c.every('place', ['table', 'group', 'first table', 'second table'])
    what = c.every('what', ['tableSchema', 'dialect'])
    link = c.every('link', ['d.json', 's/d.json', '../d.json', 'http://example.edu/d.json', 'ABS'])
    entry = c.choose('entry', ['from_file', 'from_url', 'CSVW'])
    ctx = context(c, ctxbase)
    eff = effective(where, str(local_md(c, where)), base, ctxbase)
    if link == 'ABS':
        link = '/d.json' if eff.startswith('http') else str(c.dir / 'abs.json')
    exp = target(eff, link)
    name = link.replace(str(c.dir), '')
    c.describe((where, base, ctxbase, place, what, name, entry))
    c.state(where, base, ctxbase, place, what, name, entry, ctx)
    schema = {'columns': [{'name': 'n', 'datatype': 'integer'}, {'name': 'm'}]}
    doc = schema if what == 'tableSchema' else {'delimiter': ';'}
    if what == 'tableSchema' and place == 'group':
        c.skip() if hasattr(c, 'skip') else None
        return
    tables = [{'url': x, 'tableSchema': schema} for x in ('x.csv', 'y.csv')]
    md = collections.OrderedDict([('@context', ctx)])
    if base:
        md['@base'] = base
    if place == 'table':
        del tables[1:]
        tables[0][what] = link
        md.update(tables[0])
    else:
        md['tables'] = tables
        (md if place == 'group' else tables[['first table', 'second table'].index(place)])[what] = link
    with Site(c, where) as site, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        applies = []
        for i, t in enumerate(tables):
            hit = what == 'dialect' and place in ('table', 'group', ['first table', 'second table'][i])
            site.put(target(eff, t['url']), 'n,m\n1,x\n'.replace(',', ';' if hit else ','))
        for decoy in {'d.json', 'abs.json'}:  # In the working directory and next to the metadata.
            wrong = json.dumps({'columns': [{'name': 'wrong'}], 'delimiter': '|'})
            for loc in [os.path.join(os.getcwd(), decoy), os.path.join(os.path.dirname(site.mdpath), decoy)]:
                if loc.startswith(str(c.dir)):
                    site.put(loc, wrong)
        site.put(exp, json.dumps(doc))
        key = json.dumps([where, base, ctxbase, place, what, name, entry])

        def read():
            obj = site.load(Table if place == 'table' else TableGroup, md, entry)
            return [list(t.iterdicts()) for t in ([obj] if place == 'table' else obj.tables)]

        def failed():
            try:
                return read() != [[{'n': 1, 'm': 'x'}]] * len(tables)
            except Exception:
                return True
        if known(c, where, base, ctxbase, failed):
            return
        res = read()
        c.tick()
        c.check(res == [[{'n': 1, 'm': 'x'}]] * len(tables), key, lambda: res)
        c.outcome(place, what)


# -- Templates ------------------------------------------------------------------------------------
VALUES = ['v', 'a b', '\u00e4', '%20', '%', 'a/b?c#d', '', None, 'http://h/z', 'schema:name', '..', "it's,x", 'urn:x:1', '#f',
          'wxyz', ['p', 'q/r'], [], [''], ['p', None], ['\u00e4']]
TYPED = [('integer', 5, '5'), ('integer', -1, '-1'), ('decimal', decimal.Decimal('1.50'), '1.50'), ('boolean', True, 'true'),
         ('boolean', False, 'false'), ('date', datetime.datetime(2020, 1, 2), '2020-01-02'), ('double', 2.5, '2.5'),
         ('string', '0', '0'), ('gYear', '2020', '2020'),
         ({'base': 'date', 'format': 'dd.MM.yyyy'}, datetime.datetime(2020, 1, 2), '2020-01-02'),
         ({'base': 'double', 'format': '0.000'}, 2.5, '2.5')]
EXPRS = ['a', 'a,b', 'a*', 'a:3', 'a*,b*', '_row', '_name', 'nope', 'nope,a', 'b,nope', '_row,_name', 'a.b', 'self', 'uri', 'c%20d']
LITERALS = ['', 'x/', 'x', '#', '/abs/', 'http://h/d/', 'schema:', 'urn:x:', '?q=', '../', '//h/', 'nope:', 'schema', 'https://h?', 'svn+ssh://h/', 'x-y.z1:']
TABLES = ['http://example.org/a/b/t.csv', 'http://example.org/t.csv?x=1', 'local', 'no url']


def templates(c):
    """All operators and kinds of variables, for local and remote tables."""
    table = c.every('table', TABLES)
    op = c.every('operator', sorted(OPS))
    expr = c.every('expression', EXPRS)
    lit = c.every('literal', LITERALS)
    if expr in ('_row', '_name', 'nope', '_row,_name', 'a.b', 'self', 'uri', 'c%20d'):
        a = c.choose('a', VALUES[:1])
        typed = None
    else:
        kind = c.every('kind', ['text', 'typed'])
        typed = c.every('typed', TYPED) if kind == 'typed' else None
        a = typed[1] if typed else c.every('a', VALUES)
    if op == ';' and '*' in expr and a == ['']:
        return  # uritemplate writes `;a=`, RFC 6570 demands `;a`
    if a == '%' and op in ('+', '#'):
        return  # uritemplate does not encode percent signs in reserved expansions
    if a == '..' and op == '/' and lit.endswith('/'):
        return  # Dots after empty segments
    suffix = c.choose('suffix', ['', '/s', '#f', '{?b}'])
    name = c.choose('_name', ['n', None, 'a b', '_col.1'])
    rown = c.choose('_row', [1, 0, 12, None])
    cls = c.choose('class', ['table', 'table in group', 'group'])
    qname = c.choose('qname', [False, True])
    tmpl = lit + '{' + op + expr + '}' + suffix
    row = {'a': a, 'b': 'w', 'a.b': 'dot', 'self': 'me', 'uri': 'u', 'c%20d': 'pct', 'x': None}
    variables = dict(row)
    if typed:
        variables['a'] = typed[2]
    if isinstance(a, list):
        variables['a'] = [v for v in a if v is not None]
    variables['_row'] = None if rown is None else str(rown)
    variables['_name'] = name
    cols = [{'name': k} for k in row]
    if typed:
        cols[0]['datatype'] = typed[0]
    md = {'url': 't.csv', 'tableSchema': {'columns': cols}}
    top = {} if cls == 'table' else {'tables': [md]}
    if cls == 'group' and typed:
        return  # A group does not know about datatypes.
    if table == 'no url' and cls == 'group':
        pass
    key = json.dumps([table, tmpl, repr(a), name, rown, cls, qname])
    c.describe(key)
    c.state(key)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if table.startswith('http'):
            md['url'] = re.sub('.*/', '', table)
            obj = (TableGroup if top else Table).from_url(re.sub('[^/]*$', 'md.json', table), data=dict(top or md))
            base = table
        else:
            obj = (TableGroup if top else Table).from_file(c.dir / 'md.json', data=dict(top or md))
            base = str(c.dir / 't.csv')
            if table == 'no url':
                base = str(c.dir / 'md.json')
    o = obj.tables[0] if cls == 'table in group' else obj
    if cls == 'group':
        base = re.sub('[^/]*$', 'md.json', table) if table.startswith('http') else str(c.dir) + '/'
    elif table == 'no url':
        o.url = None
        base = str(c.dir) + '/'
    exp = reference(tmpl, variables, base)
    if base.endswith('/') and isinstance(exp, pathlib.Path) and (expand(tmpl, variables)[:1] in ('', '#', '?')):
        exp = pathlib.Path(os.path.join(base, expand(tmpl, variables)))
    if qname and isinstance(exp, str):
        for prefix, ns in NAMESPACES.items():
            if exp.startswith(ns):
                exp = prefix + ':' + exp[len(ns):]
    got = o.expand(URITemplate(tmpl), row, _row=rown, _name=name, qname=qname)
    if isinstance(got, str) and isinstance(exp, str):  # Empty fragments and queries do not matter.
        got, exp = [re.sub(r'\?(#|$)', r'\1', re.sub('#$', '', x)) for x in (got, exp)]
        got, exp = [re.sub('//+', '/', x) for x in (got, exp)]
    c.tick()
    c.check(type(got) is type(exp) or isinstance(got, pathlib.Path) == isinstance(exp, pathlib.Path), key, lambda: '{!r}, expected {!r}'.format(got, exp))
    c.check(str(got) == str(exp), key, lambda: '{} gives {}, expected {}'.format(tmpl, str(got).replace(str(c.dir), ''), str(exp).replace(str(c.dir), '')))
    c.outcome(str(got).replace(str(c.dir), ''))


def prefixes(c):
    """All prefixed names, and back."""
    prefix = c.every('prefix', sorted(NAMESPACES))
    name = c.every('name', ['name', 'a/b', '', 'x-y', '\u00e4', 'url'])
    how = c.every('how', ['literal', 'variable', 'part', 'url', 'reserved'])
    qname = c.every('qname', [False, True])
    table = c.every('table', TABLES)
    ns = NAMESPACES[prefix]
    name = ns + 'z' if name == 'url' else name
    local_ = encode(name, True)
    tmpl, row, exp = {
        'literal': (prefix + ':' + local_, {}, None),
        'variable': (prefix + ':{+a}', {'a': name}, None),
        'reserved': ('{+a}', {'a': prefix + ':' + name}, None),
        'part': (prefix[:1] + '{+a}', {'a': prefix[1:] + ':' + name}, None),
        'url': (ns + '{+a}', {'a': name}, None),
    }[how]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        md = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
        if table.startswith('http'):
            t = Table.from_url('http://example.org/md.json', data=md)
        else:
            t = Table.from_file(c.dir / 'md.json', data=md)
            if table == 'no url':
                t.url = None
    got = t.expand(URITemplate(tmpl), row, _row=1, _name='a', qname=qname)
    key = json.dumps([prefix, name, how, qname, table])
    c.state(key)
    c.tick()
    want = prefix + ':' + local_ if qname else ns + local_
    c.check(got == want, key, lambda: '{} gives {}, expected {}'.format(tmpl, got, want))
    c.outcome(got)


def located(c):
    """Metadata found for, or given with, a CSV file: its location is the base, not the one of the file."""
    how = c.every('how', ['given local', 'given local for remote', 'given remote', 'linked', 'default', 'site-wide'])
    mdrel = c.every('metadata', ['md.json', '../md.json', 'x/md.json'])
    shape = c.every('shape', ['table', 'group'])
    if how == 'default' and mdrel != 'md.json':
        return
    remote = how != 'given local'
    mixed = how == 'given local for remote'
    root = 'http://example.org/' if remote else str(c.dir) + '/'
    csv = root + 'a/b/t.csv'
    md = resolve(csv, {'default': 't.csv-metadata.json'}.get(how, mdrel)) if remote else os.path.normpath(root + 'a/b/' + mdrel)
    # The link that leads from the metadata to the file
    if mixed:
        md = str(c.dir) + '/md.json'
    link = csv if mixed else {'md.json': 't.csv', '../md.json': 'b/t.csv', 'x/md.json': '../t.csv'}[mdrel]
    table = {'url': link, 'tableSchema': {'columns': [{'name': 'm', 'titles': 'n'}]}}
    doc = dict({'@context': CTX}, **table) if shape == 'table' else {'@context': CTX, 'tables': [table]}
    key = json.dumps([how, mdrel, shape])
    c.describe(key)
    c.state(key)
    with Site(c, md) as site, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        site.put(csv, 'n\nright\n')
        site.put(md, json.dumps(doc))
        if remote:
            site.m.head(csv, headers={'Link': '<{}>; rel="describedby"; type="application/csvm+json"'.format(mdrel)} if how == 'linked' else {})
        if how == 'site-wide':
            site.m.get('http://example.org/.well-known/csvm', text=mdrel)
        c.tick()
        try:
            obj = CSVW(csv, md_url=md) if how.startswith('given') else CSVW(csv)
            res = list(obj.tables[0].iterdicts())
        except Exception as e:
            res = '{}: {}'.format(type(e).__name__, e)
    c.check(res == [{'m': 'right'}], key, lambda: res)
    c.outcome(how, mdrel)


HARNESSES = [
    Harness('links', links, 1, 2),
    Harness('references', references, 1, 2),
    Harness('templates', templates, 1, 2),
    Harness('located', located, None, None),
    Harness('prefixes', prefixes, None, None),
]
