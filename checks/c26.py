import os
import json
import pathlib
import warnings
import collections

import requests_mock

from mc.explore import Harness

from csvw import CSVW, TableGroup

ASSUMPTIONS = [
    'HTTP is answered by a stand-in for the transport adapter of requests (requests_mock)',
    'a metadata document describes a file if one of its tables has a url with the same last path '
    'component (as documented in the code)',
    'content types of metadata documents are not checked (they are not by csvw)',
]
CTX = 'http://www.w3.org/ns/csvw'
TYPES = ['application/csvm+json', 'application/ld+json', 'application/json']


def document(kind, name, source):
    """Text of a metadata document, and whether it is JSON, and describes the file."""
    cols = {'columns': [{'titles': 'a', 'name': 'n_' + source}, {'titles': 'b', 'name': 'b'}]}
    table = collections.OrderedDict([('url', name), ('dc:source', source), ('tableSchema', cols)])
    other = {'url': 'other.csv', 'tableSchema': {'columns': [{'name': 'z'}]}}
    if kind == 'table':
        md = dict({'@context': CTX}, **table)
    elif kind == 'absolute':
        md = dict({'@context': CTX}, **table)
        md['url'] = 'http://example.org/d/' + name
    elif kind == 'group':
        md = {'@context': CTX, 'dc:source': source, 'tables': [other, dict(table)]}
    elif kind == 'other table':
        md = dict({'@context': CTX}, **dict(table, url='other.csv'))
    elif kind == 'other group':
        md = {'@context': CTX, 'tables': [other]}
    elif kind in ('suffix', 'prefix', 'longer', 'case'):
        # names similar to the one of the file
        url = {'suffix': name[1:], 'prefix': name[:-1], 'longer': 'x' + name, 'case': name.upper()}[kind] or 'other.csv'
        md = dict({'@context': CTX}, **dict(table, url=url))
    elif kind == 'no url':
        md = {'@context': CTX, 'dc:source': source}
    elif kind == 'table without url':
        md = {'@context': CTX, 'tables': [{'dc:x': 1}]}
    elif kind == 'list':
        md = [1]
    elif kind == 'string':
        md = 'x'
    elif kind == 'not json':
        return '{"@context"', False, False
    return json.dumps(md), True, kind in ('table', 'group', 'absolute')


def location(c):
    """All answers of the web server when looking for metadata."""
    thorough = c.tier == 'thorough'
    base = 'http://example.org/d/'
    name = c.choose('name', ['t.csv', 't', 't.csv?x=1', 't.csv#row=1'])
    url = base + name
    bare = url.split('#')[0]
    fname = bare.split('/')[-1]
    docs = ['missing', 'table', 'other table', 'not json']
    more = ['group', 'other group', 'no url', 'table without url', 'list', 'string', 'absolute', 'suffix', 'prefix', 'longer',
            'case']
    user = c.choose('user', ['none', 'given', 'json'])
    head = c.choose('head', [200, 404, 500])
    ctype = c.choose('content type', [None, 'text/csv', 'text/csv; header=absent', 'text/csv;charset=utf-8; header = absent',
                                      'text/csv; header=present'])
    link = c.every('link', [None, 0, 'wrong type'] + (['no type', 'wrong rel'] if thorough else []))
    if link in (None, 0):
        link = c.choose('link details', [link, 'no type', 'wrong rel'] if link is None else [0, 1, 2, 'two'])
    linkurl = c.choose('link url', ['linked.json', '/x/linked.json', 'http://example.com/linked.json'])
    wellknown = c.choose('well-known', [None, 'default', 'custom', 'blank lines', 'crlf', 'empty', 'same', 'reversed'])
    res = {}
    for x in (['linked'] if link is not None else []) + ['loc1', 'loc2']:
        doc = c.every(x, docs)
        if doc == docs[0]:
            doc = c.choose(x + ' details', [doc] + more)
        res[x] = doc
    validate = c.choose('validate', [True, False])
    default = ['{}-metadata.json'.format(bare), base + 'csv-metadata.json']
    locs, text = {
        None: (default, None),
        'default': (default, '{+url}-metadata.json\ncsv-metadata.json\n'),
        'custom': ([bare + '.json', 'http://example.org/site.json'], '{+url}.json\n/site.json'),
        'blank lines': (default, '\n{+url}-metadata.json\n\ncsv-metadata.json\n\n'),
        'crlf': (default, '{+url}-metadata.json\r\ncsv-metadata.json\r\n'),
        'empty': ([], ''),
        'same': ([base + 'csv-metadata.json'], 'csv-metadata.json'),
        'reversed': (default[::-1], 'csv-metadata.json\n{+url}-metadata.json'),
    }[wellknown]
    where = {'loc1': default[0], 'loc2': default[1]}
    if wellknown == 'custom':
        where = dict(zip(['loc1', 'loc2'], locs))
    linked = {'linked.json': base + 'linked.json', '/x/linked.json': 'http://example.org/x/linked.json'}.get(linkurl, linkurl)
    where['linked'] = linked
    served = {where[k]: (v, k) for k, v in res.items()}

    headers = {}
    if ctype:
        headers['Content-Type'] = ctype
    if link is not None:
        rel = {'wrong rel': 'describes'}.get(link, 'describedby')
        typ = TYPES[link] if link in (0, 1, 2) else {'wrong type': 'text/html', 'no type': None}.get(link, TYPES[0])
        headers['Link'] = '<{}>; rel="{}"'.format(linkurl, rel) + ('; type="{}"'.format(typ) if typ else '')
        if link == 'two':
            headers['Link'] = '<x.css>; rel="stylesheet", ' + headers['Link']
    c.describe((url, headers, wellknown, served, user))
    c.state(url, headers, wellknown, served, user, head)

    # The specified order
    found, ignored = None, 0
    candidates = ([linked] if link in (0, 1, 2, 'two') else []) + locs
    if user in ('given', 'json'):
        candidates = []
        found = ('user', 'table')
    for u in candidates:
        if u in served and served[u][0] != 'missing':
            _, isjson, describes = document(served[u][0], fname, served[u][1])
            if describes:
                found = (served[u][1], served[u][0])
                break
            ignored += isjson
    absent = ctype is not None and 'absent' in ctype and user == 'none'

    log = []
    with requests_mock.Mocker() as m, warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        m.get(requests_mock.ANY, status_code=404, text='<html>')
        m.head(url, status_code=head, headers=headers)
        m.get(bare, text='a,b\n1,2\n', headers=headers)
        m.get(base + 'other.csv', text='z\n')
        if text is not None:
            m.get('http://example.org/.well-known/csvm', text=text)
        for u, (kind, source) in served.items():
            if kind != 'missing':
                m.get(u, text=document(kind, fname, source)[0])
        m.get('http://example.net/user.json', text=document('absolute', fname, 'user')[0])
        if user == 'given':
            obj = CSVW(url, md_url='http://example.net/user.json', validate=validate)
        elif user == 'json':
            obj = CSVW('http://example.net/user.json', validate=validate)
        else:
            obj = CSVW(url, validate=validate)
        n = len(seen) + len(obj.warnings)
        js = obj.to_json(minimal=True)
        log = [r.url for r in m.request_history]
    source = obj.common_props.get('dc:source')
    key = json.dumps([url, headers, wellknown, sorted(served.items()), user, head])
    c.tick()
    c.check(source == (found and found[0]), key, lambda: 'metadata from {}, expected {}; requested {}'.format(source, found, log))
    c.check((n > 0) == (ignored > 0), key, lambda: '{} warnings, {} documents ignored: {}'.format(
        n, ignored, [str(w.message) for w in seen + obj.warnings]))
    if validate:
        c.check(n == len(obj.warnings), key, lambda: 'warnings {} {}'.format(n, obj.warnings))
    c.check(isinstance(obj.t, TableGroup) == (found is not None and found[1] == 'group'), key, 'kind of description')
    first = 'n_' + found[0] if found else ('_col.1' if absent else 'a')
    second = 'b' if found or not absent else '_col.2'
    exp = [{first: 'a', second: 'b'}] if absent else []
    exp.append({first: '1', second: '2'})
    c.check(js == exp, key, lambda: 'rows {}, expected {}'.format(js, exp))
    c.outcome(source, n, js)


def local(c):
    """Local files: X-metadata.json is used for X."""
    name = c.every('name', ['t.csv', 't', 'a b.csv', '\u00e4.txt'])
    doc = c.every('document', ['missing', 'table', 'group'])
    user = c.every('user', ['none', 'given', 'json'])
    typ = c.every('type', [str, pathlib.Path, 'relative'])
    validate = c.every('validate', [True, False])
    distractor = c.every('distractor', [None, 'csv-metadata.json', 'metadata.json'])
    c.dir.joinpath(name).write_text('a,b\n1,2\n')
    if distractor:
        c.dir.joinpath(distractor).write_text(document('table', name, 'distractor')[0])
    if doc != 'missing':
        c.dir.joinpath(name + '-metadata.json').write_text(document(doc, name, 'local')[0])
        c.dir.joinpath('other.csv').write_text('z\n')
    c.dir.joinpath('user.json').write_text(document('table', name, 'user')[0])
    cwd = os.getcwd()
    try:
        if typ == 'relative':
            os.chdir(str(c.dir))
            path, md = name, 'user.json'
        else:
            path, md = typ(c.dir / name), typ(c.dir / 'user.json')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if user == 'given':
                obj = CSVW(path, md_url=md, validate=validate)
            else:
                obj = CSVW(path if user == 'none' else md, validate=validate)
            js = obj.to_json(minimal=True)
            if validate:
                c.check(obj.is_valid, 'valid', lambda: obj.warnings)
    finally:
        os.chdir(cwd)
    source = 'user' if user != 'none' else ('local' if doc != 'missing' else None)
    c.describe((name, doc, user, str(typ)))
    c.state(name, doc, user, str(typ), distractor, validate)
    c.tick()
    key = json.dumps([name, doc, user, str(typ), distractor])
    c.check(obj.common_props.get('dc:source') == source, key, lambda: obj.common_props)
    c.check(js == [{'n_' + source if source else 'a': '1', 'b': '2'}], key, lambda: js)
    c.check(not w, key, lambda: [str(x.message) for x in w])
    c.outcome(js)


HARNESSES = [
    Harness('local', local, None, None),
    Harness('location', location, 2, 3),
]
