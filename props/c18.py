"""Discovery on hostile input: identifiers, documents, headers, statuses and failures of any kind."""
import os
import tempfile

from vf.core import Facet, expect, st
from vf import docs, gen
from vf.web import Web
from openid import fetchers
from openid.consumer.consumer import AuthRequest, Consumer
from openid.consumer.discover import discover
from openid.server.trustroot import verifyReturnTo
from openid.store.memstore import MemoryStore
from openid.yadis.discover import DiscoveryFailure

ASSUMPTIONS = ['the HTTP fetcher reports failures as HTTPFetchingError, as the default fetcher does', 'identifiers are text without surrogates']
SECRET = 'TOP-SECRET-TOKEN'
CT = 'application/xrds+xml'

identifier = st.one_of(
    st.sampled_from(['http://user.example/', 'user.example', 'https://user.example/x#y', '=user', '@org*x', 'xri://=user', '(tel:+1)', '!!1', '+x', '$y', 'xri://', '=', '(', '(((', 'xri://(', 'http://', 'http:///', '', ' ', '.', '/', '//user.example/',
                     'ftp://user.example/', 'mailto:me@user.example', 'javascript:alert(1)', 'user@user.example', 'http://user.example:port/', 'http://user.example:99999/', 'http://[::1]/', 'http://[::1', '[', ']', 'http://us er.example/', 'user..example',
                     '\xe9l\xe8ve.example', 'http://\u2603.example/', 'a' * 70 + '.example', '%', '%zz', 'http://%zz/', 'http://user.example/%', '?', '#', '#frag', 'http://user.example?x', 'http:user.example', 'HTTP://USER.EXAMPLE/', 'http://user.example\\@evil/',
                     '=user?x#y', '=(=(=x))', '@*', 'xri://xri://=a', 'xri://http://x/', 'https:', 'http://xn--/', 'http://user.example/\x00', 'http://user.example/\n']),
    gen.tricky_text, gen.any_text, gen.tricky_text.map(lambda s: 'http://user.example/' + s), gen.tricky_text.map(lambda s: '=' + s), gen.tricky_text.map(lambda s: 'http://' + s))
edit = st.tuples(st.sampled_from(['cut', 'drop', 'dup', 'byte', 'insert']), st.integers(0, 4000), st.integers(0, 200), st.sampled_from(['<', '>', '&', '&x;', '</XRD>', '<!--', ']]>', '\x00', '\xff', '"', '<XRD>', '&#0;', '&#xd800;', '<?xml?>', '<script>'])).map(list)
document = st.one_of(
    st.fixed_dictionaries({'kind': st.just('xrds'), 'xrds': docs.xrds, 'cid': st.just(['=!1', '=!1!2']), 'edits': st.lists(edit, max_size=1)}),
    st.fixed_dictionaries({'kind': st.just('html'), 'html': docs.html, 'meta': st.none(), 'edits': st.lists(edit, max_size=1)}),
    st.fixed_dictionaries({'kind': st.just('xrds'), 'xrds': docs.xrds, 'cid': st.lists(st.sampled_from([None, '=!1', '', '!!', 'xri://', '=', '!', '\xe9', '(']), min_size=2, max_size=2), 'edits': st.lists(edit, max_size=3)}),
    st.fixed_dictionaries({'kind': st.just('html'), 'html': docs.html, 'meta': st.sampled_from([None, None, 'http://other.example/', '', 'relative', '//', 'http://user.example/', 'javascript:x', 'http://[', ' http://other.example/ ', '\xe9']), 'edits': st.lists(edit, max_size=3)}),
    st.fixed_dictionaries({'kind': st.just('bytes'), 'hex': gen.hexbytes(0, 60)}),
    st.fixed_dictionaries({'kind': st.just('text'), 'text': gen.tricky_text}),
    st.fixed_dictionaries({'kind': st.just('entity'), 'where': st.sampled_from(['URI', 'Type', 'LocalID', 'CanonicalID', 'attr', 'html', 'doctype', 'param']), 'how': st.sampled_from(['file', 'internal', 'bomb', 'http', 'xinclude'])}),
    st.fixed_dictionaries({'kind': st.just('deep'), 'n': st.sampled_from([10, 300, 5000]), 'tag': st.sampled_from(['a', 'div', 'XRD'])}))
page = st.fixed_dictionaries({
    'doc': document, 'status': st.sampled_from([200] * 30 + [206, 404, 500, 0, 302, 400]), 'error': st.sampled_from([False] * 24 + [True]),
    'ct': st.one_of(st.sampled_from([CT, CT, 'text/html', 'text/html; charset=utf-8', 'text/html; charset=nonsense', 'text/html; charset=', 'text/html; charset=utf-16', 'text/html; charset=idna', 'text/html; charset=rot13', 'text/html; charset=base64',
                                     'text/html;charset=utf-8;charset=x', ';', '', 'charset=utf-8', 'text/html; charset=undefined', 'text/html; charset=\x00', 'text/html; charset=\xe9', CT + ';', None]), gen.tricky_text),
    'loc': st.one_of(st.none(), st.none(), st.sampled_from(['http://other.example/', 'http://user.example/', 'relative', '', 'http://[', 'file:///etc/hostname', '\xe9', 'http://other.example:x/', 'http://'])),
    'final': st.sampled_from([None, None, None, None, 'http://final.example/', 'http://final.example/#f', 'http://FINAL.example', 'https://final.example:443/a/../b', 'http://final.example/\xe9'])})
case = st.fixed_dictionaries({'identifier': st.one_of(st.sampled_from(['http://user.example/', 'http://user.example/', '=user']), identifier), 'pages': st.lists(page, min_size=1, max_size=4), 'store': st.booleans()})


def apply(data, edits):
    for kind, at, n, what in edits:
        at = at % (len(data) + 1)
        what = what.encode('latin-1')
        if kind == 'cut':
            data = data[:at]
        elif kind == 'drop':
            data = data[:at] + data[at + n:]
        elif kind == 'dup':
            data = data[:at] + data[at:at + n] * 2 + data[at + n:]
        elif kind == 'byte':
            data = data[:at] + what + data[at + 1:]
        else:
            data = data[:at] + what + data[at:]
    return data


def body_of(doc, secret_path):
    kind = doc['kind']
    if kind == 'xrds':
        model = doc['xrds']
        return apply(docs.xrds_text(model, doc['cid'][:1 + len(model['earlier'])]), doc['edits'])
    if kind == 'html':
        return apply(docs.html_text(doc['html'], doc['meta']), doc['edits'])
    if kind == 'bytes':
        return bytes.fromhex(doc['hex'])
    if kind == 'text':
        return doc['text'].encode('utf-8')
    if kind == 'deep':
        return ('<%s>' % doc['tag'] * doc['n'] + 'x' + '</%s>' % doc['tag'] * doc['n']).encode()
    where, how = doc['where'], doc['how']
    if how == 'file':
        dtd = '<!ENTITY e SYSTEM "file://%s">' % secret_path
    elif how == 'http':
        dtd = '<!ENTITY e SYSTEM "http://127.0.0.1:9/x">'
    elif how == 'internal':
        dtd = '<!ENTITY e "http://op1.example/">'
    elif how == 'bomb':
        dtd = '<!ENTITY a "aaaaaaaaaa">' + ''.join('<!ENTITY %s "%s">' % (b, ('&%s;' % a) * 10) for a, b in zip('abcdfghij', 'bcdfghijk')) + '<!ENTITY e "&k;&k;">'
    else:
        dtd = ''
    if where == 'doctype':
        head = '<!DOCTYPE x SYSTEM "file://%s">' % secret_path
    elif where == 'param':
        head = '<!DOCTYPE x [<!ENTITY %% p SYSTEM "file://%s"> %%p; %s]>' % (secret_path, dtd)
    else:
        head = '<!DOCTYPE x [%s]>' % dtd if dtd else ''
    ref = '&e;' if dtd else '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" parse="text" href="file://%s"/>' % secret_path
    put = lambda name, text: ref if where == name else text  # noqa: E731
    if where == 'html':
        return ('%s<html><head><link rel="openid.server" href="&e;"/>%s</head></html>' % (head, ref)).encode()
    return ('<?xml version="1.0"?>%s<x:XRDS xmlns:x="xri://$xrds"><XRD xmlns="xri://$xrd*($v*2.0)"><CanonicalID>%s</CanonicalID><Service priority="%s"><Type>%s</Type><URI>%s</URI><LocalID>%s</LocalID></Service></XRD></x:XRDS>' % (
        head, put('CanonicalID', '=!1'), '&e;' if where == 'attr' and how in ('internal', 'bomb') else '1', put('Type', docs.T_SIGNON), put('URI', 'http://op1.example/'), put('LocalID', 'http://local.example/'))).encode()


class Pages(dict):
    """Every URL has a page."""

    def __init__(self, answers):
        self.answers = answers
        self.n = 0

    def get(self, url, default=None):
        p = self.answers[self.n % len(self.answers)]
        self.n += 1
        return p(url)


def run(case, func):
    fd, path = tempfile.mkstemp(prefix='secret')
    os.write(fd, SECRET.encode())
    os.close(fd)
    try:
        answers = []
        for p in case['pages']:
            body = body_of(p['doc'], path)
            headers = {}
            if p['ct'] is not None:
                headers['Content-Type'] = p['ct']
            if p['loc'] is not None:
                headers['X-XRDS-Location'] = p['loc']

            def answer(url, p=p, body=body, headers=headers):
                if p['error']:
                    return fetchers.HTTPFetchingError('broken')
                page = {'status': p['status'], 'body': body, 'headers': headers}
                if p['final']:
                    page['final'] = p['final']
                return page
            answers.append(answer)
        web = Web(budget=60)
        web.pages = Pages(answers)
        with web:
            result = func()
        expect(SECRET not in repr([(u, b) for u, b, _ in web.log]), 'contents of a local file are sent out: %r', web.log)
        return result
    finally:
        os.unlink(path)


def check(ctx, case):
    store = MemoryStore() if case['store'] else None

    def go():
        try:
            return Consumer({}, store).begin(case['identifier'])
        except DiscoveryFailure as e:
            return e

    r = run(case, go)
    if isinstance(r, DiscoveryFailure):
        ctx.label('failure')
        ctx.nt(any(p['doc']['kind'] in ('xrds', 'html') and p['doc']['edits'] for p in case['pages']))
        return
    ctx.label('request')
    ctx.nt()
    expect(isinstance(r, AuthRequest), 'begin gives %r', r)
    e = r.endpoint
    text = repr([e.server_url, e.claimed_id, e.local_id, e.canonicalID, e.type_uris])
    expect(SECRET not in text, 'contents of a local file in %s', text)
    expect(e.server_url, 'service without a server URL')
    expect(e.isOPIdentifier() or e.claimed_id, 'service without a claimed identifier')
    expect(set(e.type_uris) & set(docs.OPENID_TYPES), 'service of types %r', e.type_uris)
    msg = r.getMessage('http://rp.example/', 'http://rp.example/back')
    expect(all(isinstance(v, str) for v in msg.toPostArgs().values()), 'arguments %r', msg.toPostArgs())


def check_discover(ctx, case):
    """The function itself, and discovery on relying parties."""
    def go():
        try:
            return discover(case['identifier'])
        except (DiscoveryFailure, fetchers.HTTPFetchingError) as e:
            return e

    r = run(case, go)
    if not isinstance(r, Exception):
        ctx.label('services' if r[1] else 'no services')
        ctx.nt(bool(r[1]))
        expect(SECRET not in repr([(e.server_url, e.claimed_id, e.local_id, e.canonicalID, e.type_uris) for e in r[1]]), 'contents of a local file in the services')

    def rp():
        try:
            return verifyReturnTo('http://rp.example/', 'http://rp.example/back')
        except (DiscoveryFailure, fetchers.HTTPFetchingError) as e:
            return e

    v = run(case, rp)
    if not isinstance(v, Exception):
        expect(v is True or v is False, 'verifyReturnTo gives %r', v)
        if v:
            expect(any(docs.T_RETURN in repr(p['doc']) for p in case['pages']), 'return_to is verified without any document saying so')


FACETS = [Facet('begin', case, check, 12000, rule='a request is made, or a damaged XRDS or HTML document leads to a failure'), Facet('discover', case, check_discover, 6000, rule='services are found')]
