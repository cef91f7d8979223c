"""All fetchers against a scripted server on the loopback interface."""
import shutil
import socket
import tempfile
import threading
from email.utils import formatdate

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf.loop import available, loop, response
from vf.web import OP, form, query
from openid import fetchers
from openid.consumer.consumer import Consumer
from openid.server.server import Server
from openid.store.memstore import MemoryStore

ASSUMPTIONS = ['the fetcher libraries installed here; http only', 'no redirects without a location, redirect loops, 308, 307 in answer to POST, truncated bodies, bodies over 1 MB, coded bodies, repeated headers']
FETCHERS = available()
NAMES = ['X-XRDS-Location', 'Content-Type', 'Content-Location', 'ETag', 'X-Powered-By', 'Cache-Control', 'Link', 'x-lower', 'X-UPPER-CASE', 'Vary', 'Refresh', 'Set-Cookie', 'Location']
VALUE = st.one_of(st.sampled_from(['text/html; charset=utf-8', 'application/xrds+xml', 'no-cache', 'a:b', 'http://victim.example/', '"tag"', 'a, b', 'max-age=600', 'Basic realm="x"', '']),
                  st.text('abcXYZ019 :;=,"/?#&%-_.()', max_size=20).map(str.strip))
BAD = ['ftp://127.0.0.1:%(f)d/x', 'file:///etc/hostname', 'file://127.0.0.1/x', 'mailto:a@b', 'javascript:1', 'data:text/html,x', 'gopher://127.0.0.1:%(a)d/x', 'httpx://127.0.0.1:%(a)d/x', 'xri://=a', 'ldap://127.0.0.1:%(a)d/x', 'dict://127.0.0.1:%(a)d/x']
BAD_START = BAD + ['', 'x', '/x', '//127.0.0.1:%(a)d/x', '127.0.0.1:%(a)d/x', 'http', 'http:', 'ht tp://127.0.0.1:%(a)d/']
small = st.one_of(st.binary(max_size=40), st.sampled_from([b'', b'is_valid:true\n', b'\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'\0', b'a=b&c=d%20e', b'\xef\xbb\xbf<html>', b'{}'])).map(lambda b: b.decode('latin-1'))
sizes = st.sampled_from([None] * 30 + [1000, 16385, 70000, 1048575, 1048576])
body = st.tuples(small, sizes).map(list)
token = st.text('abcxyzABC0123456789-_.~', min_size=1, max_size=5)
page = st.fixed_dictionaries({'name': token, 'query': st.sampled_from([None, None, 'a=1', 'a=1&b=%2F', 'q=http%3A%2F%2Fx%2F%3Fy', 'b=&a=+']), 'port': st.sampled_from([0, 0, 1]),
                              'headers': st.lists(st.tuples(st.sampled_from(NAMES), VALUE).map(list), max_size=4, unique_by=lambda p: p[0].lower()),
                              'body': body, 'framing': st.sampled_from(['length', 'length', 'chunked', 'close']), 'interim': st.sampled_from([False] * 6 + [True])})
hop = st.fixed_dictionaries({'page': page, 'code': st.sampled_from([301, 302, 303, 307]), 'form': st.sampled_from(['absolute', 'absolute', 'path', 'relative', 'network', 'dots']), 'location': st.sampled_from(['Location', 'location', 'LOCATION'])})
final = st.one_of(st.just({'kind': 'page', 'status': 200}), st.sampled_from([200, 200, 201, 203, 204, 400, 401, 403, 404, 405, 410, 418, 500, 501, 503]).map(lambda s: {'kind': 'page', 'status': s}),
                  st.sampled_from([0] * 3 + [1] * 4).flatmap(lambda k: st.sampled_from(BAD_START).map(lambda u: {'kind': 'bad', 'url': u}) if k else st.sampled_from(['refused', 'empty', 'garbage']).map(lambda x: {'kind': x})))
HEAD = ['Accept', 'User-Agent', 'X-Test', 'Content-Type', 'Accept-Language']
request = st.fixed_dictionaries({'page': page, 'hops': st.sampled_from([0, 0, 1, 1, 2, 3, 4]).flatmap(lambda n: st.lists(hop, min_size=n, max_size=n)), 'final': final,
                                 'post': st.one_of(st.none(), body), 'fragment': st.sampled_from([None, None, None, 'f', '']),
                                 'headers': st.one_of(st.none(), st.dictionaries(st.sampled_from(HEAD), VALUE.filter(bool), max_size=3))})
case = st.fixed_dictionaries({'fetcher': st.sampled_from(FETCHERS), 'wrapped': st.sampled_from([True, True, False]), 'requests': st.lists(request, min_size=1, max_size=3)})


def data(spec):
    text, size = spec
    b = text.encode('latin-1')
    if size is not None:
        b = (b + b'0123456789abcdef' * (size // 16 + 1))[:size]
    return b


def build(server, r, number):
    """-> (script, URLs in order, final page or None)"""
    urls, script = [], {}
    for n in range(len(r['hops']) + 1):
        p = (r['hops'] + [r])[n]['page']
        target = '/d%d/%d%s%s' % (number, n, p['name'], '' if p['query'] is None else '?' + p['query'])
        port = p['port']
        if n and r['hops'][n - 1]['form'] in ('path', 'relative', 'dots'):
            port = urls[-1][0]
        urls.append((port, target))
    kind = r['final']['kind']
    full = ['http://127.0.0.1:%d%s' % (server.ports[port], target) for port, target in urls]
    if kind == 'bad':
        full[-1] = r['final']['url'] % {'a': server.ports[0], 'f': server.ftp_port}
    elif kind == 'refused':
        full[-1] = 'http://127.0.0.1:%d%s' % (server.closed_port, urls[-1][1])
    for n, h in enumerate(r['hops']):
        p = h['page']
        location = full[n + 1]
        last = n + 1 == len(r['hops'])
        if not last or kind not in ('bad', 'refused'):
            target = urls[n + 1][1]
            location = {'absolute': location, 'path': target, 'relative': target[len('/d%d/' % number):], 'network': location[5:], 'dots': '../x/.././d%d/' % number + target[len('/d%d/' % number):]}[h['form']]
        headers = [x for x in p['headers'] if x[0] != 'Location'] + [[h['location'], location]]
        script[server.ports[urls[n][0]], urls[n][1]] = response(h['code'], headers, data(p['body']), p['framing'], p['interim'])
    p = r['page']
    where = (server.ports[urls[-1][0]], urls[-1][1])
    if kind == 'page':
        script[where] = response(r['final']['status'], p['headers'], data(p['body']), p['framing'], p['interim'])
    elif kind == 'empty':
        script[where] = b''
    elif kind == 'garbage':
        script[where] = b'\0\1garbage\r\n\r\n'
    return script, urls, full, p


def usable(r):
    """Bad URLs that are only bad to start with are not redirected to; 307 is not sent in answer to POST."""
    if r['hops'] and r['final']['kind'] == 'bad' and r['final']['url'] not in BAD:
        r = dict(r, hops=[])
    if r['post'] is not None:
        r = dict(r, hops=[dict(h, code=302 if h['code'] == 307 and all(g['code'] == 307 for g in r['hops'][:n]) else h['code']) for n, h in enumerate(r['hops'])])
        if r['hops'] and r['hops'][0]['code'] == 307:
            r['hops'][0]['code'] = 302
    return r


def check(ctx, case):
    server = loop()
    fetchers.setDefaultFetcher(getattr(fetchers, case['fetcher'])(), wrap_exceptions=case['wrapped'])
    try:
        for number, r in enumerate(case['requests']):
            one(ctx, server, case, usable(r), number)
    finally:
        fetchers.setDefaultFetcher(None)
        server.answer = None
    ctx.label(case['fetcher'])


def one(ctx, server, case, r, number):
    script, urls, full, p = build(server, r, number)
    server.log[:] = []
    server.answer = lambda port, method, target, headers, body: script.get((port, target), response(404, [], b'no such page'))
    body = None if r['post'] is None else data(r['post'])
    kind = r['final']['kind']
    url = full[0]
    fragment = r['fragment'] is not None and not (kind == 'bad' and not r['hops'])
    if fragment:
        url += '#' + r['fragment']
    headers = None if r['headers'] is None else dict(r['headers'])
    if kind != 'page':
        expect_raises(fetchers.HTTPFetchingError if case['wrapped'] else Exception, 'fetching %r (%s)' % (full, kind), fetchers.fetch, url, body, headers)
        expect_eq(headers, r['headers'], 'headers that were given')
        ctx.label('%s%s' % (kind, ' after a redirect' if r['hops'] else ''))
        ctx.nt()
        if kind == 'bad' and not r['hops']:
            expect_eq(server.log, [], 'requests for a bad URL')
        return
    got = fetchers.fetch(url, body, headers)
    expect_eq(headers, r['headers'], 'headers that were given')
    expect(isinstance(got, fetchers.HTTPResponse), 'fetch returned %r', got)
    wanted = b'' if r['final']['status'] == 204 else data(p['body'])
    expect_eq(got.status, r['final']['status'], 'status')
    expect(isinstance(got.body, bytes) and got.body == wanted, 'body of %d bytes is %d bytes: %r, expected %r', len(wanted), len(got.body), got.body[:60], wanted[:60])
    final_url = got.final_url.split('#')[0]
    expect_eq(final_url, full[-1], 'final URL')
    for name, value in p['headers']:
        expect_eq(got.headers.get(name.lower()), value, 'header %s' % name)
        expect(name.lower() in got.headers, 'header %s is not in the headers', name)
        expect_eq(got.headers[name.lower()], value, 'header %s' % name)
    for name in NAMES:
        if name.lower() not in [n.lower() for n, v in p['headers']]:
            expect(name.lower() == 'content-location' or got.headers.get(name.lower()) is None, 'header %s was not sent by the server, got %r', name, got.headers.get(name.lower()))
    log = list(server.log)
    expect_eq([(x['port'], x['target']) for x in log], [(server.ports[port], target) for port, target in urls], 'requests')
    for n, x in enumerate(log):
        posted = body is not None and n == 0
        expect_eq((x['method'], x['body']), ('POST' if posted else 'GET', body if posted else b''), 'method and body of request %d' % n)
        names = [k for k, v in x['pairs']]
        expect_eq(names.count('host'), 1, 'host headers')
        for name, value in (r['headers'] or {}).items():
            if name == 'Content-Type' and n:
                continue
            expect_eq([v for k, v in x['pairs'] if k == name.lower()], [value], 'request header %s' % name)
        if posted:
            if 'Content-Type' not in (r['headers'] or {}):
                expect_eq([v for k, v in x['pairs'] if k == 'content-type'], ['application/x-www-form-urlencoded'], 'content type of the POST request')
    ctx.label('%d hops' % len(r['hops']), 'POST' if body is not None else 'GET', str(r['final']['status']))
    ctx.nt(bool(r['hops']) or body is not None or bool(p['headers']))


URLS = {'direct': [], 'redirect': ['302'], 'redirects': ['301', '303']}
login_case = st.fixed_dictionaries({'fetcher': st.sampled_from(FETCHERS), 'document': st.sampled_from(['html', 'html1', 'xrds', 'header', 'meta', 'accept', 'op']), 'route': st.sampled_from(sorted(URLS)), 'stateless': st.booleans(), 'port': st.sampled_from([0, 1]),
                                    'relative': st.booleans(), 'answer': st.sampled_from(['yes', 'yes', 'yes', 'forged', 'cancel']), 'spoof': st.booleans(), 'framing': st.sampled_from(['length', 'chunked', 'close'])})
XRDS = '''<?xml version="1.0" encoding="UTF-8"?>
<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>http://specs.openid.net/auth/2.0/%s</Type><URI>%s</URI></Service></XRD></xrds:XRDS>'''


def check_login(ctx, case):
    server = loop()
    root, other = ['http://127.0.0.1:%d' % server.ports[p] for p in (case['port'], 1 - case['port'])]
    endpoint = other + '/endpoint'
    op = OP(None, endpoint, Server(MemoryStore(), endpoint))
    xrds = (XRDS % ('server' if case['document'] == 'op' else 'signon', endpoint)).encode('ascii')
    html = '<html><head><link rel="%s" href="%s"></head></html>' % ('openid.server' if case['document'] == 'html1' else 'openid2.provider', endpoint)
    kind = case['document']

    def page(accept):
        extra = [['Content-Location', 'http://victim.example/']] if case['spoof'] else []
        if kind in ('xrds', 'op') or (kind == 'accept' and 'application/xrds+xml' in accept):
            return 200, extra + [['Content-Type', 'application/xrds+xml; charset=utf-8']], xrds
        if kind in ('html', 'html1'):
            return 200, extra + [['Content-Type', 'text/html']], html.encode('ascii')
        if kind == 'header':
            return 200, extra + [['Content-Type', 'text/html'], ['X-XRDS-Location', other + '/xrds']], b'<html></html>'
        if kind == 'meta':
            return 200, extra + [['Content-Type', 'text/html']], ('<html><head><meta http-equiv="X-XRDS-Location" content="%s/xrds"></head></html>' % other).encode('ascii')
        return 406, [], b'?'

    hops = URLS[case['route']]

    def answer(port, method, target, headers, body):
        if target == '/endpoint' and method == 'POST':
            if headers.get('content-type') != 'application/x-www-form-urlencoded':
                return response(415, [], b'error:content type\n')
            op.requests.append(form(body))
            status, reply = op.respond(form(body))
            return response(status, [['Content-Type', 'text/plain']], reply, case['framing'])
        if target == '/xrds':
            return response(200, [['Content-Type', 'application/xrds+xml']], xrds, case['framing'])
        for n, code in enumerate(hops):
            if target == '/hop%d' % n:
                to = '/hop%d' % (n + 1) if n + 1 < len(hops) else '/user'
                return response(int(code), [['Location', to if case['relative'] else root + to]], b'moved', case['framing'])
        if target == '/user':
            status, hs, data = page(headers.get('accept', ''))
            return response(status, hs, data, case['framing'])
        return response(404, [['Content-Type', 'text/plain']], b'not found')

    server.answer = answer
    fetchers.setDefaultFetcher(getattr(fetchers, case['fetcher'])())
    try:
        session = {}
        consumer = Consumer(session, None if case['stateless'] else MemoryStore())
        request = consumer.begin(root + ('/hop0' if hops else '/user'))
        claimed = root + '/user'
        rp = 'http://rp.example/'
        args = query(request.redirectURL(rp, rp + 'back'))
        expect_eq('openid.assoc_handle' in args, not case['stateless'], 'the request names an association')
        asked = op.server.decodeRequest(args)
        if case['answer'] == 'cancel':
            reply = asked.answer(False)
        elif kind == 'op':
            reply = asked.answer(True, identity=claimed, claimed_id=claimed)
        else:
            expect_eq(asked.claimed_id if kind != 'html1' else asked.identity, claimed, 'claimed identifier')
            reply = asked.answer(True)
        fields = query(op.server.encodeResponse(reply).headers['location'])
        if case['answer'] == 'forged':
            fields['openid.sig'] = 'AAAA' + fields['openid.sig'][4:]
        if kind == 'op':
            # the claimed identifier is discovered: it must be a user's page
            xrds_now = (XRDS % ('signon', endpoint)).encode('ascii')
            server.answer = lambda port, method, target, headers, body: response(200, [['Content-Type', 'application/xrds+xml']], xrds_now) if target == '/user' else answer(port, method, target, headers, body)
        consumer = Consumer(session, consumer.consumer.store)
        result = consumer.complete(fields, rp + 'back')
        wanted = {'yes': 'success', 'forged': 'failure', 'cancel': 'cancel'}[case['answer']]
        expect_eq(result.status, wanted, 'outcome (%s)' % getattr(result, 'message', None))
        if wanted == 'success':
            expect_eq(result.identity_url, claimed, 'identity')
        expect_eq([a.get('openid.mode') for a in op.requests], ([] if case['stateless'] else ['associate']) + (['check_authentication'] if case['stateless'] and case['answer'] != 'cancel' else []), 'direct requests')
    finally:
        fetchers.setDefaultFetcher(None)
        server.answer = None
    ctx.label(case['fetcher'], kind, case['answer'], case['route'])
    ctx.nt(case['answer'] != 'cancel')


# ---- which fetcher is used, and how it reports
LIBS = [('requests', 'RequestsFetcher'), ('pycurl', 'CurlHTTPFetcher'), ('httplib2', 'HTTPLib2Fetcher')]
default_case = st.fixed_dictionaries({'without': st.lists(st.sampled_from([lib for lib, name in LIBS]), unique=True, max_size=3), 'set': st.sampled_from([None, None, None] + FETCHERS + ['own', 'own']), 'wrap': st.booleans(),
                                      'what': st.sampled_from(['page', 'page', 'refused', 'https', 'https', 'https redirect', 'ftp']), 'agent': st.booleans(), 'clear': st.booleans()})


class Own(fetchers.HTTPFetcher):
    def fetch(self, url, body=None, headers=None):
        if url.endswith('/page'):
            return fetchers.HTTPResponse(url, 200, {'x': 'own'}, b'own page')
        raise ZeroDivisionError('own')


def check_default(ctx, case):
    server = loop()
    saved = {lib: getattr(fetchers, lib) for lib, name in LIBS}
    hello = []
    tls = socket.socket()
    tls.bind(('127.0.0.1', 0))
    tls.listen(8)
    tls.settimeout(10)

    def listen():
        try:
            while True:
                conn = tls.accept()[0]
                conn.settimeout(5)
                hello.append(conn.recv(1)[:1])
                conn.close()
        except OSError:
            pass

    secure = 'https://127.0.0.1:%d/page' % tls.getsockname()[1]
    url = {'page': 'http://127.0.0.1:%d/page' % server.ports[0], 'refused': 'http://127.0.0.1:%d/' % server.closed_port, 'https': secure, 'https redirect': 'http://127.0.0.1:%d/secure' % server.ports[0], 'ftp': 'ftp://127.0.0.1:%d/x' % server.ftp_port}[case['what']]
    server.answer = lambda port, method, target, headers, body: response(302, [['Location', secure]], b'') if target == '/secure' else response(200, [['X', 'y']], b'page')
    server.log[:] = []
    thread = threading.Thread(target=listen, daemon=True)
    thread.start()
    try:
        for lib in case['without']:
            setattr(fetchers, lib, None)
        fetchers.setDefaultFetcher(None)
        if case['set'] == 'own':
            own = Own()
            fetchers.setDefaultFetcher(own, wrap_exceptions=case['wrap'])
            name = 'Own'
        elif case['set'] and dict((n, lib) for lib, n in LIBS).get(case['set']) not in case['without']:
            fetchers.setDefaultFetcher(getattr(fetchers, case['set'])(), wrap_exceptions=case['wrap'])
            name = case['set']
        else:
            name = None
        if case['clear'] and name is not None:
            fetchers.setDefaultFetcher(None)
            name = None
        wrapped = True if name is None else case['wrap']
        if name is None:
            name = ([n for lib, n in LIBS if lib not in case['without'] and saved[lib] is not None] + ['Urllib2Fetcher'])[0]
        expect_eq(fetchers.usingCurl(), name == 'CurlHTTPFetcher', 'usingCurl with %s' % name)
        expect_eq(type(fetchers.createHTTPFetcher()).__name__, ([n for lib, n in LIBS if lib not in case['without'] and saved[lib] is not None] + ['Urllib2Fetcher'])[0], 'fetcher created')
        inner = fetchers.getDefaultFetcher()
        expect(fetchers.getDefaultFetcher() is inner, 'another default fetcher')
        expect_eq(isinstance(inner, fetchers.ExceptionWrappingFetcher), wrapped, 'exceptions are wrapped')
        if wrapped:
            inner = inner.fetcher
        expect_eq(type(inner).__name__, name, 'default fetcher')
        headers = {'User-Agent': 'mine'} if case['agent'] else None
        if case['what'] == 'page' or (case['what'].startswith('https') and name == 'Own' and url.endswith('/page')):
            got = fetchers.fetch(url, headers=headers)
            expect_eq((got.status, got.body, got.headers['x']), (200, b'own page', 'own') if name == 'Own' else (200, b'page', 'y'), 'page')
            if name != 'Own':
                agents = [v for k, v in server.log[0]['pairs'] if k == 'user-agent']
                expect(agents == ['mine'] if case['agent'] else len(agents) == 1 and (agents[0].startswith('python-openid/') or name in ('HTTPLib2Fetcher', 'RequestsFetcher')), 'user agent %r', agents)
        else:
            try:
                got = fetchers.fetch(url, headers=headers)
            except Exception as e:
                expect_eq(isinstance(e, fetchers.HTTPFetchingError), wrapped or (name == 'CurlHTTPFetcher' and isinstance(e, fetchers.HTTPError)), 'wrapping of %r' % e)
                if wrapped:
                    expect(isinstance(e.why, Exception) and e.why is not e, 'cause of %r is %r', e, e.why)
                    if name == 'Own':
                        expect(isinstance(e.why, ZeroDivisionError), 'cause %r', e.why)
            else:
                expect(False, 'fetching %r gave %r', url, got)
            if case['what'].startswith('https') and name != 'Own':
                thread.join(0.01)
                for _ in range(200):
                    if hello:
                        break
                    thread.join(0.01)
                expect_eq(hello[:1], [b'\x16'], 'start of the TLS connection')
    finally:
        fetchers.setDefaultFetcher(None)
        for lib, value in saved.items():
            setattr(fetchers, lib, value)
        server.answer = None
        tls.shutdown(socket.SHUT_RDWR)
        tls.close()
    ctx.label(name, case['what'], 'wrapped' if wrapped else 'bare')
    ctx.nt(case['what'] != 'page' or bool(case['without']))


# ---- the fetcher that has a cache
FRESH = ['max-age=3600', 'max-age=1', 'public, max-age=100000']
POLICY = [None, None, 'no-store', 'no-cache', 'private', 'max-age=0', 'must-revalidate'] + FRESH
cached_page = st.fixed_dictionaries({'control': st.sampled_from(POLICY), 'tag': st.booleans(), 'modified': st.booleans(), 'vary': st.sampled_from([None, None, None, 'Accept']), 'status': st.sampled_from([200, 200, 200, 404]),
                                     'redirect': st.sampled_from([None, None, None, 301, 302])})
cache_case = st.fixed_dictionaries({
    'pages': st.lists(cached_page, min_size=2, max_size=2), 'how': st.sampled_from(['directory', 'own', 'none']),
    'steps': st.lists(st.one_of(st.tuples(st.just('get'), st.integers(0, 1), st.sampled_from([None, None, 'application/xrds+xml', 'text/html'])), st.tuples(st.just('get'), st.just(0), st.none()),
                                st.tuples(st.sampled_from(['change', 'post', 'fail']), st.integers(0, 1), st.none())).map(list), min_size=3, max_size=9)})


class OwnCache(object):
    """The interface that httplib2 asks for."""

    def __init__(self):
        self.data = {}

    def get(self, key):
        return self.data.get(key)

    def set(self, key, value):
        self.data[key] = value

    def delete(self, key):
        self.data.pop(key, None)


def check_cache(ctx, case):
    if 'HTTPLib2Fetcher' not in FETCHERS:
        return
    server = loop()
    version = [0, 0]
    seen = [set(), set()]       # versions that the fetcher has been sent
    failing = [False, False]
    base = 'http://127.0.0.1:%d' % server.ports[0]

    def answer(port, method, target, headers, body):
        n = int(target[-1])
        p = case['pages'][n]
        if failing[n]:
            return b''
        if method == 'POST':
            return response(200, [], b'posted ' + body)
        if target.startswith('/from') and p['redirect']:
            return response(p['redirect'], [['Location', base + '/page%d' % n]], b'moved')
        hs = [['Date', formatdate(usegmt=True)]]
        tag = '"v%d"' % version[n]
        if p['control']:
            hs.append(['Cache-Control', p['control']])
        if p['vary']:
            hs.append(['Vary', p['vary']])
        if p['tag']:
            hs.append(['ETag', tag])
        if p['modified']:
            hs.append(['Last-Modified', formatdate(1500000000 + version[n] * 1000, usegmt=True)])
        if p['tag'] and headers.get('if-none-match') == tag:
            return response(304, hs, b'')
        seen[n].add(version[n])
        accept = headers.get('accept', '') if p['vary'] else ''
        return response(p['status'], hs + [['X-Version', str(version[n])]], ('page %d version %d for %s' % (n, version[n], accept)).encode())

    folder = None
    if case['how'] == 'directory':
        folder = tempfile.mkdtemp(prefix='cache')
    fetcher = fetchers.HTTPLib2Fetcher({'directory': folder, 'own': OwnCache(), 'none': None}[case['how']])
    server.answer = answer
    kept = 0
    try:
        for what, n, accept in case['steps']:
            p = case['pages'][n]
            url = base + ('/from%d' if p['redirect'] else '/page%d') % n
            if what == 'change':
                version[n] += 1
                continue
            if what == 'fail':
                failing[n] = True
                continue
            server.log[:] = []
            headers = {'Accept': accept} if accept else {}
            if what == 'post':
                failing[n] = False
                got = fetcher.fetch(base + '/page%d' % n, b'x=1', headers)
                expect_eq((got.status, got.body, got.final_url), (200, b'posted x=1', base + '/page%d' % n), 'answer to a POST')
                expect_eq([x['method'] for x in server.log], ['POST'], 'requests')
                continue
            fails = failing[n]
            try:
                got = fetcher.fetch(url, None, headers)
            except Exception as e:
                expect(fails, 'fetching %s raised %r', url, e)
                failing[n] = False
                ctx.label('failed')
                continue
            asked = [x['target'] for x in server.log]
            expect(not fails or not asked, 'fetching gave %r although the connection broke', got)
            failing[n] = False
            expect_eq((got.status, got.final_url), (p['status'], base + '/page%d' % n), 'status and final URL')
            v = int(got.headers['x-version'])
            expect_eq(got.body.decode(), 'page %d version %d for %s' % (n, v, (accept or '') if p['vary'] else ''), 'body')
            if p['control'] in FRESH and p['status'] == 200:
                expect(v in seen[n], 'version %d was never sent', v)
            else:
                expect_eq(v, version[n], 'version')
            if '/page%d' % n not in asked:
                kept += 1
    finally:
        server.answer = None
        if folder:
            shutil.rmtree(folder)
    ctx.label(case['how'])
    if kept:
        ctx.label('taken from the cache')
    ctx.nt(kept > 0 or any(p['tag'] for p in case['pages']))


FACETS = [Facet('cache', cache_case, check_cache, quick=500, rule='an answer comes from the cache or has a tag', cpu=60), Facet('requests', case, check, quick=2500, rule='a redirect, a POST, response headers or a fault', cpu=60),
          Facet('login', login_case, check_login, quick=600, rule='the login is answered', cpu=60),
          Facet('default', default_case, check_default, quick=500, rule='a failure, a secure URL, or libraries that are missing', cpu=60)]
