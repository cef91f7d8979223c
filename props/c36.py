"""What remote parties send does not break out of the redirects and pages made from it."""
import re
from html import escape
from html.parser import HTMLParser

from vf.core import Facet, expect, expect_eq, st
from openid import fetchers
from openid.consumer.consumer import AuthRequest, Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.server.server import ENCODE_HTML_FORM, EncodingError, ProtocolError, Server
from openid.store.memstore import MemoryStore

ASSUMPTIONS = ['browsers go to what an absolute http or https URL names, and do nothing else with it']
OPENID2 = 'http://specs.openid.net/auth/2.0'
SELECT = 'http://specs.openid.net/auth/2.0/identifier_select'
T_SIGNON, T_SERVER, T_1 = 'http://specs.openid.net/auth/2.0/signon', 'http://specs.openid.net/auth/2.0/server', 'http://openid.net/signon/1.1'
CONTROL = re.compile('[\0-\x1f\x7f]')
BAD = ['\r\n', '\n', '\r', '\r\nSet-Cookie: a=b', '\r\n\r\n<script>', '\0', '\x01', '\t', '\x0b', '\x7f', '"', "'", '<script>alert(1)</script>', '"><script>alert(1)</script>', '" onload="alert(1)', "' autofocus onfocus='alert(1)",
       '</form><form action="http://evil.example/">', '>', '<!--', '-->', '&quot;', '&#34;', ']]>', '</script>', '&lt;b&gt;', '<img src=x onerror=alert(1)>', 'javascript:alert(1)', '%0d%0aX: y', '\\', '\xe9', '\u2028', '&', ';', '`']
SCHEMES = ['javascript:alert(1)//', 'JavaScript:alert(1)//', 'javascript:alert(1)', 'data:text/html,<script>alert(1)</script>', 'vbscript:x', ' javascript:alert(1)//', '\tjavascript:alert(1)//', 'java\nscript:alert(1)//', '\x01javascript:alert(1)//',
           'javascript://op.example/%0aalert(1)', 'javascript://http://op.example/', 'blob:http://rp.example/', 'file:///etc/passwd', 'ftp://rp.example/', 'about:blank', 'view-source:http://rp.example/', 'httpjavascript:alert(1)', 'httpx://rp.example/',
           'http:javascript:alert(1)', '//evil.example/', '/', '', '"><script>alert(1)</script>']
HTTP = ['http://rp.example/', 'https://rp.example/', 'HTTP://rp.example/', 'http://rp.example', 'http://rp.example/a?b=c', 'http://rp.example/a#b', 'http://rp.example:8080/x', 'HttpS://RP.example/']
LONG = [0, 0, 0, 2100, 5000]
tail = st.lists(st.one_of(st.sampled_from(BAD), st.sampled_from(BAD), st.sampled_from(['a', '/', '?a=b', '&c=d', '#f', ' ', '.'])), max_size=3).map(''.join)
url = st.sampled_from(['http', 'http', 'http', 'other', 'other', 'mixed']).flatmap(lambda k: st.tuples(
    st.sampled_from(HTTP if k == 'http' else SCHEMES if k == 'other' else [a + b for a in SCHEMES[:4] for b in HTTP[:2]]), tail, st.sampled_from(LONG), tail).map(lambda t: t[0] + t[1] + 'a' * t[2] + t[3]))
# a return_to may not have a fragment
place = st.tuples(st.sampled_from([u for u in HTTP if '#' not in u]), tail, st.sampled_from(LONG), tail).map(lambda t: t[0] + t[1].replace('#', '') + 'a' * t[2] + t[3].replace('#', ''))
text = st.tuples(tail, st.sampled_from([0, 0, 0, 0, 2500]), tail).map(lambda t: t[0] + 'b' * t[1] + t[2])
ident = st.one_of(st.just('http://user.example/'), st.just(SELECT), tail.map(lambda s: 'http://user.example/' + s))
extra = st.dictionaries(st.sampled_from(['nickname', 'a b', '"x"', '<b>', 'x\ny', 'onload']), text, max_size=2)

server_case = st.fixed_dictionaries({
    'v2': st.sampled_from([True, True, False]), 'mode': st.sampled_from(['checkid_setup'] * 4 + ['checkid_immediate'] * 3 + ['associate', 'check_authentication', None]).flatmap(lambda m: text if m is None else st.just(m)),
    'return_to': st.integers(0, 3).flatmap(lambda n: url if not n else place), 'realm': st.integers(0, 5).flatmap(lambda n: st.none() if n else url), 'identity': ident, 'handle': st.one_of(st.none(), text), 'extra': extra, 'fault': st.sampled_from([None] * 7 + ['identity', 'mode', 'ns']), 'setup': st.one_of(st.just('http://op.example/setup'), tail.map(lambda s: 'http://op.example/' + s))})


class Page(HTMLParser):
    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.tags, self.scripts, self.actions, self.events, self.other = [], [], [], [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        for k, v in attrs:
            if k.startswith('on'):
                self.events.append((tag, k, v))
            elif (tag, k) == ('form', 'action'):
                self.actions.append(v)
            elif k in ('href', 'src', 'srcdoc', 'formaction', 'style', 'http-equiv', 'autofocus'):
                self.other.append((tag, k, v))

    def handle_data(self, data):
        if self.cdata_elem == 'script':
            self.scripts.append(data)

    def handle_comment(self, data):
        self.other.append(('comment', data))

    def handle_pi(self, data):
        self.other.append(('pi', data))


def plain(whole):
    """What a page is that was made of harmless values."""
    m = OpenIDServiceEndpoint.fromOPEndpointURL('http://op.example/')
    r = AuthRequest(m, None)
    return Page((r.htmlMarkup if whole else r.formMarkup)('http://rp.example/', 'http://rp.example/'))


def go(target, to=None):
    expect(not CONTROL.search(target), 'control characters in the URL of a redirect: %r', target[:300])
    expect(target.lower().startswith(('http://', 'https://')), 'a redirect to %r', target[:200])
    if to is not None:
        want, got = [bare(x.partition('#')[0]) for x in (to, target)]
        expect(got.startswith(want), 'a redirect to %r and not to %r', target[:200], to[:200])


def bare(s):
    while True:
        t = re.sub('%[01][0-9A-Fa-f]|%7[fF]|[\0-\x1f\x7f]', '', s)
        if t == s:
            return s
        s = t


def page(markup, to, whole=True):
    p, clean = Page(markup), plain(whole)
    expect_eq(p.scripts, clean.scripts, 'scripts of the page')
    expect_eq(p.events, clean.events, 'event handlers of the page')
    expect_eq(p.other, clean.other, 'other active parts of the page')
    fold = lambda tags: [t for i, t in enumerate(tags) if not (t == 'input' and i and tags[i - 1] == 'input')]  # noqa: E731
    expect_eq(fold(p.tags), fold(clean.tags), 'elements of the page')
    expect_eq(len(p.actions), 1, 'number of forms')
    expect(p.actions[0].lower().startswith(('http://', 'https://')), 'a form for %r', p.actions[0][:200])
    expect_eq(p.actions[0].replace('\r\n', '\n').replace('\r', '\n'), to.replace('\r\n', '\n').replace('\r', '\n'), 'action of the form')


def made(ctx, server, answer, to):
    try:
        web = server.encodeResponse(answer)
    except EncodingError:
        ctx.label('not encoded')
        return None
    except ValueError as e:
        expect('XML' in str(e), 'unexpected %r', e)
        return None
    for k, v in web.headers.items():
        expect(not CONTROL.search(k + v), 'control characters in the header %r: %r', k, v[:300])
    if web.code in (301, 302, 303, 307):
        go(web.headers['location'], to)
        return 'redirect'
    expect('location' not in {k.lower() for k in web.headers}, 'a location with %r', web.code)
    body = web.body if isinstance(web.body, str) else web.body.decode('utf-8')
    if '<form' in body and web.code == 200 and answer.whichEncoding() == ENCODE_HTML_FORM:
        page(body, to)
        return 'page'
    return 'direct'


def check_server(ctx, case):
    server = Server(MemoryStore(), 'http://op.example/')
    q = {'openid.mode': case['mode'], 'openid.return_to': case['return_to'], 'openid.identity': case['identity']}
    if case['v2']:
        q['openid.ns'] = OPENID2
        q['openid.claimed_id'] = case['identity']
    if case['realm'] is not None:
        q['openid.realm' if case['v2'] else 'openid.trust_root'] = case['realm']
    if case['handle'] is not None:
        q['openid.assoc_handle'] = case['handle']
    fault = case['fault']
    if fault == 'ns':
        q['openid.ns'] = case['identity']
    elif fault:
        del q['openid.' + fault]
    rt = case['return_to']
    hostile = bool(CONTROL.search(rt)) or any(c in rt for c in '<>"\'') or not rt.lower().startswith(('http://', 'https://'))
    kinds = []
    try:
        request = server.decodeRequest(q)
    except ProtocolError as error:
        kinds.append(made(ctx, server, error, rt))
        ctx.label('error: %s' % kinds[-1])
        ctx.nt(hostile and kinds[-1] is not None)
        return
    if request is None or not request.mode.startswith('checkid'):
        if request is not None:
            made(ctx, server, server.handleRequest(request), rt)
        return
    expect(rt.lower().startswith(('http://', 'https://')), 'a request with the return_to %r is taken', rt[:200])
    if not request.immediate:
        go(request.getCancelURL(), rt)
    for allow in (False, True):
        try:
            answer = request.answer(allow, server_url=None if case['v2'] else case['setup'], identity='http://user.example/me' if request.idSelect() else None)
        except ValueError:
            expect(allow, 'a refusal can not be made')
            continue
        for k, v in case['extra'].items():
            answer.fields.setArg('http://ext.example/', k, v)
        kinds.append(made(ctx, server, answer, rt))
        try:
            page(answer.toHTML(), rt)
            page(answer.toFormMarkup(), rt, False)
        except ValueError as e:
            expect('XML' in str(e), 'unexpected %r', e)
    try:
        link = request.encodeToURL(case['setup'])
    except ValueError:
        pass
    else:
        go(link, case['setup'])
    for k in kinds:
        ctx.label('answer: %s' % k)
    ctx.nt(hostile and any(kinds))


consumer_case = st.fixed_dictionaries({
    'kind': st.sampled_from(['html', 'html1', 'xrds', 'xrds op', 'xrds1', 'direct']), 'url': url.map(lambda u: u.replace('rp.example', 'op.example')), 'second': st.sampled_from([None, 'after', 'before']), 'local': st.one_of(st.none(), ident),
    'page': st.sampled_from(['http://user.example/', 'http://user.example/', 'http://user.example/?a="><script>']), 'args': extra, 'immediate': st.booleans(), 'extra': extra})


class Net(fetchers.HTTPFetcher):
    def __init__(self, page):
        self.page = page

    def fetch(self, url, body=None, headers=None):
        if body is None:
            kind, text = self.page
            return fetchers.HTTPResponse(url, 200, {'content-type': kind}, text.encode('utf-8'))
        raise fetchers.HTTPFetchingError('nobody there')


def esc(s):
    return CONTROL.sub(lambda m: '&#%d;' % ord(m.group()), escape(s))


def document(case, urls):
    kind, local = case['kind'], case['local']
    if kind.startswith('html'):
        a, b = ('openid2.provider', 'openid2.local_id') if kind == 'html' else ('openid.server', 'openid.delegate')
        return 'text/html', '<html><head>%s%s</head><body></body></html>' % (''.join('<link rel="%s" href="%s">' % (a, esc(u)) for u in urls), '<link rel="%s" href="%s">' % (b, esc(local)) if local else '')
    t = {'xrds': T_SIGNON, 'xrds op': T_SERVER, 'xrds1': T_1}[kind]
    local = '' if not local or kind != 'xrds' else '<LocalID>%s</LocalID>' % esc(local)
    return 'application/xrds+xml', '<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s</XRD></xrds:XRDS>' % ''.join('<Service priority="%d"><Type>%s</Type><URI>%s</URI>%s</Service>' % (i, t, esc(u), local) for i, u in enumerate(urls))


def check_consumer(ctx, case):
    target = case['url']
    usable = target.lower().startswith(('http://', 'https://'))
    if case['kind'] == 'direct':
        # made by the application: no place for other schemes
        if not usable:
            target = 'http://op.example/' + target
        e = OpenIDServiceEndpoint.fromOPEndpointURL(target)
        requests = [AuthRequest(e, None)]
    else:
        second = ['http://second.example/']
        urls = (second if case['second'] == 'before' else []) + [target] + (second if case['second'] == 'after' else [])
        net = Net(document(case, urls))
        fetchers.setDefaultFetcher(net, wrap_exceptions=False)
        try:
            from openid.consumer.discover import discover
            from openid.yadis.discover import DiscoveryFailure
            try:
                found = discover(case['page'])[1]
            except DiscoveryFailure:
                found = []
            for s in found:
                expect(s.server_url.lower().startswith(('http://', 'https://')), 'a service at %r', s.server_url[:200])
            consumer = Consumer({}, None)
            requests = [consumer.beginWithoutDiscovery(s) for s in found]
        finally:
            fetchers.setDefaultFetcher(None)
        ctx.label('%d services' % len(requests))
    done = 0
    for r in requests:
        for k, v in case['args'].items():
            r.return_to_args[k] = v
        for k, v in case['extra'].items():
            r.addExtensionArg('http://ext.example/', k, v)
        to = r.endpoint.server_url
        args = ('http://rp.example/', 'http://rp.example/back', case['immediate'])
        go(r.redirectURL(*args), to)
        done += 1
        try:
            page(r.htmlMarkup(*args), to)
            page(r.formMarkup(*args), to, False)
        except ValueError as e:
            expect('XML' in str(e), 'unexpected %r', e)
    hostile = bool(CONTROL.search(target)) or any(c in target for c in '<>"\'') or not usable
    ctx.nt(hostile and (done or case['kind'] != 'direct'))


FACETS = [
    Facet('server', server_case, check_server, quick=16000, rule='the return_to has control characters, quotes, angle brackets or another scheme, and there is an answer or an error to send'),
    Facet('consumer', consumer_case, check_consumer, quick=12000, rule='the address of the provider has control characters, quotes, angle brackets or another scheme'),
]
