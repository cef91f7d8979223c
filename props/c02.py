"""Whole logins between the library's relying party and its provider."""
from urllib.parse import parse_qsl, urlsplit

from props.c21 import Form
from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import OP, Web
from openid import fetchers
from openid.association import SessionNegotiator
from openid.consumer.consumer import Consumer
from openid.server.server import Server

ASSUMPTIONS = ['responses are delivered before the association or nonce they rest on expires', 'extension values are text that XML can represent, without newlines']
NOW = 1500000000
DAY = 86400
ENDPOINTS = ['http://op.example/endpoint', 'https://op.example/ep?x=y&z', 'http://op.example:8080/']
T2, TS, T11, T10 = 'http://specs.openid.net/auth/2.0/signon', 'http://specs.openid.net/auth/2.0/server', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'
PAIRS = [('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption')]
# how the user's page says it: (name, OpenID type)
KINDS_OF_PAGE = ['xrds2', 'xrds2', 'xrds11', 'xrds10', 'html2', 'html1', 'html12', 'op', 'op', 'xrds both']
NAMESPACES = ['http://ext.example/one', 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/srv/ax/1.0', 'http://ext.example/two?a=b']
RETURN = ['http://rp.example/back', 'http://rp.example/back?a=b&c=%26+%3D', 'http://RP.example:80', 'https://rp.example:8443/x?q=%C3%A9&blank=', 'http://rp.example/deep/a;b?x', 'http://rp.example/back?sp=+x+&%20a=%20&tab=%09t&nl=%0A&B=%C3%A9&amp=%26amp%3B&pl=%2B&eq==', 'http://rp.example/p%20q/%C3%A9?openid=1&openidx.y=2&return_to=x&next=http%3A%2F%2Frp.example%2F%3Fa%3Db']
REALM = ['http://rp.example/', 'http://*.rp.example/', 'http://*.example/', 'https://rp.example:8443/', 'http://*.rp.example']
REALM_FOR = [[0, 1, 2], [0, 1, 2], [0, 1, 2], [3], [0, 1, 2], [0, 1, 2], [0, 1, 2]]
data = st.dictionaries(st.sampled_from(NAMESPACES), st.dictionaries(st.sampled_from(['nickname', 'a', 'b.c', 'email', 'x_y', 'mode']), gen.nonl(gen.xml_text), min_size=1, max_size=3), max_size=2)
login = st.fixed_dictionaries({
    'page': st.sampled_from(KINDS_OF_PAGE), 'delegate': st.booleans(), 'user': st.integers(0, 2), 'spell': st.integers(0, 3), 'endpoint': st.sampled_from([0, 0, 0, 1, 2]),
    'immediate': st.sampled_from([False, False, True]), 'anonymous': st.sampled_from([False] * 7 + [True]), 'allow': st.sampled_from([True, True, True, False]), 'form': st.booleans(), 'session': st.sampled_from(['kept', 'kept', 'lost']),
    'return_to': st.integers(0, 6), 'realm': st.integers(0, 2), 'no_realm': st.booleans(), 'current': st.sampled_from(['full', 'bare', 'bare', 'spelled']), 'fragment': st.sampled_from([None, None, 'f2']), 'request': data, 'response': data,
    'big': st.sampled_from([0, 0, 0, 3000]), 'think': st.sampled_from([0, 0, 0, 1, 300, 4 * 3600, 13 * DAY, 14 * DAY - 1, 14 * DAY, 15 * DAY]), 'op_forgets': st.sampled_from([None, None, None, None, 'store', 'restart', 'cleanup']), 'fail_assoc': st.sampled_from([None] * 8 + ['error', '400', '500', 'garbage']),
    'gap': st.sampled_from([0, 0, 10, 5 * 3600, 20 * DAY]), 'follow': st.booleans()})
policy = st.one_of(st.none(), st.lists(st.sampled_from(PAIRS).map(list), min_size=1, max_size=4, unique_by=tuple))
case = st.fixed_dictionaries({'rp_store': st.sampled_from(KINDS + ['memory', None]), 'op_store': st.sampled_from(KINDS + ['memory']), 'rp_policy': policy, 'op_policy': policy, 'logins': st.lists(login, min_size=1, max_size=4)})


def user_page(kind, endpoint, local):
    esc = lambda s: s.replace('&', '&amp;')  # noqa: E731
    if kind.startswith('html'):
        rels = []
        if '2' in kind:
            rels.append('<link rel="openid2.provider" href="%s">' % esc(endpoint) + ('<link rel="openid2.local_id" href="%s">' % local if local else ''))
        if '1' in kind:
            rels.append('<link rel="openid.server" href="%s">' % esc(endpoint) + ('<link rel="openid.delegate" href="%s">' % local if local else ''))
        return {'headers': {'Content-Type': 'text/html'}, 'body': ('<html><head><title>x</title>%s</head><body></body></html>' % ''.join(rels)).encode()}
    types = {'xrds2': [T2], 'xrds11': [T11], 'xrds10': [T10], 'op': [TS], 'xrds both': [T2, T11]}[kind]
    ids = '' if not local or kind == 'op' else '<LocalID>%s</LocalID>' % local if kind == 'xrds2' else '<o:Delegate xmlns:o="http://openid.net/xmlns/1.0">%s</o:Delegate>' % local if kind in ('xrds11', 'xrds10') \
        else '<LocalID>%s</LocalID><o:Delegate xmlns:o="http://openid.net/xmlns/1.0">%s</o:Delegate>' % (local, local)
    return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service>%s<URI>%s</URI>%s</Service></XRD></x:XRDS>' % (''.join('<Type>%s</Type>' % t for t in types), esc(endpoint), ids)).encode()}


class World(object):
    def __init__(self, case):
        self.case = case
        self.rp = Box(case['rp_store']) if case['rp_store'] else None
        self.op = Box(case['op_store'])
        self.trouble = None
        self.asked = 0

    def close(self):
        if self.rp:
            self.rp.close()
        self.op.close()

    def server(self, endpoint):
        s = Server(self.op.store, endpoint)
        if self.case['op_policy'] is not None:
            s.negotiator = SessionNegotiator([tuple(p) for p in self.case['op_policy']])
        return s

    def consumer(self, session):
        c = Consumer(session, self.rp.store if self.rp else None)
        if self.case['rp_policy'] is not None:
            c.setAssociationPreference([tuple(p) for p in self.case['rp_policy']])
        return c

    def page(self, endpoint):
        def answer(body, headers):
            if body is None:
                return {'status': 404}
            args = dict(parse_qsl(body.decode(), keep_blank_values=True))
            if args['openid.mode'] == 'associate':
                if self.trouble == 'error':
                    return fetchers.HTTPFetchingError('no')
                if self.trouble:
                    return {'400': {'status': 400, 'body': b'error:no\n'}, '500': {'status': 500}, 'garbage': {'body': b'<html></html>'}}[self.trouble]
            else:
                self.asked += 1
            code, data = OP(None, endpoint, self.server(endpoint)).respond(args)
            return {'status': code, 'headers': {'Content-Type': 'text/plain'}, 'body': data}
        return answer


def check(ctx, case):
    clock.set(NOW)
    w = World(case)
    sessions = [{}, {}, {}]
    outcomes = []
    try:
        with Web() as web:
            for e in ENDPOINTS:
                web.pages[e] = w.page(e)
            for n in case['logins']:
                outcomes.append(login_once(ctx, w, web, sessions[n['user']], n))
                clock.advance(n['gap'])
    finally:
        w.close()
    ctx.label(*outcomes)
    ctx.nt('success' in outcomes)


def login_once(ctx, w, web, session, n):
    endpoint = ENDPOINTS[n['endpoint']]
    # what a page says never changes: a session may remember it
    path = 'user%d.example/%s%d%d' % (n['user'], n['page'].replace(' ', '-'), n['delegate'], n['endpoint'])
    claimed = 'http://' + path
    entered = [claimed, 'HTTP://USER%d.example:80/%s' % (n['user'], path.split('/')[1]), path, claimed + '#x'][n['spell']]
    local = 'http://op.example/~u%d' % n['user'] if n['delegate'] else None
    v1 = n['page'] in ('xrds11', 'xrds10', 'html1')
    op_driven = n['page'] == 'op'
    web.pages[claimed] = user_page(n['page'], endpoint, local)
    if op_driven:
        # the entered page is the provider's; the identity it picks has a page of its own
        claimed = 'http://picked.example/' + path
        web.pages[claimed] = user_page('xrds2', endpoint, local)
    w.trouble = n['fail_assoc']
    w.asked = 0
    request = w.consumer(session).begin(entered)
    if n['page'] == 'html12':
        v1 = request.endpoint.compatibilityMode()  # a second attempt takes the second service
    anonymous = n['anonymous'] and not v1
    if anonymous:
        request.setAnonymous(True)
    for ns, args in n['request'].items():
        for k, v in args.items():
            request.addExtensionArg(ns, k, v)
    return_to = RETURN[n['return_to']]
    realm = return_to if n['no_realm'] else REALM[REALM_FOR[n['return_to']][n['realm'] % len(REALM_FOR[n['return_to']])]]
    start = clock.time()
    if n['form'] and not request.shouldSendRedirect():
        action, args = read_form(request.htmlMarkup(realm, return_to, immediate=n['immediate']))
        expect_eq(urlsplit(action)[:4], urlsplit(endpoint)[:4], 'where the form goes')
        args.update(parse_qsl(urlsplit(action).query, keep_blank_values=True))
    else:
        url = request.redirectURL(realm, return_to, immediate=n['immediate'])
        expect_eq(urlsplit(url)[:3], urlsplit(endpoint)[:3], 'where the redirect goes')
        args = dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))
    had = args.get('openid.assoc_handle')
    clock.advance(n['think'])
    if n['op_forgets'] == 'store':
        w.op.close()
        w.op = Box(w.op.kind)
    elif n['op_forgets'] == 'restart':
        w.op.reopen()
    elif n['op_forgets'] == 'cleanup':
        w.op.store.cleanup()
    got, response, sent = answer(w, endpoint, n, args, claimed, local, op_driven, anonymous, v1, session, return_to)
    state = {} if n['session'] == 'lost' else session
    late = v1 and w.rp is not None and clock.time() - start > 5 * 3600
    if n['allow']:
        if late:
            expect_eq(got.status, 'failure', 'status of a late OpenID 1 response')
            return 'late'
        success(n, got, claimed, local, op_driven, anonymous, v1, sent)
        if had is not None and n['op_forgets'] == 'store':
            expect_eq(sent.get('openid.invalidate_handle'), had, 'handle that the provider does not know')
        if w.rp is not None and had is not None and sent.get('openid.invalidate_handle') == had:
            expect(w.asked >= 1, 'no direct verification')
            expect(w.rp.store.getAssociation(endpoint, had) is None, 'the association that the provider does not know is kept')
    elif n['immediate']:
        expect_eq(got.status, 'setup_needed', 'status of a negative immediate answer')
        if v1:
            expect_eq(urlsplit(got.setup_url)[:3], urlsplit(endpoint)[:3], 'setup URL')
            if n['follow'] and not late:
                again = dict(parse_qsl(urlsplit(got.setup_url).query, keep_blank_values=True))
                m = dict(n, immediate=False, allow=True, session='lost')
                got, response, sent = answer(w, endpoint, m, again, claimed, local, op_driven, anonymous, v1, state, return_to, False)
                success(m, got, claimed, local, op_driven, anonymous, v1, sent)
                return 'success after setup'
    else:
        expect_eq(got.status, 'cancel', 'status of a refusal')
    return got.status


def success(n, got, claimed, local, op_driven, anonymous, v1, sent):
    expect_eq((got.status, getattr(got, 'message', None) if got.status != 'success' else None), ('success', None), 'status of a positive answer')
    if anonymous:
        expect_eq(got.identity_url, None, 'identity')
    else:
        want = claimed
        if op_driven and n['fragment']:
            want += '#' + n['fragment']
        expect_eq(got.identity_url, want, 'identity')
    for ns, args in n['response'].items():
        expect_eq(got.extensionResponse(ns, True), args, 'signed extension data')
        for k, v in args.items():
            expect_eq(got.getSigned(ns, k), v, 'signed extension argument')


def answer(w, endpoint, n, args, claimed, local, op_driven, anonymous, v1, session, return_to, asked=True):
    server = w.server(endpoint)
    request = server.decodeRequest(dict(args))
    expect_eq(request.mode, 'checkid_immediate' if n['immediate'] else 'checkid_setup', 'mode at the provider')
    expect(request.trustRootValid(), 'realm')
    if asked:
        for ns, wanted in n['request'].items():
            expect_eq(request.message.getArgs(ns), wanted, 'extension arguments at the provider')
    if anonymous:
        expect_eq(request.identity, None, 'identity asked for')
    elif op_driven:
        expect(request.idSelect(), 'no identifier selection')
    else:
        expect_eq(request.identity, local or claimed, 'identity asked for')
        if not v1:
            expect_eq(request.claimed_id, claimed, 'claimed identifier asked for')
    kw = {}
    if n['allow'] and op_driven and not anonymous:
        kw = {'identity': local or claimed, 'claimed_id': claimed + ('#' + n['fragment'] if n['fragment'] else '')}
    response = request.answer(n['allow'], **kw)
    extra = n['response']
    if n['allow']:
        for ns, a in extra.items():
            for k, v in a.items():
                response.fields.setArg(ns, k, v)
        if n['big']:
            response.fields.setArg('http://ext.example/big', 'x', 'y' * n['big'])
    out = server.encodeResponse(response)
    if out.code == 302:
        where = out.headers['location']
        sent = dict(parse_qsl(urlsplit(where).query, keep_blank_values=True))
    else:
        expect_eq(out.code, 200, 'HTTP status')
        where, sent = read_form(out.body)
        sent.update(parse_qsl(urlsplit(where).query, keep_blank_values=True))
    expect_eq(urlsplit(where)[:3], urlsplit(return_to)[:3], 'where the answer goes')
    current = where if n['current'] == 'full' else where.split('?')[0]
    if n['current'] == 'spelled':
        # as some web servers tell it to the application
        scheme, host = urlsplit(where)[:2]
        current = current.replace('%s://%s' % (scheme, host), '%s://%s%s' % (scheme.upper(), host.upper(), {'http': ':80', 'https': ':443'}[scheme.lower()] if ':' not in host else ''), 1)
    got = w.consumer({} if n['session'] == 'lost' else session).complete(dict(sent), current)
    return got, response, sent


def read_form(html):
    f = Form()
    f.feed(html)
    expect_eq(f.attrs['method'].lower(), 'post', 'form method')
    expect_eq(len(set(k for k, v in f.fields)), len(f.fields), 'number of distinct form fields')
    return f.attrs['action'], dict(f.fields)


FACETS = [Facet('login', case, check, quick=2400, rule='at least one login succeeds')]
