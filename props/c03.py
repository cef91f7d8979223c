"""Who may assert an identifier: session, assertion and web in every combination, with genuine signatures."""
import hashlib
from urllib.parse import parse_qsl, unquote, urldefrag, urlencode, urlsplit

from vf.core import Facet, expect, expect_eq, st
from vf import ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import Web, form
from openid import fetchers
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint

ASSUMPTIONS = ['signatures are genuine signatures of one of the providers', 'the XRI proxy resolver is honest']
NOW = 1500000000
T2, TS, T11, T10 = 'http://specs.openid.net/auth/2.0/signon', 'http://specs.openid.net/auth/2.0/server', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'
SERVERS = ['http://op.example/ep', 'http://op.example/ep2', 'http://op.example/EP', 'https://evil.example/?x=y']
IDS = ['http://a.example/', 'http://b.example/x', 'http://b.example/x/y', 'xri://=!9.A']
LOCALS = [None, None, None, 'http://op.example/~a', 'http://op.example/~b', 'http://a.example/', 'http://b.example/x']
service = st.fixed_dictionaries({'types': st.sampled_from([[T2], [T2], [T2], [T11], [T10], [T2, T11], [T11, T10], [TS], [TS, T2]]), 'server': st.sampled_from([0, 0, 0, 1, 2, 3]), 'local': st.sampled_from(LOCALS)})
page = st.fixed_dictionaries({'how': st.sampled_from(['xrds'] * 6 + ['html', 'html', 'location', '404', 'error', 'garbage', 'redirect']), 'to': st.integers(0, 2), 'services': st.lists(service, min_size=1, max_size=3)})
twist = st.sampled_from([['claimed', i] for i in range(4)] * 2 + [['fragment', f] for f in ('f', '', 'a#b')] + [['spell', i] for i in range(5)] + [['identity', v] for v in ['http://op.example/~a', 'http://op.example/~b', 'claimed', 'claimed#', 'HTTP']] * 2 +
                        [['op', i] for i in range(4)] * 3 + [['op spell', 0], ['op spell', 1]] + [['signer', i] for i in range(4)] * 3 + [['both', i] for i in range(4)] * 3 + [['version', '2'], ['version', '1']] * 2 + [['drop', 'claimed'], ['drop', 'identity'], ['drop', 'all']])
case = st.fixed_dictionaries({
    'pages': st.lists(page, min_size=4, max_size=4), 'who': st.integers(0, 3), 'which': st.integers(0, 2), 'twists': st.sampled_from([0, 1, 1, 1, 2, 2, 3]).flatmap(lambda n: st.lists(twist, min_size=n, max_size=n)),
    'session': st.sampled_from(['none', 'same', 'same', 'same', 'page', 'page', 'other', 'op']), 'session_who': st.integers(0, 3), 'session_which': st.integers(0, 2), 'session_service': service,
    'after': st.sampled_from([None] * 5 + ['error', '404', 'pages']), 'pages_after': st.lists(page, min_size=4, max_size=4), 'carry': st.sampled_from(['yes', 'yes', 'no', 0, 1, 2, 3]), 'stateless': st.sampled_from([False, False, True]), 'store': st.sampled_from(KINDS + ['memory'])})


def secret(i):
    return hashlib.sha256(b'key of %d' % i).digest()


def sig_of(i, args):
    return ref.message_sig('HMAC-SHA256', secret(i), args)


def html_services(page):
    """What link elements can say: one service of either version."""
    out = []
    for t in (T2, T11):
        s = [v for v in page['services'] if t in v['types'] and TS not in v['types']]
        if s:
            out.append(dict(s[0], types=[t]))
    return out


def services_at(pages, ident):
    """(claimed identifier, services) that discovery finds, None if it fails."""
    if ident not in IDS:
        return None
    i = IDS.index(ident)
    p = pages[i]
    if p['how'] in ('404', 'error', 'garbage'):
        return None
    if p['how'] == 'redirect' and i != 3:
        i = p['to']
        p = pages[i]
        if p['how'] in ('404', 'error', 'garbage', 'redirect'):
            return None
    return [(IDS[i], s) for s in (html_services(p) if p['how'] == 'html' and i != 3 else p['services'])]


def render(p, base):
    esc = lambda s: s.replace('&', '&amp;')  # noqa: E731
    if p['how'] == 'html' and base is not None:
        links = []
        for s in html_services(p):
            a, b = ('openid2.provider', 'openid2.local_id') if s['types'] == [T2] else ('openid.server', 'openid.delegate')
            links.append('<link rel="%s" href="%s">' % (a, esc(SERVERS[s['server']])) + ('<link rel="%s" href="%s">' % (b, s['local']) if s['local'] else ''))
        return {'headers': {'Content-Type': 'text/html'}, 'body': ('<html><head>%s</head><body></body></html>' % ''.join(links)).encode()}
    text = ''
    for n, s in enumerate(p['services']):
        ids = ''
        if s['local']:
            ids = ('<LocalID>%s</LocalID>' % s['local'] if T2 in s['types'] else '') + ('<o:Delegate>%s</o:Delegate>' % s['local'] if T11 in s['types'] or T10 in s['types'] else '')
        text += '<Service priority="%d">%s<URI>%s</URI>%s</Service>' % (n, ''.join('<Type>%s</Type>' % t for t in s['types']), esc(SERVERS[s['server']]), ids)
    cid = '' if base else '<CanonicalID>%s</CanonicalID>' % IDS[3]
    return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" xmlns:o="http://openid.net/xmlns/1.0"><XRD>%s%s</XRD></x:XRDS>' % (cid, text)).encode()}


class Pages(dict):
    """Identity pages, which may change, and providers."""

    def __init__(self, providers):
        self.providers = providers
        self.now = None
        self.broken = None
        self.asked = []

    def get(self, url, default=None):
        if url in self.providers:
            return self.providers[url]
        u = urlsplit(url)
        i = 3 if u.netloc == 'proxy.xri.net' and 'xri://' + unquote(u.path[1:]) == IDS[3] else IDS.index(url) if url in IDS else None
        if url.startswith('http://xrds.example/'):
            i = int(url[-1])
            return render(dict(self.now[i], how='xrds'), IDS[i])
        if i is None:
            return default
        self.asked.append(IDS[i])
        p = self.now[i]
        how = self.broken or p['how']
        final = {}
        if how == 'redirect' and i != 3:
            p = self.now[p['to']]
            final = {'final': IDS[self.now[i]['to']]}
            how = p['how']
            i = self.now[i]['to']
        if how == '404':
            return {'status': 404}
        if how == 'error':
            return fetchers.HTTPFetchingError('broken')
        if how == 'garbage' or (how == 'redirect' and i != 3):
            return dict({'headers': {'Content-Type': 'text/html'}, 'body': b'<html><head><title>x</title></head></html>'}, **final)
        if how == 'location' and i != 3:
            return dict({'headers': {'Content-Type': 'text/html', 'X-XRDS-Location': 'http://xrds.example/%d' % i}, 'body': b'<html><head></head></html>'}, **final)
        return dict(render(p, None if i == 3 else IDS[i]), **final)


def matches(claimed, s, want_types, asserted, identity, op=None):
    if TS in s['types'] or not set(want_types) & set(s['types']):
        return False
    return claimed == urldefrag(asserted)[0] and identity == (s['local'] or claimed) and (op is None or op == SERVERS[s['server']])


def check(ctx, case):
    clock.set(NOW)
    # whether a service of an XRI can be that of a provider and of a user at once is left open
    pages, pages_after = [p[:3] + [dict(p[3], services=[dict(v, types=[t for t in v['types'] if t != TS or len(v['types']) == 1]) for v in p[3]['services']])] for p in (case['pages'], case['pages_after'])]

    def provider(i):
        def page(body, headers):
            if body is None:
                return {'status': 404}
            args = form(body)
            good = args.get('openid.mode') == 'check_authentication' and args.get('openid.assoc_handle') == 'h' and args.get('openid.sig') == sig_of(i, args)
            return {'headers': {'Content-Type': 'text/plain'}, 'body': ('is_valid:%s\n' % ('true' if good else 'false') + ('ns:%s\n' % ref.OPENID2 if args.get('openid.ns') == ref.OPENID2 else '')).encode()}
        return page

    who = case['who']
    base_page = pages[who]
    found = services_at(pages, IDS[who]) or [(IDS[who], s) for s in base_page['services']]
    claimed, s = found[case['which'] % len(found)] if found else (IDS[who], base_page['services'][0])
    v2 = T2 in s['types'] or TS in s['types']
    a = {'claimed': claimed, 'identity': s['local'] or claimed, 'op': SERVERS[s['server']], 'signer': s['server'], 'version': '2' if v2 else '1'}
    for t in case['twists']:
        if t[0] == 'claimed':
            a['claimed'] = IDS[t[1]]
        elif t[0] == 'both':
            a['claimed'] = a['identity'] = IDS[t[1]]
        elif t[0] == 'fragment':
            if a['claimed']:
                a['claimed'] += '#' + t[1]
        elif t[0] == 'spell':
            if a['claimed']:
                a['claimed'] = [a['claimed'].replace('http:', 'HTTP:'), a['claimed'].replace('.example', '.EXAMPLE'), a['claimed'] + '/', a['claimed'].rstrip('/'), a['claimed'] + '?'][t[1]]
        elif t[0] == 'identity':
            a['identity'] = {'claimed': a['claimed'], 'claimed#': (a['claimed'] or '') + '#f', 'HTTP': (a['identity'] or '').replace('http:', 'HTTP:')}.get(t[1], t[1])
        elif t[0] == 'op':
            a['op'] = SERVERS[t[1]]
        elif t[0] == 'op spell':
            a['op'] = a['op'].replace('http', 'HTTP') if t[1] else a['op'] + '#x'
        elif t[0] == 'signer':
            a['signer'] = t[1]
        elif t[0] == 'version':
            a['version'] = t[1]
        else:
            if t[1] in ('claimed', 'all'):
                a['claimed'] = None
            if t[1] in ('identity', 'all'):
                a['identity'] = None
    v2 = a['version'] == '2'
    # what the session remembers
    session = {}
    remembered = None
    if case['session'] == 'same':
        remembered = (claimed, s)
    elif case['session'] == 'page':
        found = services_at(pages, IDS[case['session_who']]) or [(IDS[case['session_who']], x) for x in pages[case['session_who']]['services']]
        remembered = found[case['session_which'] % len(found)] if found else None
    elif case['session'] == 'other':
        remembered = (IDS[case['session_who']], case['session_service'])
    elif case['session'] == 'op':
        remembered = (None, dict(case['session_service'], types=[TS], local=None))
    if remembered and TS in remembered[1]['types']:
        remembered = (None, remembered[1])
    args = {'openid.mode': 'id_res'}
    bare = {}
    if not v2:
        bare = {'janrain_nonce': '2017-07-14T02:40:00Zsalt'}
        if case['carry'] != 'no':
            bare['openid1_claimed_id'] = (claimed if case['carry'] == 'yes' else IDS[case['carry']])
    return_to = 'http://rp.example/back' + ('?' + urlencode(bare) if bare else '')
    args.update(bare)
    args.update({'openid.return_to': return_to, 'openid.assoc_handle': 'h'})
    if v2:
        args.update({'openid.ns': ref.OPENID2, 'openid.op_endpoint': a['op'], 'openid.response_nonce': '2017-07-14T02:40:00Zsalt'})
    if a['identity'] is not None:
        args['openid.identity'] = a['identity']
    if v2 and a['claimed'] is not None:
        args['openid.claimed_id'] = a['claimed']
    args['openid.signed'] = ','.join(sorted(k[7:] for k in args if k.startswith('openid.') and k not in ('openid.ns', 'openid.mode')))
    args['openid.sig'] = sig_of(a['signer'], args)
    web = Web()
    web.pages = Pages({u: provider(i) for i, u in enumerate(SERVERS)})
    web.pages.now = pages
    with Box(case['store']) as box, web:
        if not case['stateless']:
            for i, u in enumerate(SERVERS):
                box.store.storeAssociation(u, Association('h', secret(i), NOW, 1000, 'HMAC-SHA256'))
        kept = None
        if remembered:
            c, m = remembered
            e = OpenIDServiceEndpoint()
            e.type_uris, e.server_url = list(m['types']), SERVERS[m['server']]
            if TS not in m['types']:
                e.claimed_id, e.local_id = c, m['local']
                if c == IDS[3]:
                    e.canonicalID = c
                    e.local_id = m['local']
            kept = e
            Consumer(session, box.store if not case['stateless'] else None).beginWithoutDiscovery(e)
            before = dict(vars(e))
        if case['after'] == 'pages':
            pages = web.pages.now = pages_after
        elif case['after']:
            web.pages.broken = case['after']
        # the decision
        now = pages if case['after'] not in ('error', '404') else None
        if not v2 and remembered is None and 'openid1_claimed_id' not in args:
            ctx.label('nothing to go by')
            return
        must, may = decide(args, a, v2, remembered, now)
        got = Consumer(session, box.store).complete(dict(args), return_to.split('?')[0])
    expect(got.status in ('success', 'failure'), 'status %r', got.status)
    if got.status == 'success':
        expect(a['signer'] in may, 'success although nothing says that %s may assert this', SERVERS[a['signer']])
        if v2:
            expect_eq(got.identity_url, a['claimed'], 'identity')
        else:
            expect_eq(got.identity_url, args.get('openid1_claimed_id') or remembered[0], 'identity')
        expect_eq(got.endpoint.server_url, a['op'] if v2 else SERVERS[a['signer']], 'provider')
    else:
        expect(a['signer'] != must, 'no success although the provider may assert this: %s', got.message)
    if kept is not None:
        expect_eq(vars(kept), before, 'the discovered service in the session')
    ctx.label('v%s %s' % (a['version'], got.status), 'session ' + case['session'], 'signed by one who may' if a['signer'] in may else 'signed by another')
    if web.pages.asked:
        ctx.label('discovery again')
    ctx.nt(got.status == 'success' or len(case['twists']) <= 1)


def decide(args, a, v2, remembered, pages):
    """(provider whose signature must be accepted or None, providers whose signature may be accepted)."""
    if v2:
        cid, ident = args.get('openid.claimed_id'), args.get('openid.identity')
        if (cid is None) != (ident is None):
            return None, []
        server = [SERVERS.index(a['op'])] if a['op'] in SERVERS else []
        if cid is None:
            # no identity is asserted: whoever is at the endpoint is asked
            return (server[0] if server else None), server or [i for i, u in enumerate(SERVERS) if u == urldefrag(a['op'])[0]]
        if remembered and matches(remembered[0], remembered[1], [T2], cid, ident, a['op']):
            return server[0], server
        for c, s in (pages and services_at(pages, urldefrag(cid)[0])) or []:
            if matches(c, s, [T2], cid, ident, a['op']):
                return server[0], server
        return None, []
    ident = args.get('openid.identity')
    if ident is None:
        return None, []
    cid = args.get('openid1_claimed_id') or remembered[0]
    if cid is None:
        return None, []
    must, may = None, []
    if remembered and matches(remembered[0], remembered[1], [T11, T10], cid, ident):
        must = remembered[1]['server']
        may.append(must)
    for c, s in (pages and services_at(pages, cid)) or []:
        if matches(c, s, [T11, T10], cid, ident):
            may.append(s['server'])
            if must is None:
                must = s['server']
    return must, may


FACETS = [Facet('who', case, check, quick=12000, rule='the assertion is accepted, or differs in at most one respect from what was discovered')]
