"""Relying party discovery: is a return_to among the URLs that the realm publishes?"""
from urllib.parse import urlsplit

from vf.core import Facet, expect, expect_eq, st
from vf import docs, ref
from vf.stores import Box
from vf.web import Web
from props import c14
from openid import fetchers
from openid.server.server import Server
from openid.server.trustroot import getAllowedReturnURLs, verifyReturnTo
from openid.urinorm import urinorm
from openid.yadis.discover import DiscoveryFailure

ASSUMPTIONS = ['realms are matched as in C14']
CT = 'application/xrds+xml'
CANON = {'up_scheme': False, 'up_host': False, 'show_port': False, 'pct_host': False, 'uni_host': False, 'empty_port': False, 'userinfo': None, 'pct_path': False, 'lower_pct': False, 'dots': [], 'no_path': False, 'lead_dots': 0}
realm_parts = st.fixed_dictionaries({'scheme': st.sampled_from(['http', 'https']), 'labels': st.lists(st.sampled_from(['example', 'rp', 'com', 'www']), min_size=2, max_size=3), 'port': st.sampled_from([None, None, 80, 443, 8080]),
                                     'segs': st.lists(st.sampled_from(['a', 'b', 'x.y', '~u']), max_size=2), 'query': st.sampled_from([None, None, None, [['x', '1']]])})
allowed = st.fixed_dictionaries({'base': st.booleans(), 'muts': st.lists(c14.mutation, max_size=2), 'wild': st.sampled_from([None] * 5 + ['*.', 'only']), 'fragment': st.sampled_from([None] * 16 + ['f']), 'types': st.sampled_from([[docs.T_RETURN], [docs.T_RETURN], [docs.T_RETURN], [docs.T_RETURN, docs.T_SREG], [docs.T_SIGNON], [], [docs.T_RETURN + 'x']]),
                                 'prio': docs.prio, 'no_uri': st.sampled_from([False] * 16 + [True]), 'junk': st.sampled_from([None] * 30 + ['', 'relative', 'http://[', '*', 'ftp://rp.example/'])})
case = st.fixed_dictionaries({
    'realm': realm_parts, 'wild': st.sampled_from([None] * 9 + ['*.'] * 5 + ['only', 'mid']), 'rspell': c14.spellings, 'allowed': st.one_of(st.lists(allowed, max_size=4), st.lists(allowed, min_size=1, max_size=4)), 'rt': st.lists(c14.mutation, max_size=2), 'rt_from': st.integers(0, 4), 'uspell': c14.spellings,
    'mode': st.sampled_from(['direct', 'direct', 'header', 'meta', 'header far']), 'moved': st.sampled_from([None] * 20 + ['path', 'host', 'scheme', 'spelling', 'spelling', 'www', 'query']), 'status': st.sampled_from([200] * 30 + [206, 404, 'error', 'html', 'not xrds']), 'via': st.sampled_from(['function', 'function', 'request']), 'style': docs.style,
    'earlier': st.booleans()})


def check(ctx, case):
    realm, wild = case['realm'], case['wild']
    rtext = c14.spell(realm, case['rspell'], wild)
    base = dict(realm, labels=(['www'] if wild == '*.' else []) + realm['labels'])
    urls = []
    for a in case['allowed']:
        p = c14.mutate(base if a['base'] else realm, a['muts'], None)
        text = a['junk'] if a['junk'] is not None else c14.spell(p, CANON, a['wild'], a['fragment'])
        ok = a['junk'] is None and a['wild'] is None and a['fragment'] is None and docs.T_RETURN in a['types'] and not a['no_uri'] and c14.usable(p)
        urls.append((p, text, ok))
    src = ([base] + [u[0] for u in urls])[case['rt_from'] % (1 + len(urls))]
    rt_parts = c14.mutate(src, case['rt'], None)
    return_to = c14.spell(rt_parts, case['uspell'], None)

    def service(a, text):
        return {'prio': a['prio'], 'types': a['types'], 'uris': [] if a['no_uri'] else [[None, text]], 'local': [], 'delegate': [], 'alien': False}

    services = [service(a, u[1]) for a, u in zip(case['allowed'], urls)]
    earlier = [[service(dict(a, types=[docs.T_RETURN]), return_to) for a in case['allowed'][:1]]] if case['earlier'] else []
    xrds = docs.xrds_text({'style': case['style'], 'earlier': earlier, 'services': services})
    # the page is looked for at the URL of the realm, with www. for the wildcard
    disco = c14.spell(base, CANON, None)
    disco_key = c14.canonical(base)
    status = case['status']
    moved = case['moved']
    final = {None: None, 'path': disco.split('?')[0] + 'elsewhere', 'host': 'http://evil.example/', 'scheme': 'ftp' + disco[disco.index(':'):], 'spelling': c14.spell(base, dict(CANON, up_host=True, show_port=True), None),
             'www': disco.replace('://', '://www.', 1), 'query': disco + ('&' if '?' in disco else '?') + 'go=elsewhere'}[moved]
    if moved == 'scheme':
        final = ('https' if disco.startswith('http:') else 'http') + disco[disco.index(':'):]
    asked = []

    class Pages(dict):
        def get(self, url, default=None):
            asked.append(url)
            if url == 'http://xrds.example/':
                return {'body': xrds, 'headers': {'Content-Type': CT}}
            page = {'body': xrds, 'headers': {'Content-Type': CT}}
            if case['mode'] == 'header':
                page = {'body': b'<html></html>', 'headers': {'X-XRDS-Location': 'http://xrds.example/'}}
            elif case['mode'] == 'header far':
                page = {'body': b'<html></html>', 'headers': {'X-XRDS-Location': 'http://xrds.example/', 'Content-Type': 'text/plain'}}
            elif case['mode'] == 'meta':
                page = {'body': docs.html_text({'links': [], 'doctype': False}, 'http://xrds.example/')}
            if status == 'error':
                return fetchers.HTTPFetchingError('broken')
            if status == 'html':
                return {'body': b'<html></html>'}
            if status == 'not xrds':
                return {'body': b'<a/>', 'headers': {'Content-Type': CT}}
            page['status'] = status
            page['final'] = url if final is None else final
            return page

    web = Web()
    web.pages = Pages()
    server = None
    with Box('memory') as box, web:
        request = None
        if case['via'] == 'request':
            # an accepted request has a return_to inside of the realm
            if wild == 'mid' or not c14.covers(realm, wild, rt_parts):
                return
            request = Server(box.store, 'http://op.example/').decodeRequest({'openid.ns': ref.OPENID2, 'openid.mode': 'checkid_setup', 'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/', 'openid.realm': rtext, 'openid.return_to': return_to})
        try:
            got = request.returnToVerified() if request is not None else verifyReturnTo(rtext, return_to)
        except (DiscoveryFailure, fetchers.HTTPFetchingError) as e:
            got = e
    if wild == 'mid' or wild == 'only':
        expect(got is False, 'realm %r without a domain verifies %r', rtext, return_to)
        expect(not asked, 'discovery on %r', asked)
        return
    expect(asked, 'no discovery at all')
    first = asked[0]
    # userinfo and the like stay as they are spelled: compare without it
    expect_eq(parse(first), disco_key[:3], 'URL of the discovery %r for realm %r' % (first, rtext))
    expect_eq(urlsplit(urinorm(first))[2:4], urlsplit(urinorm(disco))[2:4], 'path and query of the URL of the discovery %r for realm %r' % (first, rtext))
    if status not in (200, 206):
        expect(got is False or isinstance(got, Exception), 'return_to is verified without XRDS')
        ctx.label('no XRDS')
        return
    if moved is not None and moved != 'spelling':
        expect(got is False, 'return_to is verified although discovery was redirected from %r to %r', first, final)
        ctx.label('redirected')
        return
    if moved == 'spelling' and case['rspell']['userinfo'] is not None:
        return
    wanted = any(ok and c14.covers(p, None, rt_parts) for p, text, ok in urls) and c14.usable(rt_parts)
    expect(got is wanted, 'verifying %r for realm %r with allowed %r: got %r', return_to, rtext, [u[1] for u in urls], got)
    ctx.label('verified' if wanted else 'not verified')
    ctx.nt(bool(urls))


def parse(url):
    from urllib.parse import unquote
    u = urlsplit(url)
    port = u.port
    if port == {'http': 80, 'https': 443}[u.scheme]:
        port = None
    return u.scheme, unquote(u.hostname).lower().replace('b\xfccher', 'xn--bcher-kva').split('.'), port


list_case = st.tuples(docs.xrds, st.lists(st.booleans(), min_size=5, max_size=5)).map(lambda t: {'xrds': dict(t[0], services=[dict(v, types=v['types'] + [docs.T_RETURN]) if f else v for v, f in zip(t[0]['services'], t[1])])})


def check_list(ctx, case):
    url = 'http://rp.example/'
    with Web({url: {'body': docs.xrds_text(case['xrds']), 'headers': {'Content-Type': CT}}}):
        got = getAllowedReturnURLs(url)
    wanted = [u for v in case['xrds']['services'] if docs.T_RETURN in v['types'] for _, u in v['uris']]
    expect_eq(sorted(x for x in got if x is not None), sorted(wanted), 'allowed return_to URLs')
    ctx.nt(bool(wanted))


FACETS = [Facet('verify', case, check, 14000, rule='the realm publishes some URLs'), Facet('list', list_case, check_list, 800, rule='some return_to service is there')]
