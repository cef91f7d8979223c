"""Discovery on URLs: generated XRDS and HTML documents against what they say."""
import datetime

from lxml import etree as ElementTree

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import docs
from vf.web import Web
from openid import fetchers
from openid.consumer.discover import OpenIDServiceEndpoint, discover
from openid.yadis.discover import DiscoveryFailure, discover as yadis
from openid.yadis.services import applyFilter, getServiceEndpoints
from openid.yadis.etxrd import getXRDExpiration
from openid.yadis.filters import BasicServiceEndpoint, mkFilter

ASSUMPTIONS = ['element contents have no surrounding white space or embedded comments', 'services of equal priority may come in any order', 'a page that can not be retrieved from the advertised location of the XRDS may be a failure or a fallback to HTML']
CT = 'application/xrds+xml'
case = st.fixed_dictionaries({
    'input': st.sampled_from([['http://user.example/', 'http://user.example/'], ['user.example', 'http://user.example/'], ['http://USER.example:80', 'http://user.example/'], ['http://user.example/#frag', 'http://user.example/'],
                              ['https://user.example/a/../me?x=1', 'https://user.example/me?x=1'], ['HTTP://user.example/%7Eme', 'http://user.example/~me'], ['user.example/me', 'http://user.example/me'],
                              ['user.example:8080/', 'http://user.example:8080/']]),
    'final': st.sampled_from([None, None, None, ['http://final.example/me', 'http://final.example/me'], ['http://FINAL.example:80/x#y', 'http://final.example/x'], ['https://final.example', 'https://final.example/'],
                              ['http://user.example/other', 'http://user.example/other']]),
    'mode': st.sampled_from(['direct', 'direct', 'header', 'header', 'meta', 'meta', 'html', 'accept', 'both', 'self', 'plain xml']),
    'ct': st.sampled_from([CT, CT, CT + '; charset=utf-8', CT + ';charset=UTF-8', CT.upper(), 'Application/XRDS+xml ; q=1']), 'html_ct': st.sampled_from(['text/html', 'text/html; charset=utf-8', 'text/html; charset=latin-1', 'text/html; charset="utf-8"', 'text/html; charset=nonsense', None, 'application/xhtml+xml']),
    'xct': st.sampled_from([CT, 'text/xml', 'text/html', None, 'application/octet-stream']), 'status': st.sampled_from([200] * 24 + [206, 206, 404, 500, 'error']), 'xstatus': st.sampled_from([200] * 16 + [206, 404, 'error']),
    'xrds': docs.xrds, 'bad_xrds': st.sampled_from([None] * 40 + ['', '<XRDS/>', '<?xml version="1.0"?><XRDS xmlns="xri://$xrds"/>', 'not xml', '<html></html>', '<x:XRDS xmlns:x="xri://$xrds"><XRD xmlns="xri://$xrd*($v*2.0)"/></x:XRDS>', '<a><b></a>']),
    'html': docs.html, 'meta_style': st.integers(0, 5), 'header_case': st.sampled_from(['X-XRDS-Location', 'x-xrds-location', 'X-XRDS-LOCATION'])})
XLOC = 'http://xrds.example/doc?a=b&c=d'


def wanted_xrds(model, claimed):
    """[(is op, service key, service index, uri key, endpoint)], in no particular order."""
    out = []
    for i, v in enumerate(model['services']):
        for q, e in docs.service_endpoints(v, claimed):
            out.append((docs.T_SERVER not in e['types'], docs.prio_key(v['prio']), i, q, e))
    return out


def compare_xrds(got, wanted):
    """got: endpoint dicts in the order found. Services can be told apart only by their contents, so assign greedily by backtracking over ties."""
    key = lambda e: (e['server_url'], tuple(e['types']), e['claimed_id'], e['local_id'])  # noqa: E731
    expect_eq(sorted(map(repr, map(key, got))), sorted(repr(key(w[4])) for w in wanted), 'services found')
    # group wanted: order by (op first, service priority); within a tie, services stay whole and their URIs go by priority
    pos = 0
    for op in (False, True):
        keys = sorted(set(w[1] for w in wanted if w[0] == op))
        for k in keys:
            tied = {}
            for w in wanted:
                if w[0] == op and w[1] == k:
                    tied.setdefault(w[2], []).append((w[3], key(w[4])))
            n = sum(map(len, tied.values()))
            chunk = [key(e) for e in got[pos:pos + n]]
            expect(arrange(chunk, [sorted(v, key=lambda t: t[0]) for v in tied.values()]), 'services are not in the order of their priorities: %r', [e['server_url'] for e in got])
            pos += n


def arrange(chunk, groups):
    if not groups:
        return not chunk
    for i, g in enumerate(groups):
        head = chunk[:len(g)]
        if uri_order(head, g) and arrange(chunk[len(g):], groups[:i] + groups[i + 1:]):
            return True
    return False


def uri_order(head, g):
    """Is head the endpoints of g, with priorities never decreasing?"""
    i = 0
    while i < len(g):
        j = i
        while j < len(g) and g[j][0] == g[i][0]:
            j += 1
        if sorted(map(repr, head[i:j])) != sorted(repr(x[1]) for x in g[i:j]):
            return False
        i = j
    return True


def check(ctx, case):
    text, url = case['input']
    final_text, claimed = case['final'] or [url, url]
    mode = case['mode']
    xrds_bytes = docs.xrds_text(case['xrds']) if case['bad_xrds'] is None else case['bad_xrds'].encode()
    html = docs.html_text(case['html'], XLOC if mode == 'meta' else 'http://wrong.example/' if mode == 'both' else None, case['meta_style'], 'latin-1' if case['html_ct'] and 'latin' in case['html_ct'] else 'utf-8')
    hpage = {'status': 200, 'body': html, 'final': final_text, 'headers': {'Content-Type': case['html_ct']} if case['html_ct'] else {}}
    xpage = {'status': 200, 'body': xrds_bytes, 'headers': {'Content-Type': case['xct']} if case['xct'] else {}}
    error = fetchers.HTTPFetchingError('broken')
    if mode in ('direct', 'accept'):
        dpage = {'status': 200, 'body': xrds_bytes, 'final': final_text, 'headers': {'Content-Type': case['ct']}}

        def page(body, headers):
            accept = (headers or {}).get('Accept', '')
            if CT in accept:
                return dpage if case['status'] in (200, 206) else {'status': case['status'], 'body': xrds_bytes} if case['status'] != 'error' else error
            return dict(hpage)
    else:
        if mode in ('header', 'both'):
            hpage['headers'][case['header_case']] = XLOC
        elif mode == 'self':
            hpage['headers'][case['header_case']] = final_text
        elif mode == 'plain xml':
            hpage['body'] = xrds_bytes
        if case['status'] == 'error':
            page = error
        else:
            page = dict(hpage, status=case['status'])
    xpage['status'] = case['xstatus']
    pages = {url: page, XLOC: error if case['xstatus'] == 'error' else xpage}
    failed = (DiscoveryFailure, fetchers.HTTPFetchingError)
    with Web(pages) as web:
        if case['status'] not in (200, 206):
            expect_raises(failed, 'discovery on a page with status %r' % case['status'], discover, text)
            ctx.label('page not found')
            return
        result = failure = None
        try:
            result = discover(text)
        except failed as e:
            failure = e
    expect(CT in (web.log[0][2] or {}).get('Accept', ''), 'the first request does not ask for XRDS: %r', web.log[0])
    expect_eq(web.log[0][0], url, 'URL retrieved first')
    if mode in ('header', 'meta', 'both'):
        expect_eq(web.log[1][0], XLOC, 'URL retrieved second')
    # what is there
    used = {'header': 'x', 'meta': 'x', 'both': 'x', 'direct': 'x', 'accept': 'x', 'html': None, 'self': None, 'plain xml': 'x'}[mode]
    optional_failure = False
    wanted = []
    conflict = False
    if used and mode in ('header', 'meta', 'both') and case['xstatus'] not in (200, 206):
        optional_failure = True
        used = None
    if used and case['bad_xrds'] is None:
        try:
            wanted = wanted_xrds(case['xrds'], claimed)
        except docs.Conflict:
            conflict = True
    if conflict:
        expect(failure is not None, 'services with contradicting local identifiers are used: %r', result)
        ctx.label('conflict')
        return
    if optional_failure and failure is not None:
        ctx.label('XRDS not found')
        return
    expect(failure is None, 'discovery failed: %r', failure)
    got_id, services = result
    expect_eq(got_id, claimed, 'claimed identifier')
    got = [docs.describe(s) for s in services]
    if wanted:
        compare_xrds(got, wanted)
        expect(all(s.used_yadis for s in services), 'used_yadis')
        ctx.label('XRDS')
        ctx.nt(len(wanted) > 1)
    else:
        hwanted = docs.html_endpoints(case['html'], claimed) if mode != 'plain xml' else []
        expect_eq(got, hwanted, 'services found in HTML')
        ctx.label('HTML' if hwanted else 'nothing')
        ctx.nt(bool(hwanted))
    for s in services:
        op = docs.T_SERVER in s.type_uris
        v2 = op or docs.T_SIGNON in s.type_uris
        expect_eq(s.isOPIdentifier(), op, 'isOPIdentifier')
        expect_eq(s.compatibilityMode(), not v2, 'compatibilityMode')
        expect_eq(s.getLocalID(), s.local_id if s.local_id is not None else s.claimed_id, 'local identifier')
        for t in docs.OPENID_TYPES:
            expect_eq(s.supportsType(t), t in s.type_uris or (t == docs.T_SIGNON and op), 'supportsType(%s)' % t)
        expect_eq(s.usesExtension(docs.T_SREG), docs.T_SREG in s.type_uris, 'usesExtension')
    ctx.label(mode)


# ---- Yadis for services of any type
ycase = st.fixed_dictionaries({'xrds': docs.xrds, 'mode': st.sampled_from(['direct', 'header', 'meta']), 'types': st.lists(st.sampled_from(docs.OPENID_TYPES + [docs.T_SREG, docs.T_RETURN]), max_size=2), 'final': st.booleans(), 'flt': st.booleans()})


def check_yadis(ctx, case):
    url = 'http://user.example/'
    final = 'http://final.example/' if case['final'] else url
    doc = docs.xrds_text(case['xrds'])
    if case['mode'] == 'direct':
        pages = {url: {'body': doc, 'final': final, 'headers': {'Content-Type': CT}}}
    elif case['mode'] == 'header':
        pages = {url: {'body': b'<html/>', 'final': final, 'headers': {'X-XRDS-Location': XLOC}}, XLOC: {'body': doc, 'headers': {'Content-Type': CT}}}
    else:
        pages = {url: {'body': docs.html_text({'links': [], 'doctype': True}, XLOC), 'final': final}, XLOC: {'body': doc, 'headers': {'Content-Type': CT}}}
    types = case['types']

    def flt(endpoint):
        return (endpoint.uri, tuple(endpoint.type_uris), endpoint.yadis_url) if endpoint.matchTypes(types) else None

    with Web(pages):
        r = yadis(url)
        expect_eq([r.request_uri, r.normalized_uri, r.xrds_uri, r.response_text, r.usedYadisLocation(), r.isXRDS()],
                  [url, final, XLOC if case['mode'] != 'direct' else final, doc, case['mode'] != 'direct', True], 'result of the Yadis protocol')
        got_url, got = getServiceEndpoints(url, flt if case['flt'] else None)
    expect_eq(got_url, final, 'URL after redirects')
    if not case['flt']:
        got = [(e.uri, tuple(e.type_uris), e.yadis_url) for e in got]
    # the order
    wanted = []
    for i, v in enumerate(case['xrds']['services']):
        if case['flt'] and not set(types) & set(v['types']):
            continue
        for q, u in v['uris'] or [[None, None]]:
            wanted.append((False, docs.prio_key(v['prio']), i, docs.prio_key(q), {'server_url': u, 'types': v['types'], 'claimed_id': final, 'local_id': None}))
    compare_xrds([{'server_url': u, 'types': list(t), 'claimed_id': y, 'local_id': None} for u, t, y in got], wanted)
    ctx.nt(len(wanted) > 1)
    ctx.label(case['mode'])


# ---- endpoints from documents and results, and filters of all kinds
FILTER_TYPES = docs.OPENID_TYPES + [docs.T_SREG, docs.T_RETURN]
leaf = st.fixed_dictionaries({'kind': st.sampled_from(['function', 'class', 'filter', 'function', 'class', 'filter', 'openid', 'basic'] * 3 + ['junk']), 'types': st.lists(st.sampled_from(FILTER_TYPES), min_size=1, max_size=3)})
fcase = st.fixed_dictionaries({'xrds': docs.xrds, 'parts': st.sampled_from([0, 1, 1, 1, 1]).flatmap(lambda n: st.lists(st.one_of(leaf, st.lists(st.one_of(leaf, st.lists(leaf, max_size=2)), max_size=3)), min_size=2, max_size=4) if n else leaf), 'tuples': st.booleans(), 'expires': st.sampled_from([None, None, '2010-02-28T23:59:58Z', '1999-12-31T00:00:01Z', '2010-02-28', 'soon', '2010-13-01T00:00:00Z'])})


class Leaf(object):
    def __init__(self, i, types):
        self.i, self.types = i, types

    def fromBasicServiceEndpoint(self, endpoint):
        return (self.i, endpoint.uri, tuple(endpoint.type_uris), endpoint.yadis_url) if endpoint.matchTypes(self.types) else None


class FullFilter(object):
    def __init__(self, i, types):
        self.i, self.types = i, types

    def getServiceEndpoints(self, yadis_url, element):
        types = [e.text or '' for e in element.findall('{xri://$xrd*($v*2.0)}Type')]
        return [(self.i, 'full', tuple(types), yadis_url)] if set(types) & set(self.types) else []


def make_filter(node, counter, tuples):
    """The filter, and the function from a service (types, uris) to the sorted results."""
    if isinstance(node, list):
        made = [make_filter(n, counter, tuples) for n in node]
        return (tuple if tuples else list)(m[0] for m in made), [m[1] for m in made]
    counter.append(node)
    i, types = len(counter), node['types']
    part = Leaf(i, types)
    if node['kind'] == 'function':
        return part.fromBasicServiceEndpoint, ('each', i, types)
    if node['kind'] == 'class':
        return part, ('each', i, types)
    if node['kind'] == 'filter':
        return FullFilter(i, types), ('full', i, types)
    if node['kind'] == 'openid':
        return OpenIDServiceEndpoint, ('openid', i, types)
    if node['kind'] == 'basic':
        return BasicServiceEndpoint, ('each', None, types)
    return 42, ('junk', i, types)


def results(model, service, claimed, openid):
    """All that the filters of a list make of a service."""
    out, first = [], []
    types = tuple(service['types'])
    for part in model:
        if isinstance(part, list):
            out += results(part, service, claimed, openid)
        elif part[0] == 'full':
            if set(types) & set(part[2]):
                out.append((part[1], 'full', types, claimed))
        else:
            first.append(part)
    # of the functions, the first that accepts an endpoint makes the result
    for q, uri in service['uris'] or [[None, None]]:
        for kind, i, wanted in first:
            if kind == 'openid':
                found = [e for e in openid if e['server_url'] == uri]
                if found:
                    out.append(tuple(map(str, sorted(found[0].items()))))
                    break
            elif i is None or set(types) & set(wanted):
                out.append((i, uri, types, claimed))
                break
    return out


def plain(e):
    if isinstance(e, OpenIDServiceEndpoint):
        return tuple(map(str, sorted(docs.describe(e).items())))
    return e if isinstance(e, tuple) else (None, e.uri, tuple(e.type_uris), e.yadis_url)


def check_filters(ctx, case):
    url = 'http://user.example/'
    text = docs.xrds_text(case['xrds'])
    counter = []
    flt, model = make_filter(case['parts'], counter, case['tuples'])
    if not isinstance(model, list):
        model = [model]
    services = case['xrds']['services']
    if any(n['kind'] == 'junk' for n in counter):
        expect_raises(TypeError, 'a filter that is none', mkFilter, flt)
        ctx.label('junk')
        return
    conflict, openid = False, []
    for v in services:
        try:
            openid.append([e for q, e in docs.service_endpoints(v, url)])
        except docs.Conflict:
            conflict = True
    if conflict:
        ctx.label('conflict')
        return
    got = applyFilter(url, text, flt)
    wanted = [r for v, o in zip(services, openid) for r in results(model, v, url, o)]
    expect_eq(sorted(map(repr, map(plain, got))), sorted(map(repr, wanted)), 'results of the filters')
    # the same services from a document, an XRDS result and an HTML result
    everything = sorted(repr(sorted(e.items())) for o in openid for e in o)
    with Web({url: {'body': text, 'headers': {'Content-Type': CT}}}):
        found = yadis(url)
    for e in (OpenIDServiceEndpoint.fromXRDS(url, text), OpenIDServiceEndpoint.fromDiscoveryResult(found)):
        expect_eq(sorted(repr(sorted(docs.describe(x).items())) for x in e), everything, 'OpenID services of a document')
    ctx.nt(len(wanted) > 1 and len(counter) > 1)
    ctx.label('filters=%d' % len(counter), 'functions' if any(n['kind'] in ('function', 'class') for n in counter) else 'other')
    # expiry of the document
    xrd = ElementTree.Element('{xri://$xrd*($v*2.0)}XRD')
    default = datetime.datetime(2001, 2, 3)
    if case['expires'] is not None:
        ElementTree.SubElement(xrd, '{xri://$xrd*($v*2.0)}Expires').text = case['expires']
    if case['expires'] is None:
        expect_eq(getXRDExpiration(xrd, default), default, 'expiry')
        expect_eq(getXRDExpiration(xrd), None, 'expiry')
    elif case['expires'].startswith('2010-02-28T'):
        expect_eq(getXRDExpiration(xrd, default), datetime.datetime(2010, 2, 28, 23, 59, 58), 'expiry')
    elif case['expires'].startswith('1999'):
        expect_eq(getXRDExpiration(xrd), datetime.datetime(1999, 12, 31, 0, 0, 1), 'expiry')
    else:
        expect_raises(ValueError, 'expiry %r' % case['expires'], getXRDExpiration, xrd)


# ---- pages in any encoding
ENCODINGS = {'utf-8': 'a\xe9\u010d\u4e2d', 'iso-8859-1': 'a\xe9', 'iso-8859-2': 'a\u010d\xe9', 'windows-1251': 'a\u0416', 'utf-16': 'a\u4e2d', 'shift_jis': 'a\u65e5', 'us-ascii': 'a'}
ecase = st.fixed_dictionaries({'encoding': st.sampled_from(sorted(ENCODINGS)), 'style': st.sampled_from(['text/html; charset=%s', 'text/html;charset=%s', 'text/html; charset="%s"', 'application/xhtml+xml; charset=%s', 'text/html; charset=%s ']), 'upper': st.booleans(),
                               'pick': st.integers(0, 9), 'title': st.booleans(), 'where': st.sampled_from(['meta', 'meta', 'link', 'none'])})


def check_encoding(ctx, case):
    url, chars = 'http://user.example/', ENCODINGS[case['encoding']]
    char = chars[case['pick'] % len(chars)]
    where = 'http://xrds.example/' + char
    page = '<html><head><title>%s</title>%s</head><body></body></html>' % (chars if case['title'] else '', {'meta': '<meta http-equiv="X-XRDS-Location" content="%s">' % where, 'link': '<link rel="openid2.provider" href="http://op.example/">', 'none': ''}[case['where']])
    name = case['encoding'].upper() if case['upper'] else case['encoding']
    with Web({url: {'body': page.encode(case['encoding']), 'headers': {'Content-Type': case['style'] % name}}}) as web:
        try:
            services = discover(url)[1]
        except DiscoveryFailure:
            services = None
    if case['where'] == 'meta':
        expect_eq([entry[0] for entry in web.log[1:2]], [where], 'location of the XRDS in a page encoded in %s' % case['encoding'])
    elif case['encoding'] != 'utf-16':
        expect_eq([s.server_url for s in services or []], ['http://op.example/'] if case['where'] == 'link' else [], 'services in a page encoded in %s' % case['encoding'])
    ctx.nt(char != 'a')
    ctx.label(case['encoding'], case['where'])


FACETS = [Facet('openid', case, check, 14000, rule='at least two services in the XRDS document, or services in HTML'),
          Facet('yadis', ycase, check_yadis, 4000, rule='at least two services are selected'),
          Facet('filters', fcase, check_filters, 3000, rule='several filters and several results'),
          Facet('encoding', ecase, check_encoding, 500, rule='the location has a character outside of ASCII')]
