"""XRI discovery: who may hand out a canonical identifier."""
from urllib.parse import parse_qs, unquote, urlsplit

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import docs
from vf.web import Web
from openid import fetchers
from openid.consumer.consumer import Consumer
from openid.consumer.discover import discover
from openid.yadis import xri
from openid.yadis.discover import DiscoveryFailure
from openid.yadis.xrires import ProxyResolver

ASSUMPTIONS = ['the proxy resolver answers honestly about the services of one canonical identifier', 'cross-references are not nested']
ROOTS = {'=': ['=user', '=user*sub', '=!F83.62B1.44F.2813', '=a.b', '=user/path', '=', '=\xe9l\xe8ve', '=100%'], '@': ['@org', '@org*person', '@!1000', '@org*(tel:+1)', '@org/(+path)?'],
         '+': ['+thing'], '$': ['$dns*x'], '!': ['!!1000', '!1'], '(tel:+1)': ['(tel:+1)', '(tel:+1)*ext', '(tel:+1)!2'], '(http://a.example/x?y)': ['(http://a.example/x?y)*z', '(http://a.example/x?y)']}
INAMES = [(root, name) for root, names in sorted(ROOTS.items()) for name in names if '?' not in name.replace('x?y', '')]
sub = st.sampled_from(['1000', 'F83.62B1', 'aaaa', 'BBBB.CCCC', '1', '2'])
fault = st.sampled_from([None] * 20 + ['root', 'swap', 'skip', 'no bang', 'star', 'prefix', 'sibling', 'missing', 'empty', 'grandchild', 'extra', 'child only', 'scheme', 'other root', 'missing last', 'inner star', 'gap', 'gap', 'empty gap', 'double'])
doc = st.fixed_dictionaries({'subs': st.lists(sub, min_size=1, max_size=4), 'fault': fault, 'at': st.integers(0, 3), 'scheme': st.integers(0, 15), 'case': st.integers(0, 15),
                             'services': st.lists(docs.service, min_size=1, max_size=3), 'style': docs.style})
case = st.fixed_dictionaries({'name': st.sampled_from(INAMES).map(list), 'prefix': st.booleans(), 'docs': st.lists(doc, min_size=1, max_size=2), 'uses': st.one_of(st.lists(st.sampled_from([0, 0, 0, 0, 0, 1, 404, 404, 'bad', 'error']), min_size=4, max_size=4),
                                                                                                       st.sampled_from([[0, 0, 0, 0], [0, 404, 404, 404], [404, 404, 404, 0], [0, 404, 0, 404], [404] * 4]))})


def chain(d, root):
    """Texts of the canonical identifiers of the XRDs, outermost first."""
    ids, cur = [], root
    for s in d['subs']:
        cur = cur + '!' + s
        ids.append(cur)
    at = d['at'] % len(ids)
    f = d['fault']
    last = len(ids) - 1
    if f == 'root':
        ids = [('@' if root == '=' else '=') + x[len(root):] for x in ids]
    elif f == 'swap' and last > 0:
        ids[0], ids[-1] = ids[-1], ids[0]
    elif f == 'skip' and last > 0:
        del ids[at % last]
    elif f == 'no bang':
        ids[at] = ids[at].rpartition('!')[0]
    elif f == 'star':
        head, _, tail = ids[at].rpartition('!')
        ids[at] = head + '*' + tail
    elif f == 'prefix':
        ids[at] = ids[at] + '9'
    elif f == 'sibling' and last > 0:
        ids[-1] = ids[-2][:-1] + 'z!1'
    elif f == 'missing' and last > 0:
        ids[at % last] = None
    elif f == 'missing last':
        ids[-1] = None
    elif f == 'empty':
        ids[at] = ''
    elif f == 'grandchild':
        ids[-1] = ids[-1] + '!77!88'
    elif f == 'child only':
        ids = [ids[-1]] if last > 0 else [ids[0] + '!5']
    elif f == 'extra':
        ids.append('=!EVIL' if root != '=' else '@!EVIL')
    elif f == 'other root':
        ids = [root + root + x[len(root):] for x in ids]
    elif f == 'gap':
        ids.insert(at % len(ids), None)
    elif f == 'empty gap':
        ids.insert(at, '')
    elif f == 'double':
        ids.insert(at, ids[at])
    elif f == 'inner star':
        ids[-1] = ids[-1] + '*x!1'
    out = []
    for i, x in enumerate(ids):
        if x is not None:
            if d['case'] >> i & 1:
                x = x.lower() if f is None or i % 2 else x.upper() if '(' not in x else x
            if d['scheme'] >> i & 1:
                x = 'xri://' + x
            if f == 'scheme' and i == at:
                x = 'http://' + x
        out.append(x)
    return out


def genuine(ids, root):
    """Is each identifier the direct child of the one before, and the first of the root?"""
    parent = root.lower()
    for x in ids:
        if x is None:
            return False
        x = (x[6:] if x.startswith('xri://') else x).lower()
        if not x.startswith(parent + '!') or '!' in x[len(parent) + 1:]:
            return False
        parent = x
    return True


class Proxy(dict):
    """The pages of the proxy resolver."""

    def __init__(self, answer):
        self.answer = answer
        self.asked = []

    def get(self, url, default=None):
        u = urlsplit(url)
        if u.netloc != 'proxy.xri.net':
            return default
        q = parse_qs(u.query)
        self.asked.append((unquote(u.path[1:]), q))
        return self.answer(q)


def setup(case):
    root, name = case['name']
    texts, good = [], []
    for d in case['docs']:
        ids = chain(d, root)
        model = {'style': dict(d['style'], doctype=False), 'earlier': [[] for _ in ids[1:]], 'services': d['services']}
        texts.append(docs.xrds_text(model, ids))
        good.append((genuine(ids, root), ids[-1]))
    uses = [u if not isinstance(u, int) or u == 404 else u % len(case['docs']) for u in case['uses']]

    def answer(q):
        u = uses[docs.OPENID_TYPES.index(q['_xrd_t'][0])]
        if u == 'error':
            return fetchers.HTTPFetchingError('broken')
        if u == 404:
            return {'status': 404, 'body': b'no'}
        if u == 'bad':
            return {'status': 200, 'body': b'<html>'}
        return {'status': 200, 'body': texts[u], 'headers': {'Content-Type': 'application/xrds+xml'}}

    return root, name, answer, good, uses


def check(ctx, case):
    root, name, answer, good, uses = setup(case)
    proxy = Proxy(answer)
    web = Web()
    web.pages = proxy
    text = 'xri://' + name if case['prefix'] else name
    got = None
    with web:
        try:
            got = discover(text)
        except fetchers.HTTPFetchingError:
            expect('error' in uses, 'fetching error without reason')
            return
        except DiscoveryFailure as e:
            got = e
    for path, q in proxy.asked:
        expect_eq(path, name, 'XRI asked of the proxy resolver')
        expect('application/xrds+xml' in q['_xrd_r'][0], 'format asked for: %r', q)
    used = [u for u in uses if u in (0, 1)]
    conflict = False
    wanted = []
    for u in used:
        for v in sorted(case['docs'][u]['services'], key=lambda v: docs.prio_key(v['prio'])):
            try:
                wanted.extend(docs.service_endpoints(v, None))
            except docs.Conflict:
                conflict = True
    if isinstance(got, DiscoveryFailure):
        expect(conflict, 'discovery failed: %r', got)
        return
    got_name, services = got
    expect_eq(got_name, name, 'identifier')
    valid = [(g[1] if g[1].startswith('xri://') else 'xri://' + g[1]) for i, g in enumerate(good) if g[0] and i in used]
    for s in services:
        expect(s.claimed_id in valid, 'service for %r, which %r can not come from', s.claimed_id, name)
        expect_eq(s.canonicalID, s.claimed_id, 'canonical identifier')
        expect_eq(s.display_identifier, name, 'display identifier')
        expect_eq(s.getDisplayIdentifier(), name, 'display identifier')
        expect_eq(s.getLocalID(), s.local_id or s.claimed_id, 'local identifier')
    if 'bad' in uses or any(not good[u][0] for u in used) or len(set(valid)) > 1:
        expect_eq(services, [], 'services of an XRI with an unauthorised or unreadable answer')
        ctx.label('refused')
        ctx.nt()
    elif used and len(set(valid)) == 1 and not conflict:
        key = lambda e: (e['server_url'], tuple(e['types']), e['local_id'] or '')  # noqa: E731
        expect_eq(sorted(key(docs.describe(s)) for s in services), sorted(key(w[1]) for w in wanted), 'services found')
        firsts = [docs.T_SERVER in s.type_uris for s in services]
        expect_eq(firsts, sorted(firsts, reverse=True), 'provider identifiers first')
        # priorities within a document
        if len(used) == 1:
            prios = {}
            for v in case['docs'][used[0]]['services']:
                for _, e in docs.service_endpoints(v, None):
                    prios.setdefault(key(e), set()).add(docs.prio_key(v['prio']))
            for op in (True, False):
                seq = [prios[key(docs.describe(s))] for s in services if (docs.T_SERVER in s.type_uris) == op]
                if all(len(x) == 1 for x in seq):
                    seq = [min(x) for x in seq]
                    expect_eq(seq, sorted(seq), 'order of priorities')
        ctx.label('found' if services else 'nothing')
        ctx.nt(bool(services))


begin_case = case


def check_begin(ctx, case):
    """The same through the consumer: whose name the request carries."""
    root, name, answer, good, uses = setup(case)
    web = Web()
    web.pages = Proxy(answer)
    with web:
        try:
            request = Consumer({}, None).begin(name)
        except DiscoveryFailure:
            ctx.label('failure')
            return
        msg = request.getMessage('http://rp.example/', 'http://rp.example/back')
    ids = [(g[1] if g[1].startswith('xri://') else 'xri://' + g[1]) for i, g in enumerate(good) if g[0] and i in uses]
    e = request.endpoint
    expect(e.claimed_id in ids, 'request on behalf of %r', e.claimed_id)
    args = msg.toPostArgs()
    if e.isOPIdentifier():
        for k in ('openid.claimed_id', 'openid.identity'):
            expect_eq(args[k], 'http://specs.openid.net/auth/2.0/identifier_select', k)
    else:
        if not e.compatibilityMode():
            expect_eq(args['openid.claimed_id'], e.claimed_id, 'claimed_id')
        expect_eq(args['openid.identity'], e.local_id or e.claimed_id, 'identity')
    ctx.label('request')
    ctx.nt()


# ---- names: the parts of an XRI, its URI, and the question asked about it
chars = st.text('abZ9.-_~%\xe9\u4e2d \'"<>&=+$,;:@', max_size=5)
reference = st.one_of(st.sampled_from(['tel:+1', 'http://a.example/x?y#z', '=user', '+thing', 'a%2Fb', '\xe9', '']), st.text('ab:/?#%&=\xe9', max_size=6))
piece = st.tuples(st.sampled_from(['text', 'text', 'ref']), chars, reference).map(list)
names_case = st.fixed_dictionaries({'root': st.sampled_from(['=', '@', '+', '$', '!', '(', '(', 'iri']), 'ref': reference.filter(bool), 'iri': st.sampled_from(['www.example.com', 'example.com:80', '\xe9.example']), 'subs': st.lists(st.tuples(st.sampled_from('*!'), piece).map(list), max_size=3), 'path': st.lists(piece, max_size=3),
                                    'query': st.sampled_from([None, None, '', '?', '??', 'a=b', 'a?', '\xe9']), 'prefix': st.booleans(), 'type': st.sampled_from([None, docs.T_SIGNON, 'http://t.example/?a=b&c=\xe9']), 'proxy': st.sampled_from([None, None, 'http://proxy.example/', 'https://p.example:8443/res?xri=', 'http://p.example/x/'])})


def escaped(text, special=''):
    keep = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~' + ":/?#[]@!$&'()*+,;=") - set(special)
    return ''.join(c if c in keep else ''.join('%%%02X' % b for b in c.encode('utf-8')) for c in text)


def check_names(ctx, case):
    text, uri = [], []

    def add(s):
        text.append(s)
        uri.append(escaped(s))

    def add_piece(p):
        if p[0] == 'text':
            add(p[1])
        else:
            text.append('(%s)' % p[2])
            uri.append('(%s)' % escaped(p[2], '/?#'))

    root = case['root']
    if root == '(':
        root = '(%s)' % case['ref']
        add_piece(['ref', None, case['ref']])
    else:
        root = case['iri'] if root == 'iri' else root
        add(root)
    for sep, p in case['subs']:
        add(sep)
        add_piece(p)
    for p in case['path']:
        add('/')
        add_piece(p)
    if case['query'] is not None:
        add('?' + case['query'])
    plain, wanted = ''.join(text), 'xri://' + ''.join(uri)
    prefix = case['prefix'] or case['root'] == 'iri'
    name = 'xri://' + plain if prefix else plain
    expect_eq(xri.identifierScheme(name), 'XRI', 'scheme of %r' % name)
    expect_eq(xri.identifierScheme(case['iri']), 'URI', 'scheme of %r' % case['iri'])
    expect_eq(xri.toURINormal(name), wanted, 'URI of %r' % name)
    expect_eq(xri.XRI(name), 'xri://' + plain, 'XRI')
    if case['root'] != 'iri' or case['query'] is None or case['subs'] or case['path']:
        expect_eq(xri.rootAuthority(name), 'xri://' + root, 'root authority of %r' % name)
    proxy = case['proxy'] or 'http://proxy.xri.net/'
    resolver = ProxyResolver(*[case['proxy']] if case['proxy'] else [])
    url = resolver.queryURL(name, case['type'])
    start = proxy + wanted[6:]
    start += '&' if '?' in start.rstrip('?') else '?'
    expect(url.startswith(start), 'question %r does not start with %r', url, start)
    asked = parse_qs(url[len(start):], strict_parsing=True)
    expect_eq(asked, {'_xrd_r': ['application/xrds+xml'], '_xrd_t': [case['type']]} if case['type'] else {'_xrd_r': ['application/xrds+xml;sep=false']}, 'arguments of the question')
    ctx.nt(bool(case['subs'] or case['path'] or case['root'] == '('))
    ctx.label('root ' + case['root'], 'query' if case['query'] is not None else 'no query', 'type' if case['type'] else 'no type')


FACETS = [Facet('discover', case, check, 8000, rule='an unauthorised chain is refused or services are found'), Facet('begin', begin_case, check_begin, 3000, rule='a request is made'),
          Facet('names', names_case, check_names, 4000, rule='subsegments, a path or a cross-reference')]
