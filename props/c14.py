"""Realm matching: parts of URLs are generated, spelled in various ways, and matched on the parts."""
from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.stores import Box
from openid.server.server import MalformedReturnURL, MalformedTrustRoot, ProtocolError, Server, UntrustedReturnURL
from openid.server.trustroot import TrustRoot, returnToMatches

ASSUMPTIONS = ['realms and URLs are spelled with the characters RFC 3986 allows, plus internationalised host names and non-ASCII paths']
SERVER = 'http://op.example/endpoint'

label = st.sampled_from(['example', 'com', 'rp', 'www', 'a', 'b', 'xn--bcher-kva', 'evil', 'co', 'uk', 'localhost', 'x-y', 'example2', 'badexample'])
labels = st.lists(label, min_size=1, max_size=4)
segment = st.sampled_from(['a', 'b', 'ab', 'abc', 'A', '', 'x.y', '~u', 'p%20q', 'p%2Fq', '*', 'a;b=c', '%C3%A9', '...', 'admin', 'a*', 'a%3Fb', 'a%26b', 'a&', 'b&', '&', 'a=', 'a%3F', 'a%2F', 'c;', 'd:', '@'])
segments = st.lists(segment, max_size=4)
pair = st.tuples(st.sampled_from(['x', 'y', 'a', 'xy']), st.sampled_from(['1', '12', 'b', '', '%2F', '%26z', '/', '?'])).map(list)
port = st.sampled_from([None, None, None, 80, 443, 8080, 81, 8])
parts = st.fixed_dictionaries({'scheme': st.sampled_from(['http', 'http', 'https']), 'labels': labels, 'port': port, 'segs': segments,
                               'query': st.one_of(st.none(), st.none(), st.none(), st.lists(pair, min_size=1, max_size=2))})
spelling = st.fixed_dictionaries({
    'up_scheme': st.booleans(), 'up_host': st.booleans(), 'show_port': st.booleans(), 'pct_host': st.booleans(), 'uni_host': st.booleans(),
    'empty_port': st.booleans(), 'userinfo': st.sampled_from([None, None, None, None, 'user', 'user:pw', 'rp.example.com', 'www.example.com:80', '', 'a%40b']),
    'pct_path': st.booleans(), 'lower_pct': st.booleans(), 'dots': st.lists(st.tuples(st.integers(0, 4), st.sampled_from(['.', 'x/..', '%2e', 'x/%2E%2e', 'x/y/../..', '../.'])), max_size=2),
    'no_path': st.booleans(), 'lead_dots': st.sampled_from([0, 0, 0, 1, 2])})
plain = {'up_scheme': False, 'up_host': False, 'show_port': False, 'pct_host': False, 'uni_host': False, 'empty_port': False, 'userinfo': None,
         'pct_path': False, 'lower_pct': False, 'dots': [], 'no_path': False, 'lead_dots': 0}
spellings = st.one_of(st.just(plain), spelling)
mutation = st.one_of(
    st.tuples(st.sampled_from(['same', 'sub host', 'sub host', 'parent host', 'prefix host', 'suffix host', 'other scheme', 'drop port', 'sub path', 'sub path', 'slash', 'longer segment', 'parent path', 'case path',
                               'add query', 'add query', 'longer value', 'more query', 'other query order', 'no slash', 'drop query', 'trailing dot', 'star host']), st.integers(0, 10)),
    st.tuples(st.sampled_from(['segs', 'port', 'labels', 'query', 'escape']), st.integers(0, 10))).map(list)
case = st.fixed_dictionaries({'realm': parts, 'wild': st.sampled_from([None, None, None, '*.', '*.', '*.', '*.', '*', '*x', 'mid', 'end', 'only', 'a*.', 'x*', '**.', '*.*.', 'ab*.']), 'rspell': spellings, 'uspell': spellings, 'fragment': st.sampled_from([None] * 8 + ['f', '/', '?a']),
                              'rfragment': st.sampled_from([None] * 12 + ['f']),
                              'muts': st.lists(mutation, max_size=3), 'free': st.one_of(st.none(), st.none(), st.none(), parts)})


def mutate(url, muts, extra):
    url = {k: (list(v) if isinstance(v, list) else v) for k, v in url.items()}
    for name, i in muts:
        segs, labs, q = url['segs'], url['labels'], url['query']
        if name == 'sub host':
            url['labels'] = ['sub'] + labs
        elif name == 'parent host' and len(labs) > 1:
            url['labels'] = labs[1:]
        elif name == 'prefix host':
            url['labels'] = ['bad' + labs[0]] + labs[1:]
        elif name == 'suffix host':
            url['labels'] = labs + ['evil', 'com']
        elif name == 'star host':
            url['labels'] = ['*'] + labs
        elif name == 'other scheme':
            url['scheme'] = 'https' if url['scheme'] == 'http' else 'http'
        elif name == 'drop port':
            url['port'] = None
        elif name == 'port':
            url['port'] = [None, 80, 443, 8080, 81, 8, 65535][i % 7]
        elif name == 'labels':
            url['labels'] = extra['labels'] if extra else ['evil', 'com']
        elif name == 'sub path':
            url['segs'] = (segs[:-1] if segs and segs[-1] == '' else segs) + ['deep', 'er'][:1 + i % 2]
        elif name == 'slash':
            url['segs'] = segs + ['']
        elif name == 'no slash' and segs and segs[-1] == '':
            url['segs'] = segs[:-1]
        elif name == 'longer segment' and segs:
            url['segs'] = segs[:-1] + [segs[-1] + ['x', 'x/y', '.', '%2Fx', ';x', '-', '&', '%3Fx', '='][i % 9]]
        elif name == 'parent path' and segs:
            url['segs'] = segs[:-1]
        elif name == 'case path' and segs:
            url['segs'] = segs[:-1] + [segs[-1].swapcase() if '%' not in segs[-1] else segs[-1]]
        elif name == 'segs':
            url['segs'] = extra['segs'] if extra else ['zz']
        elif name == 'escape':
            url['segs'] = segs + ['..', 'secret'] if i % 2 else segs + ['%2e%2E', '%2e%2e', 'secret']
        elif name == 'add query' and q is None:
            url['query'] = [['z', '1']]
        elif name == 'more query' and q is not None:
            url['query'] = q + [['z', '1']]
        elif name == 'longer value' and q:
            url['query'] = q[:-1] + [[q[-1][0], q[-1][1] + ['0', '/', '?', '%26'][i % 4]]]
        elif name == 'other query order' and q:
            url['query'] = q[::-1]
        elif name == 'drop query':
            url['query'] = None
        elif name == 'query':
            url['query'] = extra['query'] if extra else [['x', '1']]
        elif name == 'trailing dot':
            url['labels'] = labs + ['']
    return url


def spell(p, sp, wild=None, fragment=None):
    scheme = p['scheme'].upper() if sp['up_scheme'] else p['scheme']
    labs = list(p['labels'])
    if sp['uni_host']:
        labs = ['b\xfccher' if x == 'xn--bcher-kva' else x for x in labs]
    host = '.'.join(labs)
    if sp['up_host']:
        host = host.upper()
    if sp['pct_host'] and host[:1] not in ('*', ''):
        host = '%%%02x' % ord(host[0]) + host[1:] if ord(host[0]) < 128 else host
    host = {None: '', 'mid': 'mid.*.', 'end': '', 'only': ''}.get(wild, wild) + host + ('.*' if wild == 'end' else '')
    if wild == 'only':
        host = '*'
    text = host
    default = {'http': 80, 'https': 443}[p['scheme']]
    if p['port'] is not None and (p['port'] != default or sp['show_port']):
        text += ':%d' % p['port']
    elif p['port'] is None and sp['show_port']:
        text += ':%d' % default
    elif sp['empty_port']:
        text += ':'
    if sp['userinfo'] is not None:
        text = sp['userinfo'] + '@' + text
    segs = []
    for s in p['segs']:
        if sp['pct_path'] and s[:1].isalnum():
            s = '%%%02X' % ord(s[0]) + s[1:]
        if sp['lower_pct']:
            out, i = '', 0
            while i < len(s):
                if s[i] == '%':
                    out += s[i:i + 3].lower()
                    i += 3
                else:
                    out += s[i]
                    i += 1
            s = out
        segs.append(s)
    for at, what in sp['dots']:
        # inserted before a segment that exists, so that the path stays the same
        if what == '../.':
            continue
        if segs:
            at = at % len(segs)
            segs.insert(at, what)
    segs = ['..'] * (sp['lead_dots'] if segs else 0) + segs
    path = ''.join('/' + s for s in segs)
    if not segs and not sp['no_path']:
        path = '/'
    out = scheme + '://' + text + path
    if p['query'] is not None:
        out += '?' + '&'.join('%s=%s' % tuple(x) for x in p['query'])
    if fragment is not None:
        out += '#' + fragment
    return out


def decode(s, keep):
    """Percent-decode a segment or value into a tuple of octets and marks for what stays encoded."""
    out, i = [], 0
    while i < len(s):
        if s[i] == '%':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.extend(s[i].encode('utf-8'))
            i += 1
    return tuple(out)


def canonical(p):
    """Comparable parts of a URL given as parts."""
    out = []
    for s in '/'.join(p['segs']).split('/') if p['segs'] else []:
        d = decode(s, '')
        if d == (46,):
            out.append(())
            out.pop()
            last_dir = True
        elif d == (46, 46):
            if out:
                out.pop()
            last_dir = True
        else:
            out.append(d)
            last_dir = False
    if p['segs'] and last_dir:
        out.append(())
    if not out:
        out = [()]
    port = p['port']
    if port == {'http': 80, 'https': 443}[p['scheme']]:
        port = None
    q = None
    if p['query'] is not None:
        q = [(decode(k, ''), decode(v, '')) for k, v in p['query']]
    return p['scheme'], [x.lower() for x in p['labels']], port, out, q


def covers(realm, wild, url):
    if not usable(url):
        return False
    rs, rl, rp, rpath, rq = canonical(realm)
    us, ul, up, upath, uq = canonical(url)
    if rs != us or rp != up or '*' in ''.join(ul):
        return False
    if wild == 'only':
        pass
    elif wild == '*.':
        if ul[-len(rl):] != rl or len(ul) < len(rl):
            return False
    elif rl != ul:
        return False
    if rq is not None:
        if rpath != upath or uq is None:
            return False
        return uq[:len(rq)] == rq
    if rpath == upath:
        return True
    if rpath[-1] == ():
        return len(upath) >= len(rpath) and upath[:len(rpath) - 1] == rpath[:-1]
    return upath[:len(rpath)] == rpath


def usable(p):
    # a host name may end in a dot, but other labels are never empty
    return all(p['labels'][:-1]) and p['labels'] != [''] and '*' not in ''.join(p['labels'])


def check(ctx, case):
    realm, wild = case['realm'], case['wild']
    url = mutate(case['free'] or realm, case['muts'], case['free'])
    rtext = spell(realm, case['rspell'], wild, case['rfragment'])
    utext = spell(url, case['uspell'], None, None)
    tr = TrustRoot.parse(rtext)
    if wild not in (None, '*.', 'only') or case['rfragment'] is not None:
        expect(tr is None, 'realm %r accepted', rtext)
        expect(not TrustRoot.checkURL(rtext, utext), '%r matches the malformed realm %r', utext, rtext)
        ctx.label('malformed realm')
        return
    expect(tr is not None, 'realm %r refused', rtext)
    wanted = covers(realm, wild, url)
    got = tr.validateURL(utext)
    expect(got is wanted, 'realm %r, URL %r: matches %r, expected %r', rtext, utext, got, wanted)
    expect(TrustRoot.checkURL(rtext, utext) is wanted, 'checkURL disagrees on %r %r', rtext, utext)
    expect(returnToMatches([rtext], utext) is (wanted and wild is None), 'as an allowed return_to: %r %r', rtext, utext)
    if case['fragment'] is not None:
        # a fragment never widens the match
        if tr.validateURL(utext + '#' + case['fragment']):
            expect(wanted, 'realm %r matches %r only because of its fragment', rtext, utext + '#' + case['fragment'])
    ctx.label('match' if wanted else 'no match', 'wildcard' if wild else 'plain')
    ctx.nt(bool(case['muts']) or case['rspell'] != plain or case['uspell'] != plain)


# ---- what a provider makes of it
server_case = st.fixed_dictionaries({'case': case, 'version': st.sampled_from(['2', '1', '1.1']), 'immediate': st.booleans(), 'send_realm': st.sampled_from([True, True, True, False])})


def check_server(ctx, case):
    c = case['case']
    realm, wild = c['realm'], c['wild']
    url = mutate(c['free'] or realm, c['muts'], c['free'])
    rtext = spell(realm, c['rspell'], wild, c['rfragment'])
    utext = spell(url, c['uspell'], None, None)
    q = {'openid.mode': 'checkid_immediate' if case['immediate'] else 'checkid_setup', 'openid.identity': 'http://user.example/', 'openid.return_to': utext}
    if case['version'] == '2':
        q.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': 'http://user.example/'})
    elif case['version'] == '1.1':
        q['openid.ns'] = ref.OPENID11
    if case['send_realm']:
        q['openid.realm' if case['version'] == '2' else 'openid.trust_root'] = rtext
        bad = wild not in (None, '*.', 'only') or c['rfragment'] is not None
        wanted = not bad and covers(realm, wild, url)
    else:
        bad, wanted = False, usable(url)
    with Box('memory') as box:
        server = Server(box.store, SERVER)
        try:
            request = server.decodeRequest(q)
        except ProtocolError as e:
            expect(not wanted, 'return_to %r is refused for realm %r: %r', utext, rtext if case['send_realm'] else None, e)
            if bad:
                expect(isinstance(e, (MalformedTrustRoot, UntrustedReturnURL, MalformedReturnURL)), 'error %r', e)
            else:
                expect(isinstance(e, UntrustedReturnURL) or (isinstance(e, MalformedReturnURL) and not usable(url)), 'error %r', e)
            ctx.label('refused')
        else:
            expect(wanted, 'return_to %r is accepted for realm %r', utext, rtext if case['send_realm'] else None)
            expect_eq(request.trust_root, rtext if case['send_realm'] else utext, 'realm of the request')
            expect(request.trustRootValid(), 'trustRootValid')
            ctx.label('accepted')
    ctx.nt(case['send_realm'] and bool(c['muts']))


# ---- text which is no URL
junk_text = st.one_of(st.sampled_from(['', '*', '/', 'http:', 'http://', 'http:///', 'http://:80/', 'ftp://rp.example/', 'rp.example', '//rp.example/', 'http://rp.example:x/', 'http://rp.example:99999/', 'http://[::1/', 'http://[::1]/',
                                       'http://rp.ex ample/', 'http://a%2Fb/', 'http://rp.example%00/', 'http:rp.example', 'http://rp..example/', 'http://.rp.example/', 'javascript:alert(1)', 'HTTP://RP.EXAMPLE',
                                       'http://\u2603/', 'http://rp.example\\@evil.example/', 'http://rp.example/\\', 'http://' + 'a' * 70 + '.example/', '*.rp.example', 'http://*', 'http://**/', 'http://*.*/', 'http://*./', 'http://rp.example*/', 'http://%2A.rp.example/']),
                      gen.tricky_text, gen.tricky_text.map(lambda s: 'http://' + s), gen.tricky_text.map(lambda s: 'http://rp.example/' + s))
junk_case = st.tuples(junk_text, junk_text, st.integers(0, 2)).map(list)
GOOD = ['http://rp.example/', 'https://www.rp.example/x', 'http://evil.example/']


def check_junk(ctx, case):
    realm, url, i = case
    tr = TrustRoot.parse(realm)
    for u in (url, GOOD[i], realm):
        got = TrustRoot.checkURL(realm, u)
        expect(got is True or got is False, 'checkURL gives %r', got)
        if tr is None:
            expect(not got, 'malformed realm %r matches %r', realm, u)
        if got:
            ctx.label('match')
            u = u.replace('\t', '').replace('\r', '').replace('\n', '')
            expect(u.lstrip(''.join(map(chr, range(33)))).lower().startswith(('http:', 'https:')), 'URL %r matches realm %r', u, realm)
    if tr is not None:
        ctx.label('parsed')
        expect(isinstance(tr.isSane(), bool), 'isSane')
    expect(isinstance(TrustRoot.checkSanity(realm), bool), 'checkSanity')
    expect(isinstance(returnToMatches([realm, url], GOOD[i]), bool), 'returnToMatches')
    ctx.nt()


# ---- sanity: no realm that is broader than one site
COMMON = ['com', 'org', 'uk', 'cz', 'de', 'museum', 'info', 'xn--zckzah']
# Domains in use when the library was written and today.
TLDS = ('ac ad ae aero af ag ai al am ao aq ar arpa as asia at au aw ax az ba bb bd be bf bg bh bi biz bj bm bn bo br bs bt bw by bz ca cat cc cd cf '
        'cg ch ci ck cl cm cn co com coop cr cu cv cx cy cz de dj dk dm do dz ec edu ee eg er es et eu fi fj fk fm fo fr ga gd ge gf gg gh gi gl gm gn '
        'gov gp gq gr gs gt gu gw gy hk hm hn hr ht hu id ie il im in info int io iq ir is it je jm jo jobs jp ke kg kh ki km kn kr kw ky kz la lb lc '
        'li lk lr ls lt lu lv ly ma mc md me mg mh mil mk ml mm mn mo mobi mp mq mr ms mt mu museum mv mw mx my mz na name nc ne net nf ng ni nl no np '
        'nr nu nz om org pa pe pf pg ph pk pl pm pn pr pro ps pt pw py qa re ro rs ru rw sa sb sc sd se sg sh si sk sl sm sn so sr st sv sy sz tc td '
        'tel tf tg th tj tk tl tm tn to tr travel tt tv tw tz ua ug uk us uy uz va vc ve vg vi vn vu wf ws ye yt za zm zw xn--zckzah').split()
sane_case = st.fixed_dictionaries({'wild': st.booleans(), 'labels': st.lists(st.sampled_from(['example', 'co', 'com', 'uk', 'a', 'abc', 'abcd', 'localhost', 'org']), max_size=3),
                                   'tld': st.sampled_from(TLDS + COMMON * 20 + ['localhost', 'invalidtld', 'local', 'zz', 'c', 'qq', 'xx', 'con', 'test'] * 10), 'dot': st.booleans(), 'upper': st.booleans(),
                                   'path': st.sampled_from(['', '/', '/a', '/a?b=c', '/com']), 'port': st.sampled_from(['', ':80', ':8080']), 'scheme': st.sampled_from(['http', 'https'])})


def check_sane(ctx, case):
    labs = case['labels'] + [case['tld']]
    host = '.'.join(labs) + ('.' if case['dot'] else '')
    realm = '%s://%s%s%s%s' % (case['scheme'], '*.' if case['wild'] else '', host.upper() if case['upper'] else host, case['port'], case['path'])
    if host == 'localhost':
        if case['wild']:
            return
        wanted = True
    elif case['tld'] not in TLDS:
        wanted = False
    elif len(labs) == 1:
        wanted = False
    elif case['wild'] and len(case['tld']) == 2 and len(labs[-2]) <= 3:
        wanted = len(labs) > 2
    else:
        wanted = True
    got = TrustRoot.checkSanity(realm)
    expect(got is wanted, 'sanity of %r: %r, expected %r', realm, got, wanted)
    ctx.label('sane' if wanted else 'not sane')
    ctx.nt(case['wild'])


FACETS = [Facet('match', case, check, 16000, rule='the URL is a mutation of the realm, or one of them is spelled unusually'),
          Facet('provider', server_case, check_server, 4000, rule='a realm is sent and the return_to is a mutation of it'),
          Facet('junk', junk_case, check_junk, 4000, rule='every case'),
          Facet('sanity', sane_case, check_sane, 5000, rule='wildcard realms')]
