"""Authentication requests: what they say, as URL, message and form."""
import re
from urllib.parse import parse_qsl, urlsplit

from props.c21 import Form
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.web import OP, Web
from openid.association import Association
from openid.consumer.consumer import Consumer, ProtocolError
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax, pape, sreg
from openid.server.server import Server
from openid.store.memstore import MemoryStore

ASSUMPTIONS = ['texts are such that an HTML form can carry them', 'the provider needs its server URL without fragment']
SELECT = 'http://specs.openid.net/auth/2.0/identifier_select'
SERVER2 = 'http://specs.openid.net/auth/2.0/server'
TYPES = {'2': 'http://specs.openid.net/auth/2.0/signon', 'op': SERVER2, '1.1': 'http://openid.net/signon/1.1', '1.0': 'http://openid.net/signon/1.0', 'x': 'http://x.example/type'}
SREG, AX, PAPE = 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/srv/ax/1.0', 'http://specs.openid.net/extensions/pape/1.0'
URLS = ['http://user.example/', 'http://user.example/#frag', 'https://user.example/a?b=c&d', 'http://user.example/\xe9', '=!1000', 'xri://@!72CD', 'http://user.example/%C3%A9+%20', 'http://user.example/;p']
OPS = ['http://op.example/', 'http://op.example', 'https://op.example/endpoint?a=b', 'http://op.example/?a=b&a=c', 'http://op.example/?openid.x=1&y', 'http://op.example/e?', 'http://op.example/?q=%26%3D+', 'http://op.example/"<&>', "http://op.example/it's"]
RETURNS = ['http://rp.example/back', 'http://rp.example/', 'http://rp.example', 'https://rp.example/back?a=b', 'http://rp.example/back?a=b&a=c&d', 'http://rp.example/?u=http%3A%2F%2Fx%2F%3Fy%3Dz%26w', 'http://rp.example/\xe9', 'http://rp.example/back?x=%2B+', 'http://rp.example/a?']
REALMS = ['http://rp.example/', 'http://*.example/', 'https://rp.example/', 'http://rp.example/?a=b&c', 'http://rp.example/\xe9']
value = st.one_of(st.sampled_from(['', 'x', ' ', '&', '=', '%', '+', '\xe9\u20ac', '<&>"\'', 'a\nb', '\U0001f600']), gen.xml_text)
ext_arg = st.tuples(st.sampled_from(['http://x.example/ext', 'http://x.example/ext2', SREG, AX]), st.sampled_from(['a', 'b', 'a.b', 'mode', 'ns', 'required', '\xe9', 'A']), value).map(list)
objects = st.sampled_from([None, None, 'sreg', 'ax', 'pape'])
base = st.fixed_dictionaries({'types': st.sampled_from([['2'], ['2'], ['op'], ['op', '2'], ['2', '1.1'], ['1.1'], ['1.1'], ['1.0'], ['1.0', '1.1'], ['x', '2'], ['1.1', 'x'], ['1.0', 'op']]), 'claimed': st.sampled_from(URLS), 'local': st.one_of(st.none(), st.sampled_from(URLS + ['http://op.example/user?a=b'])), 'canonical': st.sampled_from([None, None, '=!1000', '=!2000']),
                              'server': st.sampled_from(OPS), 'assoc': st.sampled_from(['stateless', 'stored', 'stored', 'made', 'made', 'none', 'expired']), 'anonymous': st.sampled_from([False, False, False, True]), 'args': st.lists(ext_arg, max_size=4), 'object': objects, 'handle': gen.handle,
                              'extra': st.dictionaries(st.sampled_from(['app', 'a', 'x y', '\xe9']), value, max_size=2), 'clear': st.sampled_from([False] * 5 + [True])})
sends = st.lists(st.tuples(st.sampled_from(REALMS), st.one_of(st.sampled_from(RETURNS), st.sampled_from(RETURNS), st.sampled_from(RETURNS), st.sampled_from([None, ''])), st.booleans()).map(list), min_size=1, max_size=3)
case = st.fixed_dictionaries({'base': base, 'sends': sends})
NONCE = re.compile(r'^2017-07-14T02:40:00Z[a-zA-Z0-9]{6,}$')


def pairs(query):
    return parse_qsl(query, keep_blank_values=True)


def check(ctx, case):
    clock.set(1500000000)
    b = case['base']
    types = [TYPES[t] for t in b['types']]
    v2 = TYPES['2'] in types or SERVER2 in types
    e = OpenIDServiceEndpoint()
    e.claimed_id, e.server_url, e.type_uris, e.local_id, e.canonicalID = b['claimed'], b['server'], types, b['local'], b['canonical']
    op = SERVER2 in types
    if op:
        e.claimed_id = e.local_id = e.canonicalID = None
    store = None if b['assoc'] == 'stateless' else MemoryStore()
    if b['assoc'] in ('stored', 'expired'):
        store.storeAssociation(b['server'], Association(b['handle'], b'k' * 20, 1500000000 - (700 if b['assoc'] == 'expired' else 0), 600, 'HMAC-SHA1'))
        store.storeAssociation(b['server'] + 'x', Association('other', b'k' * 20, 1500000000, 600, 'HMAC-SHA1'))
    provider = Server(MemoryStore(), b['server'])
    pages = {b['server']: OP(None, b['server'], provider).page} if b['assoc'] == 'made' else {}
    session = {}
    with Web(pages):
        consumer = Consumer(session, store)
        if b['anonymous'] and not v2:
            ctx.label('anonymous OpenID 1')
            expect_raises(ProtocolError, 'anonymous OpenID 1 request', consumer.beginWithoutDiscovery, e, True)
            return
        r = consumer.beginWithoutDiscovery(e, anonymous=b['anonymous'])
    expect(any(v is e for v in session.values()) or any(getattr(v, 'server_url', None) == b['server'] for v in session.values()), 'service not in the session')
    handle = None
    if b['assoc'] == 'stored':
        handle = b['handle']
    elif b['assoc'] == 'made':
        stored = store.getAssociation(b['server'])
        expect(stored is not None, 'no association made')
        handle = stored.handle
    # extensions
    exts = {}
    for ns, k, v in b['args']:
        r.addExtensionArg(ns, k, v)
        exts.setdefault(ns, {})[k] = v
    implicit = {}
    if b['object']:
        obj, ns = {'sreg': (sreg.SRegRequest(['email'], ['dob'], 'http://rp.example/policy'), SREG), 'ax': (ax.FetchRequest(), AX), 'pape': (pape.Request(['urn:p'], 7), PAPE)}[b['object']]
        if b['object'] == 'ax':
            obj.add(ax.AttrInfo('urn:t', required=True, alias='t'))
        want = {'sreg': {'required': 'email', 'optional': 'dob', 'policy_url': 'http://rp.example/policy'}, 'ax': {'mode': 'fetch_request', 'type.t': 'urn:t', 'required': 't'}, 'pape': {'preferred_auth_policies': 'urn:p', 'max_auth_age': '7'}}[b['object']]
        if ns not in exts:
            r.addExtension(obj)
            if not v2:
                implicit = {'openid.%s.%s' % (b['object'], k): v for k, v in want.items()}
            else:
                exts[ns] = want
    extra = dict(b['extra'])
    if b['clear']:
        r.return_to_args.clear()
    r.return_to_args.update(extra)
    nonces = set()
    for realm, return_to, immediate in case['sends']:
        if not return_to:
            if immediate or not v2 or not b['clear'] or extra:
                ctx.label('no return_to')
                for f in (r.getMessage, r.redirectURL, r.formMarkup, r.htmlMarkup):
                    expect_raises(ValueError, 'request without return_to', f, realm, return_to, immediate)
                continue
            return_to = None
        message = r.getMessage(realm, return_to, immediate)
        args = message.toPostArgs()
        expect_eq(r.getMessage(realm, return_to, immediate).toPostArgs(), args, 'the same request again')
        rest = dict(args)

        def has(key, wanted):
            expect_eq(rest.pop('openid.' + key, None), wanted, key)

        if v2:
            has('ns', ref.OPENID2)
        else:
            expect(rest.pop('openid.ns', ref.OPENID10) in (ref.OPENID10, ref.OPENID11), 'namespace')
        has('mode', 'checkid_immediate' if immediate else 'checkid_setup')
        has('realm' if v2 else 'trust_root', realm)
        if b['anonymous']:
            pass
        elif op:
            has('identity', SELECT)
            has('claimed_id', SELECT)
        else:
            has('identity', b['local'] or b['canonical'] or b['claimed'])
            if v2:
                has('claimed_id', b['claimed'])
        has('assoc_handle', handle)
        got = rest.pop('openid.return_to', None)
        if return_to is None:
            expect_eq(got, None, 'return_to')
        else:
            expect(isinstance(got, str), 'return_to is %r', got)
            old, new = urlsplit(return_to), urlsplit(got)
            expect_eq((new.scheme, new.netloc, new.path, new.fragment), (old.scheme, old.netloc, old.path, old.fragment), 'return_to without its query')
            had, have = pairs(old.query), pairs(new.query)
            expect_eq(have[:len(had)], had, 'query that the return_to had')
            added = have[len(had):]
            more = dict(added)
            expect_eq(len(more), len(added), 'number of arguments added to the return_to')
            if not b['clear']:
                nonce = more.pop('janrain_nonce', None)
                if nonce is None:
                    expect(v2, 'no nonce')
                else:
                    expect(NONCE.match(nonce), 'nonce is %r', nonce)
                    nonces.add(nonce)
                if not v2:
                    expect_eq(more.pop('openid1_claimed_id', None), b['claimed'], 'claimed identifier in the return_to')
            expect_eq(more, extra, 'extra arguments of the return_to')
        for ns, wanted in exts.items():
            aliases = [k[10:] for k, v in rest.items() if k.startswith('openid.ns.') and v == ns]
            if not aliases and not v2 and ns == SREG:
                aliases = ['sreg']
            expect_eq(len(aliases), 1, 'number of aliases of %s' % ns)
            rest.pop('openid.ns.' + aliases[0], None)
            for k, v in wanted.items():
                has('%s.%s' % (aliases[0], k), v)
        for k, v in implicit.items():
            has(k[7:], v)
        if implicit and b['object'] == 'sreg':
            rest.pop('openid.ns.sreg', None)
        expect_eq(rest, {}, 'further arguments')
        # as a URL
        url = r.redirectURL(realm, return_to, immediate)
        old, new = urlsplit(b['server']), urlsplit(url)
        expect_eq((new.scheme, new.netloc, new.path or '/', new.fragment), (old.scheme, old.netloc, old.path or '/', ''), 'server URL without its query')
        had, have = pairs(old.query), pairs(new.query)
        expect_eq(have[:len(had)], had, 'query that the server URL had')
        expect_eq(sorted(have[len(had):]), sorted(args.items()), 'arguments in the URL')
        expect(url.isascii() or not b['server'].isascii(), 'URL is not ASCII')
        # as a form
        for markup in (r.formMarkup(realm, return_to, immediate), r.htmlMarkup(realm, return_to, immediate, {'id': 'f', 'method': 'get', 'action': 'http://evil.example/'})):
            f = Form()
            f.feed(markup)
            expect_eq((f.attrs.get('action'), (f.attrs.get('method') or '').lower()), (b['server'], 'post'), 'form')
            expect_eq(sorted((k, norm(v)) for k, v in f.fields), sorted((k, norm(v)) for k, v in args.items()), 'arguments in the form')
        expect_eq(f.attrs.get('id'), 'f', 'form attribute')
    expect(len(nonces) <= 1, 'several nonces for one request')
    expect_eq(bool(r.shouldSendRedirect()), not v2, 'whether the request is sent as a redirect')
    # another request of the same consumer
    with Web(pages):
        again = Consumer(session, store).beginWithoutDiscovery(e)
    m = again.getMessage('http://rp.example/', 'http://rp.example/back').toPostArgs()
    expect(not [k for k in m if k.count('.') > 1], 'extension arguments of an earlier request')
    expect_eq(m.get('openid.assoc_handle'), handle, 'handle of the next request')
    for _, v in pairs(urlsplit(m['openid.return_to']).query):
        expect(v not in nonces, 'nonce used twice')
    expect_eq('openid.identity' in m, True, 'identity in the next request')
    ctx.label('OpenID 2' if v2 else 'OpenID 1', b['assoc'])
    ctx.nt(bool(b['args'] or b['object'] or b['local']))


def norm(v):
    return re.sub('\r\n|\r', '\n', v)


FACETS = [Facet('requests', case, check, quick=7000, rule='the service has a local identifier or the request has extension arguments')]
