"""Arguments given as UTF-8 byte strings, which are still accepted in many places, mean the same as text."""
import warnings
from lxml import etree as ElementTree

from vf.core import Facet, expect, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box
from openid import kvform, oidutil, urinorm
from openid.association import Association, SessionNegotiator
from openid.consumer.consumer import AuthRequest
from openid.consumer.discover import OpenIDServiceEndpoint, findOPLocalIdentifier
from openid.extensions import ax, sreg
from openid.message import BARE_NS, OPENID_NS, Message, NamespaceMap
from openid.server import server as srv
from openid.server.trustroot import TrustRoot, returnToMatches
from openid.store import nonce
from openid.yadis import accept, xri
from openid.yadis.filters import BasicServiceEndpoint
from openid.yadis.xrires import ProxyResolver

ASSUMPTIONS = ['only arguments for which the library says that byte strings are deprecated (and so accepted)']
NOW = 1500000000
OPS = {}


def op(name, *args):
    """Registers a function of JSON arguments; the text in those that are not marked plain() may be given as bytes."""
    def put(func):
        OPS[name] = (func, args)
        return func
    return put


def plain(strategy):
    return ('plain', strategy)


text = gen.nonl(gen.tricky_text)
handle = st.one_of(st.sampled_from(['h', 'caf\xe9', '{HMAC-SHA1}{4a}{b==}', '\u4e2d']), gen.handle)
url = st.sampled_from(['http://op.example/', 'http://op.ex\xe4mple/\xe9', 'https://op.example/?a=b', 'http://op.example/#f', 'http://u@h:80/%7e?x=\u4e2d', '', 'nonsense', 'http://*.example/x'])
uri = st.sampled_from(['http://type.example/', 'http://type.example/\xe9', 'urn:x', 'http://openid.net/srv/ax/1.0', 'http://specs.openid.net/auth/2.0/signon'])
name = st.sampled_from(['a', 'b.c', '\xe9', 'mode', 'x y'])
kind = st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256', 'HMAC-SHA512', 'sha1'])
session = st.sampled_from(['DH-SHA1', 'DH-SHA256', 'no-encryption', 'none'])
pairs = st.lists(st.tuples(st.text('abc.\xe9_', min_size=1, max_size=4), text.map(lambda s: s.strip())).map(list), max_size=4)
mime = st.sampled_from(['text/html', 'text/plain', 'application/xrds+xml', 'text/*', '*/*', 'a/\xe9'])


def fields(a):
    return a and (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


@op('Association', handle, plain(gen.hexbytes(20, 20)), kind)
def _(h, secret, t):
    return fields(Association(h, bytes.fromhex(secret), NOW, 100, t))


@op('Association.fromExpiresIn', handle, plain(gen.hexbytes(20, 20)), kind)
def _(h, secret, t):
    return fields(Association.fromExpiresIn(100, h, bytes.fromhex(secret), t))


@op('Association.sign', pairs, kind.filter(lambda k: k.startswith('HMAC-SHA') and k != 'HMAC-SHA512'))
def _(p, t):
    return Association('h', b'k' * 20, NOW, 100, t).sign(p)


@op('Association.deserialize', st.tuples(st.sampled_from(['h', '\xe9']), kind, st.booleans()).map(
    lambda t: 'version:2\nhandle:%s\nsecret:AAAA\nissued:1\nlifetime:2\nassoc_type:%s\n%s' % (t[0], t[1], 'x:y\n' if t[2] else '')))
def _(s):
    return fields(Association.deserialize(s))


@op('SessionNegotiator', st.lists(st.tuples(kind, session).map(list), max_size=3))
def _(types):
    return SessionNegotiator([tuple(t) for t in types]).allowed_types


@op('seqToKV', pairs, plain(st.booleans()))
def _(p, strict):
    return kvform.seqToKV([tuple(x) for x in p], strict)


@op('dictToKV', pairs.map(lambda p: p[:1]))
def _(p):
    return sorted(kvform.dictToKV(dict(map(tuple, p))).splitlines())


@op('kvToSeq', st.one_of(gen.tricky_text, pairs.map(lambda p: ''.join('%s:%s\n' % tuple(x) for x in p))), plain(st.booleans()))
def _(s, strict):
    return kvform.kvToSeq(s, strict)


@op('kvToDict', st.one_of(gen.tricky_text, pairs.map(lambda p: ''.join('%s:%s\n' % tuple(x) for x in p))))
def _(s):
    return kvform.kvToDict(s)


def values(case):
    return {k: v for k, v in case}


openid_args = st.tuples(st.sampled_from([None, ref.OPENID2, ref.OPENID11, 'http://nonsense/']), st.lists(st.tuples(st.sampled_from(['mode', 'identity', 'sreg.nickname', 'ns.sreg', 'ns.x', 'x.y']),
                                                                                                             st.one_of(text, uri)).map(list), max_size=4, unique_by=lambda p: p[0])).map(
    lambda t: ([['ns', t[0]]] if t[0] else []) + t[1])


@op('Message.fromOpenIDArgs', plain(openid_args.map(lambda p: [k for k, v in p])), openid_args)
def _(keys, p):
    return Message.fromOpenIDArgs({(k if isinstance(k, str) else k.decode('utf-8')): v for k, v in p}).toPostArgs()


@op('Message.getArg', plain(pairs), name, st.sampled_from(['http://ext.example/', 'http://other.example/']))
def _(p, key, other):
    m = Message(ref.OPENID2)
    m.updateArgs('http://ext.example/', dict(map(tuple, p)))
    m.setArg(OPENID_NS, 'mode', 'm')
    m.setArg(BARE_NS, 'a', 'bare')
    return [m.getArg(ns, key, 'default') for ns in (OPENID_NS, BARE_NS, 'http://ext.example/', other)]


@op('Message.toFormMarkup', url)
def _(u):
    return Message.fromPostArgs({'openid.mode': 'a'}).toFormMarkup(u)


@op('Message.toURL', url)
def _(u):
    return Message.fromPostArgs({'openid.mode': 'a'}).toURL(u)


@op('appendArgs', url, pairs)
def _(u, p):
    return oidutil.appendArgs(u, [tuple(x) for x in p])


@op('appendArgs of a mapping', url, pairs.map(lambda p: p[:1]))
def _(u, p):
    return oidutil.appendArgs(u, dict(map(tuple, p)))


@op('fromBase64', st.sampled_from(['', 'AAAA', 'AA==', 'A', '+/+/', 'abc', 'caf\xe9']))
def _(s):
    return oidutil.fromBase64(s)


@op('urinorm', url)
def _(u):
    return urinorm.urinorm(u)


@op('iriToURI', st.one_of(url, gen.tricky_text))
def _(u):
    return xri.iriToURI(u)


REALMS = ['http://rp.example/', 'http://*.example/', 'http://rp.ex\xe4mple/', 'nonsense', 'https://rp.example:8443/a']


@op('TrustRoot.parse', st.sampled_from(REALMS), plain(st.sampled_from(REALMS)))
def _(realm, u):
    tr = TrustRoot.parse(realm)
    return tr and (tr.proto, tr.wildcard, tr.host, tr.port, tr.path, tr.validateURL(u), tr.isSane())


@op('TrustRoot.validateURL', plain(st.sampled_from(REALMS[:3])), st.sampled_from(REALMS + ['http://a.example/b']))
def _(realm, u):
    return TrustRoot.parse(realm).validateURL(u)


@op('TrustRoot.checkURL', st.sampled_from(REALMS), st.sampled_from(REALMS + ['http://a.example/b']))
def _(realm, u):
    return TrustRoot.checkURL(realm, u)


@op('TrustRoot.checkSanity', st.sampled_from(REALMS))
def _(realm):
    return TrustRoot.checkSanity(realm)


@op('returnToMatches', st.lists(st.sampled_from(REALMS), max_size=3), st.sampled_from(REALMS + ['http://a.example/b']))
def _(realms, u):
    return returnToMatches(realms, u)


@op('generateAcceptHeader', st.lists(st.one_of(mime, st.tuples(mime, st.sampled_from([0.1, 0.5, 1.0])).map(list)), max_size=3))
def _(elements):
    return accept.generateAcceptHeader(*[tuple(e) if isinstance(e, list) else e for e in elements])


@op('parseAcceptHeader', st.lists(st.tuples(mime, st.sampled_from(['', ';q=0.3', '; q=x', ';a=b'])).map(''.join), max_size=3).map(', '.join))
def _(s):
    return accept.parseAcceptHeader(s)


@op('matchTypes', st.lists(st.tuples(st.sampled_from(['text', '*', '\xe9']), st.sampled_from(['html', '*', '\xe9']), st.sampled_from([0.1, 1.0])).map(list), max_size=3), st.lists(mime, max_size=3))
def _(a, have):
    return accept.matchTypes([tuple(x) for x in a], have)


@op('getAcceptable', st.lists(mime, max_size=3).map(','.join), st.lists(mime, max_size=3))
def _(s, have):
    return accept.getAcceptable(s, have)


@op('nonce.split', st.sampled_from(['2005-05-15T17:11:51Zabc', '2005-05-15T17:11:51Z', '2005-05-15', '2005-05-15T17:11:51Z\xe9', '']))
def _(s):
    return nonce.split(s)


@op('nonce.checkTimestamp', st.sampled_from(['2005-05-15T17:11:51Zabc', '2017-07-14T02:40:00Zx', '2017-07-14T02:40:00', '']))
def _(s):
    return nonce.checkTimestamp(s)


@op('SRegRequest.parseExtensionArgs', st.sampled_from(['nickname', 'nickname,email', 'bogus,dob', '']), st.sampled_from(['email', 'dob,dob', '']), st.sampled_from(['http://policy.example/\xe9', '']), plain(st.booleans()))
def _(required, optional, policy, strict):
    r = sreg.SRegRequest()
    r.parseExtensionArgs({'required': required, 'optional': optional, 'policy_url': policy}, strict)
    return r.getExtensionArgs(), r.required, r.optional, r.policy_url


@op('SRegRequest.requestFields', st.lists(st.sampled_from(['nickname', 'email', 'dob', 'bogus', 'caf\xe9']), max_size=3), plain(st.booleans()), plain(st.booleans()))
def _(names, required, strict):
    r = sreg.SRegRequest()
    r.requestFields(names, required, strict)
    for n in names:
        r.requestField(n, not required, False)
    return r.getExtensionArgs()


@op('FetchResponse.getSingle', plain(st.lists(st.tuples(uri, text).map(list), max_size=3)), uri)
def _(p, u):
    r = ax.FetchResponse()
    for k, v in p:
        r.addValue(k, v)
    return r.getSingle(u, 'none')


@op('toTypeURIs', st.one_of(st.none(), st.lists(st.sampled_from(['a', 'b', '\xe9', 'c']), max_size=3).map(','.join)))
def _(aliases):
    m = NamespaceMap()
    for alias in ('a', 'b', '\xe9'):
        m.addAlias('http://type.example/' + alias, alias)
    return ax.toTypeURIs(m, aliases)


@op('findOPLocalIdentifier', st.lists(st.sampled_from(['http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0']), max_size=2))
def _(types):
    element = ElementTree.fromstring('<Service xmlns="xri://$xrd*($v=2.0)" xmlns:o="http://openid.net/xmlns/1.0"><LocalID>http://a/</LocalID><o:Delegate>http://b/</o:Delegate></Service>')
    return findOPLocalIdentifier(element, types)


@op('FetchResponse', st.sampled_from(['http://update.example/', 'http://update.example/\xe9']))
def _(u):
    r = ax.FetchResponse(update_url=u)
    return r.getExtensionArgs(), r.update_url


@op('BasicServiceEndpoint.matchTypes', plain(st.lists(uri, max_size=3)), st.lists(uri, max_size=3))
def _(have, asked):
    return BasicServiceEndpoint('http://yadis/', have, 'http://uri/', None).matchTypes(asked)


@op('ProxyResolver.queryURL', plain(st.sampled_from(['=a', '@b*c'])), uri)
def _(x, t):
    return ProxyResolver().queryURL(x, t)


def request(server, q):
    return server.decodeRequest(dict({'openid.ns': ref.OPENID2, 'openid.mode': 'checkid_setup', 'openid.identity': ref.IDSELECT, 'openid.claimed_id': ref.IDSELECT, 'openid.return_to': 'http://rp.example/'}, **q))


ident = st.sampled_from(['http://user.example/', 'http://user.example/\xe9', ref.IDSELECT, ''])


@op('CheckIDRequest.answer', ident, ident, st.sampled_from(['http://op.example/other', 'http://op.example/\xe9']), plain(st.booleans()))
def _(identity, claimed, server_url, allow):
    with Box('memory') as box:
        r = request(srv.Server(box.store, 'http://op.example/'), {})
        args = r.answer(allow, server_url=server_url, identity=identity, claimed_id=claimed).fields.toPostArgs()
        args.pop('openid.response_nonce', None)
        return args


@op('CheckIDRequest.encodeToURL', url)
def _(u):
    with Box('memory') as box:
        return request(srv.Server(box.store, 'http://op.example/'), {}).encodeToURL(u)


@op('Server', url.filter(bool), plain(st.booleans()))
def _(u, allow):
    with Box('memory') as box:
        r = request(srv.Server(box.store, u), {})
        args = r.answer(allow, identity='http://user.example/').fields.toPostArgs()
        args.pop('openid.response_nonce', None)
        return args, r.op_endpoint


@op('ProtocolError', gen.xml_text)
def _(t):
    e = srv.ProtocolError(Message.fromPostArgs({'openid.mode': 'associate'}), t)
    return e.toMessage().toPostArgs(), str(e)


@op('CheckAuthRequest', handle, handle)
def _(h, i):
    r = srv.CheckAuthRequest(h, Message(ref.OPENID2), i)
    return r.assoc_handle, r.invalidate_handle


@op('Signatory', st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256']), plain(st.booleans()), plain(st.booleans()))
def _(t, dumb, asked):
    with Box('memory') as box:
        s = srv.Signatory(box.store)
        a = s.createAssociation(dumb, t)
        h = a.handle if isinstance(t, str) else a.handle.encode('utf-8')
        before = fields(s.getAssociation(h, asked)) == fields(a)
        signed = a.signMessage(Message.fromPostArgs({'openid.mode': 'id_res', 'openid.ns': ref.OPENID2}))
        verdict = s.verify(h, signed)
        s.invalidate(h, dumb)
        return a.assoc_type, before, verdict, s.getAssociation(h, dumb)


@op('AuthRequest', uri, st.sampled_from(['a', 'b.c', '\xe9']), text, st.sampled_from(['http://rp.example/', 'http://*.example/']), st.sampled_from(['http://rp.example/back', 'http://rp.example/\xe9?x=y']), plain(st.booleans()))
def _(ns, key, value, realm, return_to, immediate):
    endpoint = OpenIDServiceEndpoint()
    endpoint.server_url, endpoint.claimed_id, endpoint.type_uris = 'http://op.example/', 'http://user.example/', ['http://specs.openid.net/auth/2.0/signon']
    r = AuthRequest(endpoint, None)
    r.addExtensionArg(ns, key, value)
    return r.getMessage(realm, return_to, immediate).toPostArgs(), r.redirectURL(realm, return_to, immediate)


@op('nonces in stores', plain(st.sampled_from(['file', 'sqlite'])), url, plain(st.sampled_from(['a', 'b'])), plain(url))
def _(k, u, salt, other):
    with Box(k) as box:
        first = box.store.useNonce(u, NOW, salt)
        return first, box.store.useNonce(u if isinstance(u, str) else u.decode('utf-8'), NOW, salt), box.store.useNonce(other, NOW, salt)


@op('associations in stores', plain(st.sampled_from(['file', 'sqlite'])), st.lists(url, min_size=3, max_size=3), st.lists(st.sampled_from(['h', '\xe9', 'h2']), min_size=2, max_size=2))
def _(k, urls, handles):
    clock.set(NOW)
    with Box(k) as box:
        store = box.store
        store.storeAssociation(urls[0], Association('h', b'1' * 20, NOW, 100, 'HMAC-SHA1'))
        store.storeAssociation(urls[1], Association('\xe9', b'2' * 20, NOW + 1, 100, 'HMAC-SHA1'))
        out = [fields(store.getAssociation(u, h)) for u in urls for h in handles] + [fields(store.getAssociation(u)) for u in urls]
        out.append(bool(store.removeAssociation(urls[2], handles[0])))
        return out + [fields(store.getAssociation(u, h)) for u in urls for h in handles]


case = st.sampled_from(sorted(OPS)).flatmap(lambda n: st.tuples(st.just(n), st.tuples(*[a[1] if isinstance(a, tuple) else a for a in OPS[n][1]]).map(list), st.integers(0, 2 ** 20 - 1)).map(list))


def mask(value, bits):
    """Some of the text in the value as bytes, as the bits say."""
    if isinstance(value, str):
        return value.encode('utf-8') if bits.pop() else value
    if isinstance(value, list):
        return [mask(v, bits) for v in value]
    return value


class Bits(list):
    def __init__(self, n):
        list.__init__(self)
        self.n = n

    def pop(self):
        bit, self.n = self.n & 1, self.n >> 1
        if bit:
            self.append(1)
        return bit


def outcome(func, args):
    clock.set(NOW)
    try:
        return 'returned', repr(func(*args))
    except (ValueError, KeyError, TypeError, AttributeError, AssertionError, LookupError) as e:
        return 'raised', type(e).__name__
    except (srv.ProtocolError, ax.AXError) as e:
        return 'raised', type(e).__name__


def check(ctx, case):
    n, args, bits = case
    func, spec = OPS[n]
    bits = Bits(bits)
    mixed = [a if isinstance(s, tuple) else mask(a, bits) for a, s in zip(args, spec)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        wanted = outcome(func, args)
        got = outcome(func, mixed)
    expect(got == wanted, '%s with %r %s %s, but with text it %s %s', n, mixed, got[0], got[1], wanted[0], wanted[1])
    ctx.label(n)
    if wanted[0] == 'raised':
        ctx.label('raised ' + wanted[1])
    ctx.nt(bool(bits))


FACETS = [Facet('bytes', case, check, quick=8000, rule='some argument is given as bytes')]
