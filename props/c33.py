"""What one user, object or request does has no influence on another, and the arguments of a call stay as they were."""
import copy
from urllib.parse import parse_qsl, urldefrag, urlsplit

from vf.core import Facet, expect_eq, st
from vf import ref
from vf.env import clock
from vf.threads import together
from vf.web import OP, Headers, form
from openid import fetchers
from openid.association import Association, SessionNegotiator, default_negotiator, encrypted_negotiator
from openid.consumer.consumer import AuthRequest, Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax, pape, sreg
from openid.extensions.draft import pape2
from openid.message import BARE_NS, OPENID_NS, Message
from openid.server.server import CheckIDRequest, EncodingError, OpenIDResponse, ProtocolError, Server
from openid.server.trustroot import TrustRoot
from openid.store.memstore import MemoryStore
from openid.yadis.accept import generateAcceptHeader, getAcceptable, matchTypes
from openid.yadis.manager import Discovery
from openid.yadis.xrires import ProxyResolver
from openid.kvform import dictToKV, seqToKV
from openid.oidutil import appendArgs

ASSUMPTIONS = ['random values (nonces, handles, keys, signatures) are not compared', 'threads share no object of the application but a provider with a memory store']
NOW = 1500000000
SITES = 2
PAIRS = [['HMAC-SHA1', 'DH-SHA1'], ['HMAC-SHA256', 'DH-SHA256'], ['HMAC-SHA1', 'no-encryption'], ['HMAC-SHA256', 'no-encryption']]
RANDOM = {'response_nonce', 'assoc_handle', 'sig', 'mac_key', 'enc_mac_key', 'dh_server_public', 'dh_consumer_public', 'invalidate_handle', 'janrain_nonce'}


def masked(args):
    """Arguments without what is random."""
    out = {}
    for k, v in args.items():
        tail = k.rsplit('.', 1)[-1]
        if tail in RANDOM:
            v = '*' if v else v
        elif '//' in v and '?' in v:
            base, _, q = v.partition('?')
            v = [base, masked(dict(parse_qsl(q, keep_blank_values=True)))]
        out[k] = v
    return out


class Inputs(object):
    """Hands out the arguments of calls and checks that they stay as they were."""

    def __init__(self):
        self.given = []

    def __call__(self, value):
        value = copy.deepcopy(value)
        self.given.append((value, copy.deepcopy(value)))
        return value

    def verify(self, what):
        for value, before in self.given:
            expect_eq(value, before, 'argument of some call after %s' % what)


class Site(object):
    """A site with identifiers and a provider, all made with fresh objects of the library."""

    def __init__(self, n):
        self.host = 's%d.example' % n
        self.endpoint = 'http://op.%s/endpoint' % self.host
        self.op = OP(MemoryStore(), self.endpoint)
        other = 'http://op2.%s/endpoint' % self.host
        self.op2 = OP(MemoryStore(), other)
        v2, v1, op = ('http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1', 'http://specs.openid.net/auth/2.0/server')

        def xrds(*services):
            return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s</XRD></xrds:XRDS>' % ''.join(
                '<Service priority="%d"><Type>%s</Type><URI>%s</URI></Service>' % (i, t, u) for i, (t, u) in enumerate(services))).encode()}

        def page(rel, u):
            return {'headers': {'Content-Type': 'text/html'}, 'body': ('<html><head><link rel="%s" href="%s"></head></html>' % (rel, u)).encode()}
        self.pages = {self.url(0): page('openid2.provider', self.endpoint), self.url(1): xrds((v2, self.endpoint), (v1, other)), self.url(2): page('openid.server', self.endpoint),
                      self.url(3): xrds((op, self.endpoint)), self.url(4): {'headers': {}, 'body': b'nothing'}, self.endpoint: self.op.page, other: self.op2.page}

    def url(self, i):
        return 'http://u%d.%s/' % (i, self.host)

    def providers(self):
        return {self.endpoint: self.op, self.op2.endpoint: self.op2}


class World(fetchers.HTTPFetcher):
    """All sites, behind the default fetcher."""

    def __init__(self):
        self.sites = [Site(n) for n in range(6)]
        self.pages = {}
        for s in self.sites:
            self.pages.update(s.pages)
        self.common = MemoryStore()

    def fetch(self, url, body=None, headers=None):
        url = urldefrag(url)[0]
        page = self.pages.get(url)
        if callable(page):
            page = page(body, headers)
        if page is None:
            page = {'status': 404}
        return fetchers.HTTPResponse(url, page.get('status', 200), Headers(page.get('headers', {})), page.get('body', b''))

    def __enter__(self):
        fetchers.setDefaultFetcher(self, wrap_exceptions=False)
        return self

    def __exit__(self, *args):
        fetchers.setDefaultFetcher(None)


class Actor(object):
    def __init__(self, world, site, flag):
        self.world, self.site, self.flag = world, world.sites[site], flag
        self.inputs = Inputs()
        self.setup()

    def setup(self):
        pass

    def do(self, op):
        try:
            out = getattr(self, 'do_' + op[0])(*op[1:])
        except (ValueError, KeyError, TypeError, AttributeError, IndexError, RuntimeError, AssertionError, ProtocolError, EncodingError, fetchers.HTTPFetchingError) as e:
            out = ['raises', type(e).__name__]
        except Exception as e:
            if not type(e).__module__.startswith('openid.'):
                raise
            out = ['raises', type(e).__name__]
        self.inputs.verify('%s %s' % (type(self).__name__, op[0]))
        return copy.deepcopy(out)


idx = st.integers(0, 4)
word = st.sampled_from(['a', 'b', 'mode', 'x.y'])
some_ns = st.sampled_from(['http://e1.example/', 'http://e2.example/', sreg.ns_uri_1_1, ax.AXMessage.ns_uri])
alias = st.sampled_from(['e', 'f', 'sreg', 'nist', 'ax'])
atype = st.sampled_from(['http://t1.example/', 'http://t2.example/', 'http://t3.example/'])
field = st.sampled_from(['nickname', 'email', 'dob', 'nofield'])
policy = st.sampled_from([pape.AUTH_MULTI_FACTOR, pape.AUTH_PHISHING_RESISTANT, 'http://p.example/'])
level = st.sampled_from([pape.LEVELS_NIST, pape.LEVELS_JISA, 'http://l.example/', 'http://m.example/'])
pairs = st.lists(st.sampled_from(PAIRS), min_size=1, max_size=3)


def op(*parts):
    return st.tuples(*[st.just(p) if isinstance(p, str) else p for p in parts]).map(list)


class Rp(Actor):
    """A visitor of a relying party."""
    OPS = [op('begin', st.integers(0, 3), st.sampled_from([False, False, False, True])), op('begin', idx, st.just(False)), op('prefer', pairs), op('tune', pairs), op('ask', st.sampled_from(['sreg', 'ax', 'pape']), st.booleans()),
           op('finish', st.sampled_from(['allow', 'allow', 'allow', 'cancel', 'forge', 'again', 'other', 'fragment'])), op('finish', st.just('allow')), op('restart')]

    def setup(self):
        self.session = {}
        # with the flag set, relying parties share their store, as the workers of one web site do
        self.store = self.world.common if self.flag else MemoryStore()
        self.consumer = Consumer(self.session, self.store)
        self.request = self.sent = None

    def do_restart(self):
        self.consumer = Consumer(self.session, self.store)

    def do_prefer(self, types):
        self.consumer.setAssociationPreference(self.inputs([tuple(t) for t in types]))

    def do_tune(self, types):
        self.consumer.consumer.negotiator.setAllowedTypes(self.inputs([tuple(t) for t in types]))

    def do_begin(self, i, anonymous):
        self.request = None
        providers = self.site.providers()
        before = {u: len(p.requests) for u, p in providers.items()}
        self.request = self.consumer.begin(self.site.url(i), anonymous)
        self.return_to = 'http://rp.example/back'
        asked = [[u, r.get('openid.assoc_type'), r.get('openid.session_type')] for u, p in sorted(providers.items()) for r in p.requests[before[u]:]]
        if self.flag:
            # another one may have associated already
            asked = None
        self.sent = None
        return [asked, self.url()]

    def url(self):
        url = self.request.redirectURL('http://rp.example/', self.return_to)
        self.sent = url
        args = dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))
        return [url.split('?')[0], masked(args)]

    def do_ask(self, what, more):
        if self.request is None:
            return None
        if what == 'sreg':
            self.request.addExtension(sreg.SRegRequest(required=self.inputs(['nickname']), optional=self.inputs(['email'] if more else [])))
        elif what == 'ax':
            r = ax.FetchRequest()
            r.add(ax.AttrInfo('http://t1.example/', required=True, alias='one' if more else None))
            self.request.addExtension(r)
        else:
            self.request.addExtension(pape.Request(preferred_auth_policies=self.inputs([policy_uri(more)]), max_auth_age=10))
        self.request.return_to_args['q'] = what
        return self.url()

    def do_finish(self, how):
        if self.sent is None:
            return None
        op = self.site.providers()[self.sent.split('?')[0]]
        asked = op.server.decodeRequest(self.inputs(dict(parse_qsl(urlsplit(self.sent).query, keep_blank_values=True))))
        response = asked.answer(how != 'cancel', identity=self.site.url(0) if asked.idSelect() else None)
        if how != 'cancel':
            r = sreg.SRegRequest.fromOpenIDRequest(asked)
            if r is not None:
                response.addExtension(sreg.SRegResponse.extractResponse(r, self.inputs({'nickname': 'nick', 'email': 'mail'})))
            r = ax.FetchRequest.fromOpenIDRequest(asked)
            if r is not None:
                answer = ax.FetchResponse(r)
                answer.setValues('http://t1.example/', self.inputs(['value']))
                response.addExtension(answer)
            r = pape.Request.fromOpenIDRequest(asked)
            if r is not None:
                response.addExtension(pape.Response(self.inputs(r.preferred_auth_policies), auth_levels=self.inputs({'http://l.example/': '3'})))
        if how == 'fragment' and response.fields.hasKey(OPENID_NS, 'claimed_id'):
            response.fields.setArg(OPENID_NS, 'claimed_id', response.fields.getArg(OPENID_NS, 'claimed_id') + '#2')
        args = op.redirect_args(op.server.encodeResponse(response))[1]
        endpoint, before = self.request.endpoint, copy.deepcopy(vars(self.request.endpoint))
        if how == 'forge':
            args['openid.identity'] = self.site.url(3)
        if how == 'other':
            args['openid.return_to'] = 'http://other.example/'
        got = self.consumer.complete(self.inputs(args), self.return_to)
        if how == 'again' and got.status == 'success':
            got = self.consumer.complete(self.inputs(args), self.return_to)
        expect_eq(vars(endpoint), before, 'discovered endpoint after a response')
        out = [masked(args), got.status, got.identity_url]
        if got.status == 'success':
            s, a, p = sreg.SRegResponse.fromSuccessResponse(got), ax.FetchResponse.fromSuccessResponse(got), pape.Response.fromSuccessResponse(got)
            out += [s and dict(s.items()), a and a.data, p and [p.auth_policies, p.auth_levels]]
        return out


def policy_uri(more):
    return pape.AUTH_MULTI_FACTOR if more else 'http://p.example/'


class Op(Actor):
    """Someone who sends requests to a provider."""
    OPS = [op('associate', st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256', 'bogus']), st.sampled_from(['no-encryption', 'DH-SHA1', 'bogus', None])), op('checkid', st.booleans(), st.booleans(), st.booleans(), st.booleans()),
           op('checkid', st.just(True), st.booleans(), st.booleans(), st.booleans()), op('verify', st.booleans()), op('bad', st.sampled_from(['mode', 'ns', 'identity', 'nothing', 'realm']))]

    def setup(self):
        # with the flag set, everybody talks to the same provider object
        self.op = self.site.op if self.flag else OP(MemoryStore(), self.site.endpoint)
        self.made = self.assoc = None

    def kv(self, code, body):
        got = ref.parse_kv(body)
        out = masked(got)
        out.pop('error', None)
        return [code, out]

    def do_associate(self, assoc_type, session):
        q = {'openid.mode': 'associate', 'openid.ns': ref.OPENID2, 'openid.assoc_type': assoc_type}
        if session is not None:
            q['openid.session_type'] = session
        if session == 'DH-SHA1':
            q['openid.dh_consumer_public'] = 'Bw=='
        code, body = self.op.respond(q)
        self.assoc = ref.parse_kv(body).get('assoc_handle')
        return self.kv(code, body)

    def do_checkid(self, allow, immediate, v2, use):
        q = {'openid.mode': 'checkid_immediate' if immediate else 'checkid_setup', 'openid.identity': 'http://u.example/', 'openid.return_to': 'http://rp.example/r'}
        if v2:
            q.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': 'http://u.example/'})
        if use and self.assoc:
            q['openid.assoc_handle'] = self.assoc
        request = self.op.server.decodeRequest(self.inputs(q))
        web = self.op.server.encodeResponse(request.answer(allow))
        args = self.op.redirect_args(web)[1]
        self.made = args
        return masked(args)

    def do_verify(self, forge):
        if self.made is None:
            return None
        args = dict(self.made, **{'openid.mode': 'check_authentication'})
        if forge:
            args['openid.identity'] = 'http://v.example/'
        code, body = self.op.respond(args)
        return self.kv(code, body) if code != 302 else code

    def do_bad(self, what):
        q = {'openid.mode': 'checkid_setup', 'openid.ns': ref.OPENID2, 'openid.identity': 'http://u.example/', 'openid.claimed_id': 'http://u.example/', 'openid.return_to': 'http://rp.example/r'}
        if what == 'nothing':
            q = {}
        elif what == 'realm':
            q['openid.realm'] = 'http://other.example/'
        elif what == 'identity':
            del q['openid.identity']
        else:
            q['openid.' + what] = 'bogus'
        try:
            return self.op.server.decodeRequest(self.inputs(q))
        except ProtocolError as e:
            web = self.op.server.encodeResponse(e)
            return [web.code]


class Msg(Actor):
    """Somebody who builds messages."""
    OPS = [op('new', st.sampled_from([ref.OPENID2, ref.OPENID10, ref.OPENID11])), op('set', some_ns, word, word), op('update', some_ns, st.lists(st.tuples(word, word).map(list), max_size=3)), op('alias', some_ns, alias),
           op('parse', st.lists(st.tuples(st.sampled_from(['openid.ns', 'openid.ns.e', 'openid.e.a', 'openid.mode', 'openid.sreg.nickname', 'openid.ns.sreg', 'c', 'openid.', 'openid', '']), st.sampled_from([ref.OPENID2, 'http://e1.example/', sreg.ns_uri_1_1])).map(list), max_size=5)),
           op('copy'), op('out'), op('delete', some_ns, word), op('endpoint', level)]

    def setup(self):
        self.m = Message(ref.OPENID2)
        self.endpoint = OpenIDServiceEndpoint()
        self.kept = []

    def state(self, m):
        return sorted(m.toPostArgs().items()), sorted(map(str, m.namespaces.items())), m.getOpenIDNamespace()

    def out(self):
        for m, state in self.kept:
            expect_eq(self.state(m), state, 'message of which a copy was made')
        return [sorted(self.m.toPostArgs().items()), sorted(self.m.getArgs(OPENID_NS).items()), self.endpoint.type_uris[:], self.m.namespaces.getAlias(sreg.ns_uri_1_1)]

    do_out = out

    def do_new(self, ns):
        self.m = Message(ns)
        return self.out()

    def do_set(self, ns, k, v):
        self.m.setArg(ns, k, v)
        return self.out()

    def do_update(self, ns, items):
        self.m.updateArgs(ns, self.inputs(dict(map(tuple, items))))
        return self.out()

    def do_alias(self, ns, a):
        self.m.namespaces.addAlias(ns, a)
        return self.out()

    def do_parse(self, items):
        self.m = Message.fromPostArgs(self.inputs(dict(map(tuple, items))))
        return self.out()

    def do_copy(self):
        other = self.m
        self.kept.append((other, self.state(other)))
        self.m = self.m.copy()
        self.m.setArg('http://e3.example/', 'a', 'b')
        self.m.setArg(BARE_NS, 'a', 'b')
        return [self.out(), sorted(other.toPostArgs().items())]

    def do_delete(self, ns, k):
        self.m.delArg(ns, k)
        return self.out()

    def do_endpoint(self, uri):
        # an endpoint that the application describes by itself
        self.endpoint.type_uris = self.inputs([uri])
        self.endpoint.claimed_id, self.endpoint.server_url = 'http://u.example/', 'http://op.example/'
        r = AuthRequest(self.endpoint, None)
        r.addExtensionArg('http://e1.example/', 'a', 'b')
        r.return_to_args['x'] = 'y'
        r2 = AuthRequest(self.endpoint, None)
        return [masked(x.getMessage('http://rp.example/', 'http://rp.example/').toPostArgs()) for x in (r, r2)] + [r2.return_to_args, OpenIDServiceEndpoint().type_uris]


class Ax(Actor):
    OPS = [op('ask', atype, st.booleans(), st.sampled_from([1, 2, 'unlimited']), st.sampled_from([None, None, 'one', 'two'])), op('args'), op('set', atype, st.lists(word, max_size=2)), op('add', atype, word), op('answer'), op('parse', atype),
           op('fresh')]

    def setup(self):
        self.request, self.response, self.stored = ax.FetchRequest(), ax.FetchResponse(), ax.StoreRequest()

    def do_ask(self, t, required, count, a):
        self.request.add(ax.AttrInfo(t, count=count, required=required, alias=a))
        return self.do_args()

    def do_args(self):
        return [sorted(x.getExtensionArgs().items()) for x in (self.request, self.stored)]

    def do_set(self, t, values):
        self.response.setValues(t, self.inputs(values))
        self.stored.setValues(t, self.inputs(values))
        return self.do_answer()

    def do_add(self, t, value):
        self.response.addValue(t, value)
        return self.do_answer()

    def do_answer(self):
        out = sorted(self.response.getExtensionArgs().items())
        bound = ax.FetchResponse(self.request)
        bound.setValues('http://t1.example/', self.inputs(['v']))
        try:
            return [out, sorted(bound.getExtensionArgs().items())]
        except (KeyError, ax.AXError) as e:
            return [out, type(e).__name__]

    def do_parse(self, t):
        self.response = ax.FetchResponse()
        self.response.parseExtensionArgs(self.inputs({'mode': 'fetch_response', 'type.q': t, 'count.q': '2', 'value.q.1': 'x', 'value.q.2': 'y'}))
        return [sorted(self.response.data.items()), self.do_answer()]

    def do_fresh(self):
        return [list(ax.FetchRequest()), sorted(ax.FetchResponse().data.items()), sorted(ax.StoreRequest().data.items())]


class Sreg(Actor):
    OPS = [op('new', st.lists(field, max_size=2), st.lists(field, max_size=2)), op('ask', field, st.booleans()), op('many', st.lists(field, max_size=3), st.booleans()), op('extract', st.lists(field, max_size=3)), op('fresh')]

    def setup(self):
        self.r = sreg.SRegRequest()

    def out(self):
        return [self.r.required[:], self.r.optional[:], sorted(self.r.getExtensionArgs().items())]

    def do_new(self, a, b):
        self.r = sreg.SRegRequest(self.inputs(a), self.inputs(b))
        return self.out()

    def do_ask(self, f, required):
        self.r.requestField(f, required)
        return self.out()

    def do_many(self, f, required):
        self.r.requestFields(self.inputs(f), required)
        return self.out()

    def do_extract(self, fields):
        return sorted(sreg.SRegResponse.extractResponse(self.r, self.inputs({f: 'v' for f in fields})).getExtensionArgs().items())

    def do_fresh(self):
        return [sreg.SRegRequest().allRequestedFields(), sorted(sreg.SRegResponse().items())]


class Pape(Actor):
    OPS = [op('new', st.lists(policy, max_size=2), st.lists(level, max_size=2)), op('policy', policy), op('level', level, st.sampled_from([None, None, 'one', 'nist'])), op('rpolicy', policy), op('rlevel', level, st.sampled_from([None, None, 'one', 'nist'])),
           op('parse', st.sampled_from(['nist', 'x']), level, st.booleans()), op('rparse', st.sampled_from(['nist', 'x']), level, st.booleans()), op('fresh')]

    def setup(self):
        self.q, self.r = pape.Request(), pape.Response()

    def out(self):
        return [sorted(x.getExtensionArgs().items()) for x in (self.q, self.r)] + [sorted(self.r.auth_levels.items()), self.q.preferredTypes([pape.AUTH_MULTI_FACTOR, 'http://p.example/'])]

    def do_new(self, policies, levels):
        self.q = pape.Request(self.inputs(policies), None, self.inputs(levels))
        self.r = pape.Response(self.inputs(policies), None, self.inputs({u: '1' for u in levels}))
        return self.out()

    def do_policy(self, p):
        self.q.addPolicyURI(p)
        return self.out()

    def do_level(self, u, a):
        self.q.addAuthLevel(u, a)
        return self.out()

    def do_rpolicy(self, p):
        self.r.addPolicyURI(p)
        return self.out()

    def do_rlevel(self, u, a):
        self.r.setAuthLevel(u, '2', a)
        return self.out()

    def do_parse(self, a, u, v1):
        self.q.parseExtensionArgs(self.inputs({'preferred_auth_policies': 'http://p.example/', 'preferred_auth_level_types': a, 'auth_level.ns.' + a: u}), v1)
        return self.out()

    def do_rparse(self, a, u, v1):
        self.r.parseExtensionArgs(self.inputs({'auth_policies': 'http://p.example/', 'auth_level.' + a: '3', 'auth_level.ns.' + a: u}), v1)
        return self.out()

    def do_fresh(self):
        return [sorted(x.getExtensionArgs().items()) for x in (pape.Request(), pape.Response(), pape.Request(preferred_auth_level_types=['http://l.example/']), pape.Response(auth_levels={'http://l.example/': '1', pape.LEVELS_NIST: '2'}))]


class Draft(Actor):
    """The earlier draft of PAPE."""
    OPS = [op('new', st.lists(policy, max_size=2)), op('policy', policy), op('rpolicy', policy), op('parse', policy), op('rparse', policy), op('fresh')]

    def setup(self):
        self.q, self.r = pape2.Request(), pape2.Response()

    def out(self):
        return [sorted(x.getExtensionArgs().items()) for x in (self.q, self.r)] + [self.q.preferredTypes([pape.AUTH_MULTI_FACTOR, 'http://p.example/'])]

    def do_new(self, policies):
        self.q, self.r = pape2.Request(self.inputs(policies)), pape2.Response(self.inputs(policies))
        return self.out()

    def do_policy(self, p):
        self.q.addPolicyURI(p)
        return self.out()

    def do_rpolicy(self, p):
        self.r.addPolicyURI(p)
        return self.out()

    def do_parse(self, p):
        self.q.parseExtensionArgs(self.inputs({'preferred_auth_policies': p, 'max_auth_age': '5'}))
        return self.out()

    def do_rparse(self, p):
        self.r.parseExtensionArgs(self.inputs({'auth_policies': p, 'nist_auth_level': '3'}))
        return self.out()

    def do_fresh(self):
        return [sorted(x.getExtensionArgs().items()) for x in (pape2.Request(), pape2.Response())]


class Neg(Actor):
    """Somebody who sets a policy for associations."""
    OPS = [op('own', st.sampled_from(['default', 'encrypted']), st.sampled_from(PAIRS)), op('set', pairs), op('given', pairs, st.sampled_from(PAIRS)), op('server', pairs), op('probe')]

    def setup(self):
        self.neg = default_negotiator.copy()
        self.server = Server(MemoryStore(), 'http://op.example/')

    def out(self):
        return [[[n.isAllowed(*p) for p in PAIRS], n.getAllowedType()] for n in (self.neg, default_negotiator, encrypted_negotiator, self.server.negotiator, Server(MemoryStore(), 'http://op.example/').negotiator)]

    do_probe = out

    def do_own(self, which, pair):
        self.neg = {'default': default_negotiator, 'encrypted': encrypted_negotiator}[which].copy()
        self.neg.addAllowedType(*pair)
        return self.out()

    def do_set(self, types):
        self.neg.setAllowedTypes(self.inputs([tuple(t) for t in types]))
        return self.out()

    def do_given(self, types, pair):
        given = self.inputs([tuple(t) for t in types])
        self.neg = SessionNegotiator(given)
        self.neg.addAllowedType(*pair)
        return self.out()

    def do_server(self, types):
        self.server.negotiator.setAllowedTypes(self.inputs([tuple(t) for t in types]))
        return self.out()


class Disc(Actor):
    OPS = [op('next', idx, st.lists(word, max_size=3), st.sampled_from([None, 'x'])), op('next', idx, st.just(['a', 'b']), st.none()), op('cleanup', idx, st.booleans())]

    def setup(self):
        self.session = {}

    def do_next(self, i, services, suffix):
        url = 'http://u%d.example/' % i
        given = self.inputs(services)
        asked = []

        def discover(u):
            asked.append(u)
            return url, given
        return [Discovery(self.session, url, suffix).getNextService(discover), asked, sorted(self.session)]

    def do_cleanup(self, i, force):
        return [Discovery(self.session, 'http://u%d.example/' % i).cleanup(force), sorted(self.session)]


class Store(Actor):
    OPS = [op('put', idx, idx, idx), op('get', idx, idx), op('best', idx), op('drop', idx, idx), op('nonce', idx, idx), op('clean')]

    def setup(self):
        self.s = MemoryStore()

    def show(self, a):
        return a and [a.handle, a.secret.hex(), a.issued, a.lifetime, a.assoc_type]

    def do_put(self, u, h, k):
        a = Association('h%d' % h, bytes([k]) * 20, NOW - h, 1000 * (k + 1), 'HMAC-SHA1')
        self.s.storeAssociation('http://%d.example/' % u, a)
        a.secret = b'changed afterwards...'
        return self.do_get(u, h)

    def do_get(self, u, h):
        return self.show(self.s.getAssociation('http://%d.example/' % u, 'h%d' % h))

    def do_best(self, u):
        return self.show(self.s.getAssociation('http://%d.example/' % u))

    def do_drop(self, u, h):
        return bool(self.s.removeAssociation('http://%d.example/' % u, 'h%d' % h))

    def do_nonce(self, u, h):
        return bool(self.s.useNonce('http://%d.example/' % u, NOW + h, 'salt'))

    def do_clean(self):
        return [list(self.s.cleanup()), MemoryStore() == MemoryStore()]


class Pure(Actor):
    """Functions without any state."""
    OPS = [op('accept', st.lists(st.sampled_from(['text/html', 'text/*', '*/*;q=0.5', 'image/png;q=0.1']), max_size=3), st.lists(st.sampled_from(['text/html', 'image/png', 'text/plain']), max_size=3)),
           op('append', st.sampled_from(['http://a.example/', 'http://a.example/?q=1']), st.lists(st.tuples(word, word).map(list), max_size=3), st.booleans()), op('kv', st.lists(st.tuples(word, word).map(list), max_size=3)),
           op('realm', st.sampled_from(['http://*.a.example/', 'http://a.example/x', 'http://a.example']), st.sampled_from(['http://a.example/x/y', 'http://b.a.example/', 'https://a.example/x'])),
           op('form', st.lists(st.tuples(st.sampled_from(['id', 'action', 'method', 'class']), word).map(list), max_size=3)), op('sign', st.lists(st.tuples(word, word).map(list), max_size=3)), op('proxy', st.sampled_from(['=a', '@b*c']))]

    def do_accept(self, accept, have):
        elements = [(a.split(';')[0], 0.5) if ';' in a else a for a in accept]
        parsed = [(a.split('/')[0], a.split('/')[1].split(';')[0], 0.5 if ';' in a else 1.0) for a in accept]
        return [getAcceptable(', '.join(accept), self.inputs(have)), matchTypes(self.inputs(parsed), self.inputs(have)), generateAcceptHeader(*self.inputs(elements))]

    def do_append(self, u, items, mapping):
        return appendArgs(u, self.inputs(dict(map(tuple, items)) if mapping else [tuple(i) for i in items]))

    def do_kv(self, items):
        return [seqToKV(self.inputs([tuple(i) for i in items])), sorted(dictToKV(self.inputs(dict(map(tuple, items)))).splitlines())]

    def do_realm(self, realm, url):
        return [TrustRoot.parse(realm).validateURL(url), TrustRoot.checkURL(realm, url)]

    def do_form(self, attrs):
        m = Message(ref.OPENID2)
        m.setArg(OPENID_NS, 'mode', 'x')
        attrs = self.inputs(dict(map(tuple, attrs)))
        r = OpenIDResponse(CheckIDRequest('http://u.example/', 'http://rp.example/', op_endpoint='http://op.example/', message=Message(ref.OPENID2), claimed_id='http://u.example/'))
        return [m.toFormMarkup('http://a.example/', attrs), r.toFormMarkup(attrs)]

    def do_sign(self, items):
        return Association('h', b'k' * 20, NOW, 1000, 'HMAC-SHA1').sign(self.inputs([tuple(i) for i in items]))

    def do_proxy(self, xri):
        return ProxyResolver().queryURL(xri, 'http://t.example/')


KINDS = {'rp': Rp, 'op': Op, 'msg': Msg, 'ax': Ax, 'sreg': Sreg, 'pape': Pape, 'draft': Draft, 'neg': Neg, 'disc': Disc, 'store': Store, 'pure': Pure}
WEIGHTED = ['rp', 'rp', 'rp', 'rp', 'op', 'op'] + [k for k in sorted(KINDS) if k not in ('rp', 'op')]


def ops(kind, most):
    one = st.sampled_from(range(len(KINDS[kind].OPS))).flatmap(lambda i: KINDS[kind].OPS[i])
    return st.tuples(st.lists(one, min_size=1, max_size=most), st.lists(one, max_size=most)).map(lambda t: t[0] + t[1])


def actor(most):
    return st.sampled_from(WEIGHTED).flatmap(lambda k: st.fixed_dictionaries({'kind': st.just(k), 'site': st.integers(0, SITES - 1), 'flag': st.booleans(), 'ops': ops(k, most)}))


def alike(most):
    """Several actors of one kind."""
    return st.sampled_from(WEIGHTED).flatmap(lambda k: st.lists(st.fixed_dictionaries({'kind': st.just(k), 'site': st.integers(0, SITES - 1), 'flag': st.booleans(), 'ops': ops(k, most)}), min_size=2, max_size=3))


case = st.fixed_dictionaries({'actors': st.one_of(st.lists(actor(5), min_size=2, max_size=4), alike(5)), 'schedule': st.lists(st.integers(0, 3), max_size=40)})


def solo(a):
    clock.set(NOW)
    with World() as w:
        me = KINDS[a['kind']](w, a['site'], a['flag'])
        return [me.do(o) for o in a['ops']]


def check(ctx, case):
    actors = case['actors']
    alone = [solo(a) for a in actors]
    clock.set(NOW)
    with World() as w:
        people = [KINDS[a['kind']](w, a['site'], a['flag']) for a in actors]
        seen = [[] for _ in actors]
        order = []
        for n in case['schedule'] + [i for i, a in enumerate(actors) for _ in a['ops']]:
            n %= len(actors)
            if len(seen[n]) < len(actors[n]['ops']):
                o = actors[n]['ops'][len(seen[n])]
                seen[n].append(people[n].do(o))
                order.append(n)
                expect_eq(seen[n][-1], alone[n][len(seen[n]) - 1], 'what %s %d sees after %r while others are there (alone: expected)' % (actors[n]['kind'], n, o))
    for i, a in enumerate(actors):
        expect_eq(solo(a), alone[i], 'what %s sees alone, after others were there' % a['kind'])
    for a in actors:
        ctx.label(a['kind'] + (', shared' if a['flag'] and a['kind'] in ('rp', 'op') else ''))
    flat = [x for a, s in zip(actors, alone) if a['kind'] == 'rp' for x in s if isinstance(x, list) and len(x) > 1 and isinstance(x[1], str)]
    for x in flat:
        ctx.label('login: ' + str(x[1]))
    if any(isinstance(x, list) and x[:1] == ['raises'] for s in alone for x in s):
        ctx.label('something raises')
    turns = sum(1 for a, b in zip(order, order[1:]) if a != b)
    ctx.nt(turns >= 2 and sum(len(s) for s in seen) >= 4)


def crowd(most):
    """Several threads that use one provider."""
    return st.lists(st.fixed_dictionaries({'kind': st.just('op'), 'site': st.just(0), 'flag': st.just(True), 'ops': ops('op', most)}), min_size=3, max_size=4)


thread_case = st.fixed_dictionaries({'actors': st.sampled_from([0, 1, 2]).flatmap(lambda k: [st.lists(actor(8), min_size=3, max_size=5), alike(8), crowd(6)][k]), 'rounds': st.sampled_from([1, 4, 12])})


def check_threads(ctx, case):
    # providers may be used by many threads
    actors = [dict(a, site=5) if a['flag'] and a['kind'] == 'op' else dict(a, site=i, flag=False) for i, a in enumerate(case['actors'])]
    alone = [solo(a) for a in actors]
    clock.set(NOW)
    with World() as w:
        def runner(a):
            def run():
                out = []
                for _ in range(case['rounds']):
                    me = KINDS[a['kind']](w, a['site'], a['flag'])
                    out.append([me.do(o) for o in a['ops']])
                return out
            return run
        seen = together([runner(a) for a in actors])
    for n, a in enumerate(actors):
        for got in seen[n]:
            expect_eq(got, alone[n], 'what %s %d sees while others run in other threads' % (a['kind'], n))
        ctx.label(a['kind'] + (', shared' if a['flag'] else ''))
    ctx.nt(sum(len(s) for x in seen for s in x) >= 8)


FACETS = [Facet('turns', case, check, 4000, rule='at least two changes between actors and four operations'),
          Facet('threads', thread_case, check_threads, 600, rule='at least eight operations in all')]
