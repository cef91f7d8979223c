"""Nothing that a remote party can send stalls the library: long and hostile texts, documents and messages."""
import functools
import io
import resource
import time

from vf.core import Facet, Violation, expect, st
from vf import docs, ref
from vf.env import clock
from vf.web import Web
from openid import cryptutil, fetchers, oidutil
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint, discover, normalizeURL
from openid.extensions import ax, pape, sreg
from openid.extensions.draft import pape2, pape5
from openid.kvform import kvToSeq, seqToKV
from openid.message import Message
from openid.server.server import ProtocolError, Server
from openid.server.trustroot import TrustRoot, verifyReturnTo
from openid.store import nonce
from openid.store.memstore import MemoryStore
from openid.urinorm import urinorm
from openid.yadis import xri, xrires
from openid.yadis.accept import getAcceptable
from openid.yadis.discover import DiscoveryFailure
from openid.yadis.parsehtml import findHTMLMeta

ASSUMPTIONS = ['logging of debug messages is off', 'Diffie-Hellman moduli of requests are small or too large to be accepted', 'texts have at most 100 000 characters, host names and values in a request 30 000, documents and addresses in them one million']
NOW = 1500000000
SERVER = 'http://op.example/endpoint'
CLAIMED = 'http://user.example/'
RETURN = 'http://rp.example/back'
KEY = b'0123456789abcdefghij'
CPU = 10
MEMORY = 4 << 30
HERE = 'http://rp.example/'

UNITS = ['a', '/', '../', './', 'a/', '/a/..', '//', '%41', '%2', '%', '(', ')', '()', '(a', 'a)', '=', '*', '!', '@', '$', '+', ':', '[', ']', '[]', '?', '#', '&', 'a=b&', '&=', 'a:b\n', ':\n', '\n', 'a\n', ' \n:', ' a : b \n', ' ', '.', '-', 'a.', 'a-', '-.', '~', '_', '<', '>', '<a>', '</a>',
         '<a b="', '<link ', '<link rel="a">', '<meta http-equiv="', '<html>', '<head>', '&a;', '&amp;', '&#1', '"', "'", '<!--', '-->', '\t', '\r', '1', '9', '0', 'e', 'T', 'Z', '1e', '-1', 'a=1,', 'text/html;q=0.5,', 'a/b;', ';', 'q=', ',', '/,', '\xe9', '\u3002', '\u0130', '\U0001f600', '<?', '<![CDATA[', ']]>', '\x00', '\\',
         '{', '}', '{}', '%s', 'A=', 'AA', '==', 'openid.', 'ns.', 'xri://', 'http://', 'aA', 'a1', 'a b', 'a\nb', 'a/b?', 'a@', 'a:', '.com', 'xn--']
unit = st.sampled_from([1, 1, 1, 2, 3]).flatmap(lambda k: st.sampled_from(UNITS) if k == 1 else st.tuples(st.sampled_from(UNITS), st.sampled_from(UNITS)).map(''.join) if k == 2 else st.lists(st.sampled_from(UNITS), min_size=3, max_size=5).map(''.join))
edge = st.one_of(st.just(''), st.sampled_from(UNITS), st.sampled_from(UNITS))
text = st.fixed_dictionaries({'pre': edge, 'unit': unit, 'post': edge, 'n': st.sampled_from([30, 1000, 100000, 100000, 100000, 100000, 1000000, 1000000])})


def big(t, most=30000):
    return t['pre'] + t['unit'] * (min(t['n'], most) // len(t['unit'])) + t['post']


def realm(t, url=HERE):
    r = TrustRoot.parse(t)
    return r and (r.isSane(), r.validateURL(url), r.validateURL(t))


def services(data):
    return OpenIDServiceEndpoint.fromXRDS(CLAIMED, data.encode('utf-8', 'replace'))


X = '<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s<Service>%s<URI>http://op.example/</URI></Service></XRD></x:XRDS>'
TYPE = '<Type>%s</Type>' % docs.T_SIGNON
esc = docs.esc
# what is done with the text; the texts of the first ones are parts of a document, of which there may be a million characters
ENTRIES = {
    'urinorm path': lambda t: urinorm('http://a.example/' + t), 'urinorm query': lambda t: urinorm('http://a.example/?' + t), 'urinorm fragment': lambda t: urinorm('http://a.example/#' + t), 'normalizeURL path': lambda t: normalizeURL('http://a.example/' + t),
    'kvToSeq': kvToSeq, 'kvToSeq strict': lambda t: kvToSeq(t, strict=True), 'Message.fromKVForm': Message.fromKVForm, 'fromKVForm fields': lambda t: Message.fromKVForm('ns:%s\n%s' % (ref.OPENID2, t)), 'findHTMLMeta': lambda t: findHTMLMeta(io.StringIO(t)),
    'findHTMLMeta head': lambda t: findHTMLMeta(io.StringIO('<html><head><meta http-equiv="X-XRDS-Location" content="%s">' % t)), 'fromHTML': lambda t: OpenIDServiceEndpoint.fromHTML(CLAIMED, t), 'fromHTML head': lambda t: OpenIDServiceEndpoint.fromHTML(CLAIMED, '<html><head>' + t),
    'fromHTML rel': lambda t: OpenIDServiceEndpoint.fromHTML(CLAIMED, '<html><head><link rel="openid2.provider %s" href="%s">' % (esc(t), esc(t))), 'fromXRDS': services, 'fromXRDS type': lambda t: services(X % ('', '<Type>%s</Type>' % esc(t))), 'fromXRDS uri': lambda t: services(X % ('', TYPE + '<URI priority="%s">%s</URI>' % (esc(t), esc(t)))),
    'fromXRDS local': lambda t: services(X % ('<CanonicalID>%s</CanonicalID>' % esc(t), TYPE + '<LocalID>%s</LocalID>' % esc(t))), 'fromXRDS inside': lambda t: services(X % ('', TYPE + t)), 'providerIsAuthoritative': lambda t: xri.providerIsAuthoritative(t, t + '!1'), 'fromBase64': oidutil.fromBase64, 'base64ToLong': cryptutil.base64ToLong,
    'iriToURI': xri.iriToURI, 'Association.deserialize': lambda t: Association.deserialize(t.encode('utf-8')), 'deserialize fields': lambda t: Association.deserialize(('version:2\nhandle:%s\nsecret:%s\nissued:1\nlifetime:1\nassoc_type:HMAC-SHA1\n' % (t, t)).encode('utf-8')),
}
LONG = set(ENTRIES)
# Python's IDNA codec takes its time
HOSTS = {'urinorm', 'normalizeURL', 'TrustRoot', 'TrustRoot wildcard', 'validateURL'}
ENTRIES.update({
    'urinorm': urinorm, 'urinorm host': lambda t: urinorm('http://' + t), 'urinorm port': lambda t: urinorm('http://a.example:%s/' % t), 'normalizeURL': normalizeURL, 'TrustRoot': realm, 'TrustRoot host': lambda t: realm('http://' + t), 'TrustRoot wildcard': lambda t: realm('http://*.' + t), 'TrustRoot path': lambda t: realm('http://rp.example/' + t, 'http://rp.example/' + t + '/x'),
    'TrustRoot port': lambda t: realm('http://rp.example:' + t), 'validateURL': lambda t: TrustRoot.parse('http://*.example/').validateURL('http://' + t), 'TrustRoot.checkURL': lambda t: TrustRoot.checkURL('http://*.rp.example/' + t, 'http://a.rp.example/' + t),
    'identifierScheme': xri.identifierScheme, 'toURINormal': lambda t: xri.toURINormal('=' + t), 'toIRINormal': xri.toIRINormal, 'rootAuthority': lambda t: xri.rootAuthority(t), 'rootAuthority (': lambda t: xri.rootAuthority('(' + t), 'queryURL': lambda t: xrires.ProxyResolver().queryURL('=' + t, 'http://a.example/'),
    'nonce.split': nonce.split, 'nonce.split tail': lambda t: nonce.split('2017-07-14T02:40:00Z' + t), 'checkTimestamp': nonce.checkTimestamp, 'getAcceptable': lambda t: getAcceptable(t, ['text/html', 'application/xrds+xml', 'text/plain']), 'seqToKV': lambda t: seqToKV([(t, t), ('a', t), (t, 'a')]),
    'appendArgs': lambda t: oidutil.appendArgs('http://a.example/?' + t, [('a', t)]), 'toURL': lambda t: Message(ref.OPENID2).toURL(HERE + '?' + t), 'toTypeURIs': lambda t: ax.toTypeURIs(Message(ref.OPENID2).namespaces, t), 'AttrInfo': lambda t: ax.AttrInfo('http://a.example/', alias=t), 'checkAlias': lambda t: ax.checkAlias(t),
    'pape time': lambda t: pape.Response(auth_time=t).getExtensionArgs(), 'pape2 time': lambda t: pape2.Response(auth_time=t).getExtensionArgs(), 'sreg field': lambda t: sreg.checkFieldName(t), 'sreg list': lambda t: sreg.SRegRequest().requestFields(t.split(',')),
    'fromOpenIDArgs': lambda t: Message.fromOpenIDArgs({t: t, 'ns.' + t[:50]: t, t[:50] + '.x': t}), 'toFormMarkup': lambda t: form_markup(t),
})


def form_markup(t):
    m = Message(ref.OPENID2)
    m.setArg('http://ns.example/', 'a', t)
    return m.toFormMarkup(HERE, {'id': t, 'class': t}, t)


text_case = st.fixed_dictionaries({'what': st.sampled_from(sorted(ENTRIES)), 'text': text})


def bounded(check):
    """The memory is limited while a case runs."""
    @functools.wraps(check)
    def run(ctx, case):
        old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY if old[1] < 0 else min(MEMORY, old[1]), old[1]))
        try:
            check(ctx, case)
        except MemoryError:
            raise Violation('more than %d bytes of memory are needed' % MEMORY)
        finally:
            resource.setrlimit(resource.RLIMIT_AS, old)
    return run


def attempt(func, *args):
    """Any outcome is good: other properties tell which one it must be."""
    try:
        func(*args)
        return 'value'
    except MemoryError:
        raise Violation('more than %d bytes of memory are needed' % MEMORY)
    except Exception as e:
        return type(e).__name__


@bounded
def check_text(ctx, case):
    clock.set(NOW)
    t = big(case['text'], 1000000 if case['what'] in LONG else 30000 if 'host' in case['what'] or case['what'] in HOSTS else 100000)
    out = attempt(ENTRIES[case['what']], t)
    ctx.label('value' if out == 'value' else 'error')
    ctx.label('%d characters or more' % max(k for k in (0, 1000, 25000, 90000, 900000) if len(t) >= k))
    ctx.nt(len(t) >= 1000)


# ---- documents

count = st.sampled_from([1, 20, 300, 8000])
document = st.one_of(
    st.fixed_dictionaries({'kind': st.just('xrds'), 'xrds': st.sampled_from([1, 20, 300]), 'services': count, 'types': st.sampled_from([1, 1, 3, 100, 2000]), 'uris': st.sampled_from([1, 1, 3, 100, 2000]), 'locals': st.sampled_from([0, 0, 1, 2000]), 'same': st.booleans(), 'prio': st.sampled_from(['none', 'down', 'bad', 'long']), 'cid': st.sampled_from(['none', 'all', 'chain'])}),
    st.fixed_dictionaries({'kind': st.just('html'), 'links': count, 'rels': st.sampled_from([1, 20, 500]), 'metas': count, 'where': st.sampled_from(['head', 'body', 'nested'])}),
    st.fixed_dictionaries({'kind': st.just('nested'), 'tag': st.sampled_from(['a', 'div', 'XRD', 'Service', 'head', 'link', 'html', 'table', 'b', 'p', 'select', 'frameset']), 'n': st.sampled_from([200, 5000, 100000]), 'close': st.booleans(), 'attrs': st.sampled_from([0, 0, 200])}),
    st.fixed_dictionaries({'kind': st.just('text'), 'text': text, 'xml': st.booleans()}))
page = st.fixed_dictionaries({'doc': document, 'ct': st.sampled_from(['application/xrds+xml', 'application/xrds+xml', 'text/html', 'text/html; charset=utf-8', 'long']), 'loc': st.sampled_from([None, None, None, 'loop', 'long', 'other'])})
document_case = st.fixed_dictionaries({'pages': st.lists(page, min_size=1, max_size=2), 'who': st.sampled_from(['http', 'http', 'http', 'xri', 'return'])})


def body_of(doc):
    kind = doc['kind']
    if kind == 'text':
        t = big(doc['text'], 1000000)
        return (X % ('', TYPE + t) if doc['xml'] else t).encode('utf-8', 'replace')
    if kind == 'nested':
        attrs = ''.join(' a%d="x"' % i for i in range(doc['attrs']))
        return ('<%s%s>' % (doc['tag'], attrs) + ('<%s>' % doc['tag']) * doc['n'] + ('</%s>' % doc['tag']) * (doc['n'] if doc['close'] else 0)).encode()
    if kind == 'html':
        links = ''.join('<link rel="%s" href="http://op.example/%d">' % (' '.join(['openid2.provider', 'openid.server', 'openid2.local_id', 'openid.delegate', 'x%d' % i][j % 5] for j in range(min(doc['rels'], 60000 // doc['links'] or 1))), i) for i in range(doc['links']))
        metas = ''.join('<meta http-equiv="X%s" content="%d">' % ('-XRDS-Location' if i == doc['metas'] - 1 else '', i) for i in range(doc['metas']))
        if doc['where'] == 'nested':
            links = links.replace('<link', '<div><link')
        return ('<html><head>%s</head><body></body></html>' % (metas + links) if doc['where'] == 'head' else '<html><head>%s</head><body>%s</body></html>' % (metas, links)).encode()
    # at most 8000 elements of a kind
    n = doc['services']
    per = {k: max(1, min(doc[k], 8000 // n)) if doc[k] else 0 for k in ('types', 'uris', 'locals')}
    # the known finding has a facet of its own
    while per['uris'] > 1 and n * per['uris'] * (per['types'] + per['locals']) > 200000:
        per['uris'] //= 2
    parts = []
    for i in range(n):
        prio = {'none': '', 'down': ' priority="%d"' % (n - i), 'bad': ' priority="x%d"' % i, 'long': ' priority="%s"' % ('9' * 200)}[doc['prio']]
        types = TYPE + ''.join('<Type>%s</Type>' % (docs.T_11 if doc['same'] else 'http://t.example/%d' % j) for j in range(per['types'] - 1))
        uris = ''.join('<URI%s>http://op.example/%s</URI>' % (prio, '' if doc['same'] else '%d-%d' % (i, j)) for j in range(per['uris']))
        parts.append('<Service%s>%s%s%s</Service>' % (prio, types, uris, '<LocalID>http://local.example/</LocalID>' * per['locals']))
    xs = []
    for i in range(doc['xrds']):
        cid = {'none': '', 'all': '<CanonicalID>=!1</CanonicalID>' * 20, 'chain': '<CanonicalID>=%s</CanonicalID>' % ('!1' * (i + 1))}[doc['cid']]
        xs.append('<XRD>%s%s</XRD>' % (cid, ''.join(parts) if i == doc['xrds'] - 1 else ''))
    return ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)">%s</x:XRDS>' % ''.join(xs)).encode()


class Pages(dict):
    def __init__(self, pages):
        self.pages = pages
        self.n = 0

    def get(self, url, default=None):
        self.n += 1
        return self.pages[(self.n - 1) % len(self.pages)]


@bounded
def check_documents(ctx, case):
    clock.set(NOW)
    pages = []
    size = 0
    for p in case['pages']:
        body = body_of(p['doc'])
        size = max(size, len(body))
        headers = {'Content-Type': 'text/html; ' + 'charset=utf-8; ' * 2000 if p['ct'] == 'long' else p['ct']}
        if p['loc']:
            headers['X-XRDS-Location'] = {'loop': CLAIMED, 'other': 'http://other.example/', 'long': 'http://other.example/' + '../' * 10000}[p['loc']]
        pages.append({'body': body, 'headers': headers})
        ctx.label(p['doc']['kind'])
    web = Web(budget=60)
    web.pages = Pages(pages)
    with web:
        if case['who'] == 'return':
            out = attempt(verifyReturnTo, HERE, RETURN)
            ctx.label('return_to')
        else:
            try:
                found = discover({'http': CLAIMED, 'xri': '=user'}[case['who']])[1]
                ctx.label('services' if len(found) < 100 else '100 services or more')
            except (DiscoveryFailure, fetchers.HTTPFetchingError):
                ctx.label('failure')
            session = {}
            out = attempt(lambda: Consumer(session, MemoryStore()).begin({'http': CLAIMED, 'xri': '=user'}[case['who']]))
    expect(len(web.log) <= 12, '%d requests', len(web.log))
    ctx.nt(size >= 10000)


product = st.fixed_dictionaries({'many': st.sampled_from(['types', 'types', 'locals']), 'n': st.integers(2000, 2500), 'uris': st.integers(2000, 2500)})


@bounded
def check_product(ctx, case):
    """Many addresses in one service, which has many types or local identifiers: each is read again for each address."""
    clock.set(NOW)
    body = X % ('', TYPE * (case['n'] if case['many'] == 'types' else 1) + '<LocalID>a</LocalID>' * (case['n'] if case['many'] == 'locals' else 0) + '<URI>http://op.example/</URI>' * case['uris'])
    start = time.process_time()
    n = len(services(body))
    spent = time.process_time() - start
    expect(n == case['uris'] + 1, '%d services for %d addresses', n, case['uris'])
    ctx.nt()
    if spent > 2:
        ctx.known.append('types-times-addresses')


# ---- messages

FIELDS = {
    'plain': lambda i: ('x%d' % i, 'v'), 'ext': lambda i: ('e.x%d' % i, 'v'), 'ns': lambda i: ('ns.e%d' % i, 'http://ns%d.example/' % i), 'same ns': lambda i: ('ns.e%d' % i, 'http://ns.example/'), 'dots': lambda i: ('.'.join('abc') * (i % 50) + str(i), 'v'), 'ax type': lambda i: ('ax.type.a%d' % i, 'http://t.example/%d' % i),
    'ax value': lambda i: ('ax.value.a%d' % i, 'v'), 'ax count': lambda i: ('ax.count.a%d' % i, '1000000000'), 'ax value n': lambda i: ('ax.value.a.%d' % i, 'v'), 'pape level': lambda i: ('pape.auth_level.ns.a%d' % i, 'http://level%d.example/' % i), 'alias n': lambda i: ('ns.ext%d' % i, 'http://ns%d.example/' % i),
    'pape value': lambda i: ('pape.auth_level.a%d' % i, '1'), 'sreg': lambda i: ('sreg.nick%d' % i, 'v'), 'foreign': lambda i: (None, 'v')}
LISTS = ['signed', 'sreg.required', 'sreg.optional', 'ax.required', 'ax.if_available', 'pape.preferred_auth_policies', 'pape.auth_policies', 'pape.preferred_auth_level_types', 'ax.type.a', 'ax.count.a', 'ax.value.a', 'ax.update_url', 'pape.auth_time', 'pape.max_auth_age', 'sreg.policy_url', 'return_to', 'realm', 'identity', 'claimed_id', 'assoc_handle', 'sig', 'response_nonce',
         'invalidate_handle', 'dh_consumer_public', 'dh_modulus', 'dh_gen', 'assoc_type', 'session_type', 'mode', 'ns', 'ns.ax', 'error', 'user_setup_url', 'op_endpoint', 'trust_root']
words = st.fixed_dictionaries({'n': st.sampled_from([10, 300, 3000]), 'sep': st.sampled_from([',', ',', ' ', '.', '']), 'same': st.booleans(), 'word': st.sampled_from(['a', 'mode', 'identity', 'nickname', 'http://p.example/', 'x', 'e.x', '.'])})
value = st.one_of(words.map(lambda w: ['words', w]), text.map(lambda t: ['text', t]), text.map(lambda t: ['url', t]), st.sampled_from(['256', '4096', '10001', '80000', '200000']).map(lambda n: ['number', int(n)]), st.sampled_from(['1000', '2000', '1000000000', '-1', '4000000000', '1e9']).map(lambda n: ['plain', n]))
message = st.fixed_dictionaries({'mode': st.sampled_from(['id_res', 'id_res', 'id_res', 'id_res', 'checkid_setup', 'checkid_immediate', 'check_authentication', 'associate', 'error', 'cancel', 'setup_needed']), 'ns': st.sampled_from(['2', '2', '1.1', None]),
                                 'fields': st.lists(st.tuples(st.sampled_from(sorted(FIELDS)), st.sampled_from([1, 50, 2000])).map(list), max_size=3), 'values': st.lists(st.tuples(st.sampled_from(LISTS), value).map(list), max_size=3), 'good': st.sampled_from([True, True, False]), 'sign': st.sampled_from([None, 'list', 'all', 'all', 'all'])})


def value_of(key, v):
    kind, w = v
    if kind == 'plain':
        return w
    if kind == 'words':
        return w['sep'].join(w['word'] + ('' if w['same'] else str(i)) for i in range(w['n']))
    if kind == 'number':
        bits = w
        if key in ('dh_modulus', 'dh_gen', 'dh_consumer_public'):
            bits = w if key == 'dh_consumer_public' or w > 10000 else 256
            return ref.b64(b'\0' + b'\xff' * (bits // 8))
        return '9' * min(w, 30000)
    t = big(w)
    return HERE + t if kind == 'url' else t


def args_of(case, token=None):
    args = {'openid.mode': case['mode']}
    if case['ns']:
        args['openid.ns'] = {'2': ref.OPENID2, '1.1': ref.OPENID11}[case['ns']]
    args.update({'openid.identity': CLAIMED, 'openid.claimed_id': CLAIMED, 'openid.return_to': RETURN, 'openid.realm': HERE, 'openid.trust_root': HERE, 'openid.op_endpoint': SERVER, 'openid.response_nonce': '2017-07-14T02:40:00Zx', 'openid.assoc_handle': 'stored',
                 'openid.assoc_type': 'HMAC-SHA1', 'openid.session_type': 'DH-SHA1', 'openid.dh_consumer_public': 'Ag==', 'openid.ns.ax': 'http://openid.net/srv/ax/1.0', 'openid.ns.sreg': 'http://openid.net/extensions/sreg/1.1', 'openid.ns.pape': 'http://specs.openid.net/extensions/pape/1.0', 'openid.ns.e': 'http://e.example/'})
    if any(k.startswith('ax.') for k, _ in case['values']) or any(k.startswith('ax') for k, _ in case['fields']):
        args['openid.ax.mode'] = 'fetch_response' if case['mode'] == 'id_res' else 'fetch_request'
    for kind, n in case['fields']:
        for i in range(n):
            k, v = FIELDS[kind](i)
            args['openid.' + k if k else 'f%d' % i] = v
    for key, v in case['values']:
        args['openid.' + key] = value_of(key, v)
    if token is not None:
        args['openid1_claimed_id'] = CLAIMED
        args['janrain_nonce'] = token
    if case['good'] and 'return_to' not in [k for k, _ in case['values']]:
        rest = sorted((k, v) for k, v in args.items() if not k.startswith('openid.'))
        args['openid.return_to'] = RETURN + ('?' if rest else '') + '&'.join('%s=%s' % p for p in rest)
    if case['sign']:
        if case['sign'] == 'all':
            args['openid.signed'] = ','.join(sorted(k[7:] for k in args if k.startswith('openid.') and ',' not in k and k not in ('openid.sig', 'openid.signed')))
        try:
            args['openid.sig'] = ref.message_sig('HMAC-SHA1', KEY, args)
        except Exception:
            args['openid.sig'] = 'AAAA'
    return args


EXTENSIONS = [('ax fetch request', ax.FetchRequest.fromOpenIDRequest, None), ('sreg request', sreg.SRegRequest.fromOpenIDRequest, None), ('pape request', pape.Request.fromOpenIDRequest, None), ('pape2 request', pape2.Request.fromOpenIDRequest, None), ('pape5 request', pape5.Request.fromOpenIDRequest, None)]
ANSWERS = [ax.FetchResponse.fromSuccessResponse, ax.StoreResponse.fromSuccessResponse, sreg.SRegResponse.fromSuccessResponse, pape.Response.fromSuccessResponse, pape2.Response.fromSuccessResponse, pape5.Response.fromSuccessResponse]


@bounded
def check_provider(ctx, case):
    clock.set(NOW)
    args = args_of(case)
    server = Server(MemoryStore(), SERVER)
    server.store.storeAssociation('http://localhost/|dumb', Association('stored', KEY, NOW, 1000, 'HMAC-SHA1'))
    try:
        request = server.decodeRequest(args)
    except ProtocolError as e:
        ctx.label('refused')
        attempt(lambda: server.encodeResponse(e))
        attempt(lambda: e.encodeToURL())
        return
    ctx.label(request.mode)
    ctx.nt(len(args) > 500 or any(len(v) > 2000 for v in args.values()))
    if request.mode in ('checkid_setup', 'checkid_immediate'):
        for _, parse, _ in EXTENSIONS:
            attempt(parse, request)
        attempt(request.trustRootValid)
        attempt(lambda: request.encodeToURL(SERVER))
        for allow in (True, False):
            def answer():
                response = request.answer(allow, server_url=SERVER)
                for key, v in case['values'][:2]:
                    response.fields.setArg('http://e.example/', key.replace('.', ''), value_of(key, v))
                web = server.encodeResponse(response)
                response.toFormMarkup()
                return web
            attempt(answer)
    else:
        attempt(lambda: server.encodeResponse(server.handleRequest(request)))


@bounded
def check_consumer(ctx, case):
    clock.set(NOW)
    store = MemoryStore()
    store.storeAssociation(SERVER, Association('stored', KEY, NOW, 1000, 'HMAC-SHA1'))
    e = OpenIDServiceEndpoint()
    e.claimed_id, e.server_url, e.type_uris = CLAIMED, SERVER, [docs.T_SIGNON if case['ns'] == '2' else docs.T_11]
    session = {}
    args = args_of(case, '2017-07-14T02:39:30Zabcdef')
    answers = [{'headers': {'Content-Type': 'text/plain'}, 'body': ''.join('%s:%s\n' % (k[7:], v.replace('\n', ' ')) for k, v in args.items() if k.startswith('openid.')).encode('utf-8', 'replace'), 'status': status} for status in (200, 400, 200)]
    web = Web(budget=60)
    web.pages = Pages(answers)
    with web:
        # the provider's answer to the association request is as long as the rest
        attempt(lambda: Consumer(session, MemoryStore()).beginWithoutDiscovery(e))
        request = Consumer(session, store).beginWithoutDiscovery(e)
        attempt(lambda: request.redirectURL(HERE, args['openid.return_to']))
        attempt(lambda: request.htmlMarkup(HERE, args['openid.return_to']))
        try:
            r = Consumer(session, store).complete(args, RETURN)
        except RuntimeError:
            ctx.label('RuntimeError')
            return
    ctx.label(r.status)
    ctx.nt(len(args) > 500 or any(len(v) > 2000 for v in args.values()))
    if r.status == 'success':
        for read in ANSWERS:
            attempt(read, r)
        for ns in ('http://e.example/', 'http://openid.net/srv/ax/1.0', ref.OPENID2):
            r.extensionResponse(ns, True)
            r.getSignedNS(ns)


RULE = 'texts of at least 1000 characters'
FACETS = [
    Facet('text', text_case, check_text, quick=16000, rule=RULE, cpu=CPU),
    Facet('documents', document_case, check_documents, quick=800, rule='a document of at least 10 000 bytes', cpu=CPU),
    Facet('product', product, check_product, quick=24, thorough=80, rule='all', cpu=40),
    Facet('provider', message.map(lambda c: dict(c, mode='checkid_setup') if c['mode'] in ('id_res', 'cancel', 'error') else c), check_provider, quick=1000, rule='accepted requests with more than 500 fields or a value of more than 2000 characters', cpu=CPU),
    Facet('consumer', message.map(lambda c: dict(c, mode='id_res') if c['mode'][:2] in ('ch', 'as') else c), check_consumer, quick=1000, rule='responses with more than 500 fields or a value of more than 2000 characters', cpu=CPU),
]
