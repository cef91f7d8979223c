"""Completing a login: whatever arrives, one of the four outcomes."""
from urllib.parse import urlencode

from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import Web, form
from openid import fetchers
from openid.association import Association
from openid.consumer.consumer import CancelResponse, Consumer, FailureResponse, SetupNeededResponse, SuccessResponse
from openid.consumer.discover import OpenIDServiceEndpoint

ASSUMPTIONS = ['names and values of the query are text without surrogates', 'an OpenID 1 response without session and without claimed identifier in the return_to may raise the RuntimeError that tells the programmer so']
NOW = 1500000000
KEY = b'0123456789abcdefghij'
RETURN = 'http://rp.example/back'
SERVER = 'http://op.example/endpoint'
CLAIMED = 'http://user.example/'
T2, TS, T11 = 'http://specs.openid.net/auth/2.0/signon', 'http://specs.openid.net/auth/2.0/server', 'http://openid.net/signon/1.1'
NAMES = ['mode', 'ns', 'identity', 'claimed_id', 'return_to', 'op_endpoint', 'assoc_handle', 'signed', 'sig', 'response_nonce', 'invalidate_handle', 'user_setup_url', 'error', 'contact', 'reference']
URLISH = ['http://', 'http://[::1', 'http://[::1]/', 'http://a b/', 'http://\xe9.example/', 'http://user.example/#x', 'http://user.example', 'HTTP://USER.EXAMPLE/', 'https://user.example/', 'http://user.example:x/', 'http://user.example:99999/', '=name', '@', '=', '!', 'xri://', 'xri://=!9.A', '=a*(b', '=a*b)', '(=x)', 'xri://$dns',
          'javascript:alert(1)', 'data:,x', 'mailto:a@b', 'user.example', '//user.example/', '/', '?', '#', 'http://user.example/%zz', 'http://user.example/%', 'http://%00/', 'http://\0/', 'http://user.example/\0', 'http://user.example/\n', 'file:///etc/hostname', 'http://..', 'http://.', 'http://xn--/', 'http://' + 'a' * 70 + '.example/', 'http://1.2.3.4.5/', 'http://[v1.a]/',
          'http://op.example/404', 'http://user.example/garbage', 'http://user.example/error', 'http://user.example/html', 'http://user.example/yadis', 'http://\u2100.example/', 'http://user.example:80/', 'http://user\uff0fexample/']
WORDS = ['', ' ', 'id_res', 'cancel', 'error', 'setup_needed', 'checkid_setup', 'check_authentication', 'Id_res', 'invalid', '__class__', 'true', '1', ref.OPENID2, ref.OPENID10, ref.OPENID11, 'http://openid.net/signon/2.0', 'http://specs.openid.net/auth/2.1', 'mode', 'signed', ',', 'mode,', ',,identity', 'return_to,identity', 'ns.x', 'x.y', 'mode,mode',
         'stored', 'unknown', '2017-07-14T02:40:00Zx', '2017-07-14T02:40:00Z', '2017-07-14T02:40', '9999-99-99T99:99:99Zx', '0000-00-00T00:00:00Z', '2017-02-30T00:00:00Z', '0001-01-01T00:00:00Z', '9999-12-31T23:59:59Z', '1970-01-01T00:00:00Zx', '-017-07-14T02:40:00Z', 'AAAA', '====', '\xe9', '%', '%s%d', '{0}', RETURN, RETURN + '?a=b', RETURN + '?a', RETURN + '?=', CLAIMED, SERVER]
word = st.one_of(st.sampled_from(WORDS), st.sampled_from(URLISH), st.sampled_from(WORDS), gen.tricky_text, gen.any_text)
name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(['', '.', 'ns.', 'ns.x', 'ns.sreg', 'ns.ns', 'ns.mode', 'ns.a.b', 'x.y', 'sreg.nickname', 'x.', '.x', 'x..y', 'ns..', 'is_valid', 'error_code', 'Mode', ' mode']), gen.tricky_text)
full = st.one_of(name.map('openid.'.__add__), name.map('openid.'.__add__), name.map('openid.'.__add__), st.sampled_from(['janrain_nonce', 'openid1_claimed_id', 'a', 'openid', 'openid.', '', 'Openid.mode', 'openid.mode ', 'rp_nonce']), gen.tricky_text)
SPECIAL = ['http://[::1', 'http://[::1#x', 'http://[', 'http://user.example/#[', 'http://user.example/x', 'http://user.example/#', 'http://user.example/#x', '', '=', 'xri://', 'http://op.example/endpoint']
aimed = st.sampled_from([('claimed_id', SPECIAL), ('identity', SPECIAL), ('op_endpoint', SPECIAL), ('return_to', [RETURN + '?a=b', RETURN + '#x', 'http://[', 'http://rp.example:x/back', RETURN + '?a', RETURN + '/']), ('response_nonce', WORDS), ('mode', ['cancel', 'error', 'setup_needed', 'id_res ', '', 'complete', 'invalid', 'checkid_setup']), ('signed', WORDS), ('sig', ['', '=', 'AAAA', '\xe9', 'a' * 28])])
aimed = aimed.flatmap(lambda p: st.tuples(st.just('set'), st.just(p[0]), st.sampled_from(p[1])))
any_change = st.sampled_from(['set', 'set', 'set', 'drop', 'drop', 'rename', 'add', 'sign', 'extend']).flatmap(lambda k: st.tuples(st.just(k), st.one_of(name, st.integers(0, 20)), full if k == 'rename' else word))
change = st.one_of(aimed, any_change).map(list)
genuine = st.fixed_dictionaries({'kind': st.just('genuine'), 'version': st.sampled_from(['2', '2', '1.1', '1']), 'changes': st.sampled_from([0, 1, 1, 1, 1, 2, 2, 3]).flatmap(lambda n: st.lists(change, min_size=n, max_size=n)), 'resign': st.sampled_from([True, True, True, False]), 'follow': st.sampled_from([True, True, False]), 'handle': st.sampled_from(['stored', 'stored', 'unknown', 'expired'])})
arbitrary = st.fixed_dictionaries({'kind': st.just('arbitrary'), 'args': st.dictionaries(full, word, max_size=8), 'mode': st.one_of(st.sampled_from(['id_res', 'id_res', 'id_res', 'cancel', 'error', 'setup_needed']), st.none(), word), 'ns': st.one_of(st.none(), st.just(ref.OPENID2), st.just(ref.OPENID2), word)})
ANSWERS = ['genuine', 'genuine', 'deny', 'garbage', 'empty', 'latin', '500', '400', '400 garbage', '302', 'down', 'true crlf', 'json', 'invalidate', 'ns', 'bad ns', 'nul', 'dup', 'refuse 1', 'error mode', 'timeout']
case = st.fixed_dictionaries({'query': st.sampled_from([1, 1, 1, 1, 0]).flatmap(lambda k: genuine if k else arbitrary), 'session': st.sampled_from(['none', 'same', 'same', 'same', '1', '2', 'op', 'delegated']), 'store': st.sampled_from(['none', 'memory', 'memory'] + KINDS), 'op': st.sampled_from(ANSWERS),
                              'page': st.sampled_from(['xrds', 'xrds', 'xrds', 'html', 'garbage', 'empty', 'error', '404', 'loop', 'bad xrds', 'entity', 'nouri', 'latin']), 'current': st.sampled_from([RETURN] * 150 + URLISH + [''])})


def service(*types, **kw):
    e = OpenIDServiceEndpoint()
    e.claimed_id, e.server_url, e.type_uris = kw.get('claimed', CLAIMED), SERVER, list(types)
    e.local_id = kw.get('local')
    return e


def sign(args):
    try:
        args['openid.sig'] = ref.message_sig('HMAC-SHA1', KEY, args)
    except Exception:
        pass


def build(q):
    if q['kind'] == 'arbitrary':
        args = dict(q['args'])
        if q['mode'] is not None:
            args['openid.mode'] = q['mode']
        if q['ns'] is not None:
            args['openid.ns'] = q['ns']
        return args
    bare = {'janrain_nonce': '2017-07-14T02:39:30Zabcdef'}
    if q['version'] != '2':
        bare['openid1_claimed_id'] = CLAIMED
    args = {'openid.mode': 'id_res', 'openid.identity': CLAIMED, 'openid.return_to': RETURN + '?' + urlencode(sorted(bare.items())), 'openid.assoc_handle': q['handle'], 'openid.signed': 'mode,identity,return_to,assoc_handle'}
    if q['version'] == '2':
        args.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': CLAIMED, 'openid.op_endpoint': SERVER, 'openid.response_nonce': '2017-07-14T02:39:40Zq', 'openid.signed': 'mode,identity,return_to,assoc_handle,claimed_id,op_endpoint,response_nonce'})
    elif q['version'] == '1.1':
        args['openid.ns'] = ref.OPENID11
    args.update(bare)
    sign(args)
    for kind, key, v in q['changes']:
        if isinstance(key, int):
            key = sorted(args)[key % len(args)] if args else 'openid.mode'
        else:
            key = 'openid.' + key
        if kind in ('set', 'add'):
            args[key] = v
        elif kind == 'drop':
            args.pop(key, None)
        elif kind == 'rename' and key in args:
            args[v] = args.pop(key)
        elif kind == 'sign':
            args['openid.signed'] = args.get('openid.signed', '') + ',' + (v if len(v) < 10 else key[7:])
        elif kind == 'extend' and key in args:
            args[key] += v
    if q['follow'] and 'openid.return_to' in args:
        # the return_to goes with the other arguments of the query
        args['openid.return_to'] = args['openid.return_to'].split('?')[0] + '?' + urlencode(sorted((k, v) for k, v in args.items() if not k.startswith('openid.')))
    if q['resign']:
        sign(args)
    return args


def op_page(kind):
    def page(body, headers):
        if kind == 'genuine':
            args = form(body)
            try:
                ok = args.get('openid.sig') == ref.message_sig('HMAC-SHA1', KEY, dict(args, **{'openid.mode': 'id_res'}))
            except Exception:
                ok = False
            return {'body': b'is_valid:%s\n' % (b'true' if ok else b'false')}
        return {'deny': {'body': b'is_valid:false\n'}, 'garbage': {'body': b'\x00\xff<html>:\n:::\n\n'}, 'empty': {'body': b''}, 'latin': {'body': b'is_valid:\xe9\n'}, '500': {'status': 500, 'body': b'is_valid:true\n'}, '400': {'status': 400, 'body': b'error:no\nmode:error\n'},
                '400 garbage': {'status': 400, 'body': b'\xff\xfe'}, '302': {'status': 302, 'body': b''}, 'down': fetchers.HTTPFetchingError('down'), 'true crlf': {'body': b'is_valid:false\r\n'}, 'json': {'body': b'{"is_valid": true}'}, 'invalidate': {'body': b'is_valid:false\ninvalidate_handle:stored\n'},
                'ns': {'body': b'ns:http://specs.openid.net/auth/2.0\nis_valid:false\n'}, 'bad ns': {'body': b'ns:x\nis_valid:false\n'}, 'nul': {'body': b'is_valid:\0true\n'}, 'dup': {'body': b'ns.a:x\nns.b:x\nis_valid:false\n'}, 'refuse 1': {'status': 400, 'body': b'ns:http://specs.openid.net/auth/2.0\nerror:x\nerror_code:unsupported-type\n'},
                'error mode': {'body': b'mode:error\nerror:\n'}, 'timeout': fetchers.HTTPError('timeout')}[kind]
    return page


def id_page(kind):
    xrds = '<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>%s</Type>%s<URI>%s</URI></Service></XRD></x:XRDS>'
    x = {'Content-Type': 'application/xrds+xml'}
    both = xrds % (T2, '<Type>%s</Type>' % T11, SERVER)
    return {'xrds': {'headers': x, 'body': both.encode()}, 'html': {'body': ('<html><head><link rel="openid2.provider openid.server" href="%s"></head></html>' % SERVER).encode()}, 'garbage': {'headers': x, 'body': b'<\xff\x00'}, 'empty': {'headers': x, 'body': b''}, 'error': fetchers.HTTPFetchingError('down'), '404': {'status': 404, 'body': b''},
            'loop': {'headers': {'Content-Type': 'text/html', 'X-XRDS-Location': CLAIMED}, 'body': b'<html></html>'}, 'bad xrds': {'headers': x, 'body': b'<x:XRDS xmlns:x="xri://$xrds"/>'}, 'entity': {'headers': x, 'body': b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>'}, 'nouri': {'headers': x, 'body': (xrds % (T2, '', '')).encode()},
            'latin': {'headers': {'Content-Type': 'text/html; charset=latin-1'}, 'body': b'<html><head>\xe9<link rel="openid2.provider" href="\xe9"></head></html>'}}[kind]


def mode_of(args):
    return args.get('openid.mode')


def check(ctx, case):
    clock.set(NOW)
    args = build(case['query'])
    box = None if case['store'] == 'none' else Box(case['store'])
    try:
        run(ctx, case, args, box and box.store)
    finally:
        if box:
            box.close()


def run(ctx, case, args, store):
    if store is not None:
        store.storeAssociation(SERVER, Association('stored', KEY, NOW, 1000, 'HMAC-SHA1'))
        store.storeAssociation(SERVER, Association('expired', KEY, NOW - 2000, 1000, 'HMAC-SHA1'))
    session = {'app': 'data'}
    who = case['session']
    if who == 'same':
        who = '2' if case['query'].get('version', '2') == '2' else '1'
    endpoint = {'none': None, '2': service(T2), '1': service(T11), 'op': service(TS, claimed=None), 'delegated': service(T2, T11, local='http://op.example/~u')}[who]
    consumer = Consumer(session, store)
    if endpoint is not None:
        with Web({}):
            consumer.beginWithoutDiscovery(endpoint)
    pages = {SERVER: op_page(case['op']), CLAIMED: id_page(case['page']), CLAIMED + 'garbage': id_page('garbage'), CLAIMED + 'error': id_page('error'), CLAIMED + 'html': id_page('html'), CLAIMED + 'yadis': id_page('loop')}
    before = dict(args)
    version2 = args.get('openid.ns') == ref.OPENID2
    try:
        with Web(pages, budget=60):
            r = Consumer(session, store).complete(args, case['current'])
    except RuntimeError:
        expect(endpoint is None and args.get('openid.mode') == 'id_res' and not version2 and 'openid1_claimed_id' not in args, 'RuntimeError')
        ctx.label('RuntimeError')
        return
    expect_eq(args, before, 'the query')
    CLASSES = {'success': SuccessResponse, 'failure': FailureResponse, 'cancel': CancelResponse, 'setup_needed': SetupNeededResponse}
    expect(r.status in CLASSES and isinstance(r, CLASSES[r.status]), 'outcome %r', r)
    ctx.label(r.status)
    if r.status == 'failure' and mode_of(args) == 'id_res':
        first = (r.message or '').split()[:1]
        ctx.label('failure: ' + (first[0] if first and first[0].isalpha() else 'other'))
    expect_eq([k for k in session if k.endswith('last_token')], [], 'unfinished login')
    expect_eq(session.get('app'), 'data', 'data of the application')
    mode = args.get('openid.mode')
    if r.status != 'success':
        expect(r.endpoint is endpoint or (endpoint is not None and r.endpoint is not None and r.endpoint.server_url == endpoint.server_url and r.endpoint.claimed_id == endpoint.claimed_id), 'endpoint %r', r.endpoint)
        expect_eq((r.identity_url, r.getDisplayIdentifier()), (endpoint.claimed_id, endpoint.claimed_id) if endpoint is not None else (None, None), 'identifier')
    else:
        expect_eq(mode, 'id_res', 'mode of a success')
        expect(not (not version2 and 'openid.user_setup_url' in args), 'success although the user has to be asked')
        expect(r.endpoint is not None and r.identity_url == r.endpoint.claimed_id, 'endpoint of a success')
    if r.status == 'failure':
        expect(r.message is None or isinstance(r.message, str), 'message %r', r.message)
    ns = args.get('openid.ns', ref.OPENID10)
    sound = ns in (ref.OPENID2, ref.OPENID10, ref.OPENID11) and not any(k.startswith('openid.ns.') for k in args)
    if sound:
        if mode == 'cancel':
            expect_eq(r.status, 'cancel', 'outcome')
        elif mode == 'error':
            expect_eq((r.status, getattr(r, 'message', None), getattr(r, 'contact', None), getattr(r, 'reference', None)), ('failure', args.get('openid.error'), args.get('openid.contact'), args.get('openid.reference')), 'error')
        elif mode == 'setup_needed' and version2:
            expect_eq((r.status, getattr(r, 'setup_url', None)), ('setup_needed', args.get('openid.user_setup_url')), 'outcome')
        elif mode == 'id_res' and not version2 and 'openid.user_setup_url' in args:
            expect_eq((r.status, getattr(r, 'setup_url', None)), ('setup_needed', args['openid.user_setup_url']), 'outcome')
        else:
            expect(r.status == 'failure' or (mode == 'id_res' and r.status == 'success'), 'outcome %r for mode %r', r.status, mode)
    elif ns not in (ref.OPENID2, ref.OPENID10, ref.OPENID11):
        expect_eq(r.status, 'failure', 'outcome for a message of an unknown namespace')
    if mode == 'id_res':
        ctx.nt()
    # the next response finds no login
    with Web(pages, budget=60):
        try:
            r2 = Consumer(session, store).complete({'openid.mode': 'cancel'}, case['current'])
        except RuntimeError:
            r2 = None
    expect(r2 is not None and r2.status == 'cancel' and r2.endpoint is None, 'the login was not over')


FACETS = [Facet('complete', case, check, quick=30000, rule='the message has mode id_res')]
