"""What a provider makes of requests: anything at all, and valid ones."""
from urllib.parse import parse_qsl, urlencode, urlsplit

from props.c21 import Form
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box
from openid.message import Message
from openid.server import server as srv
from openid.server.server import EncodingError, ProtocolError, Server
from openid.store.memstore import MemoryStore

ASSUMPTIONS = ['queries are text without surrogates', 'Diffie-Hellman moduli are small']
SERVER = 'http://op.example/endpoint'

KEYS = ['openid.mode', 'openid.ns', 'openid.identity', 'openid.claimed_id', 'openid.return_to', 'openid.realm', 'openid.trust_root', 'openid.assoc_handle',
        'openid.sig', 'openid.signed', 'openid.invalidate_handle', 'openid.assoc_type', 'openid.session_type', 'openid.dh_modulus', 'openid.dh_gen',
        'openid.dh_consumer_public', 'openid.ns.sreg', 'openid.ns.ax', 'openid.sreg.required', 'openid.ax.mode', 'openid.ns.', 'openid.ns.a.b', 'openid.ns.mode',
        'openid.', 'openid', 'foo', 'openid.ns.openid', 'openid..', 'openid.x.y', 'openid.ns.sreg2']
VALUES = ['', 'checkid_setup', 'checkid_immediate', 'check_authentication', 'associate', 'id_res', 'error', 'cancel', ref.OPENID2, ref.OPENID11, ref.OPENID10,
          'http://user.example/', 'http://rp.example/', 'http://rp.example/back?x=1', 'http://*.example/', 'http://*/', '*', 'http://', 'http:///', 'HMAC-SHA1', 'HMAC-SHA256', 'DH-SHA1',
          'DH-SHA256', 'no-encryption', 'AA==', 'Ag==', 'AQ==', '!!', 'AAAA', ref.b64(ref.btwoc(ref.DEFAULT_MODULUS)), ref.b64(ref.btwoc(12345678901234567)),
          'mode,identity', 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/srv/ax/1.0', 'http://[::1', 'http://rp.example:x/', 'http://rp.example:99999/',
          'http://rp.example/#frag', '//rp', 'javascript:alert(1)', ref.IDSELECT, 'http://rp.ex\xe4mple/', 'http://rp.example/\n', 'x' * 3000, 'http://rp.example/?' + 'x' * 3000,
          '\x00', 'handle', 'mode', '{HMAC-SHA1}{1}{x}', 'http://rp.example/\x00', '=', 'openid.ns']
any_query = st.dictionaries(st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS), gen.tricky_text.map(lambda s: 'openid.' + s), gen.tricky_text),
                            st.one_of(st.sampled_from(VALUES), st.sampled_from(VALUES), gen.tricky_text), max_size=8)
shaped = st.tuples(st.sampled_from(['checkid_setup', 'checkid_immediate', 'check_authentication', 'associate']), st.sampled_from([None, ref.OPENID2, ref.OPENID2, ref.OPENID11]), any_query).map(
    lambda t: dict(t[2], **dict([('openid.mode', t[0])] + ([('openid.ns', t[1])] if t[1] else []))))
DIRECT = ('check_authentication', 'associate')
CHECKID = {'openid.identity': 'http://user.example/', 'openid.claimed_id': 'http://user.example/', 'openid.return_to': 'http://rp.example/back?x=1', 'openid.realm': 'http://rp.example/', 'openid.trust_root': 'http://rp.example/'}
BASES = [dict(CHECKID, **{'openid.mode': 'checkid_setup'}), dict(CHECKID, **{'openid.mode': 'checkid_immediate', 'openid.assoc_handle': 'handle'}),
         {'openid.mode': 'associate', 'openid.assoc_type': 'HMAC-SHA1', 'openid.session_type': 'DH-SHA1', 'openid.dh_consumer_public': 'Ag=='},
         {'openid.mode': 'associate', 'openid.assoc_type': 'HMAC-SHA256', 'openid.session_type': 'no-encryption'},
         {'openid.mode': 'associate', 'openid.assoc_type': 'HMAC-SHA256', 'openid.session_type': 'DH-SHA256', 'openid.dh_consumer_public': 'Ag==', 'openid.dh_modulus': ref.b64(ref.btwoc(12345678901234567)),
          'openid.dh_gen': 'Ag=='},
         {'openid.mode': 'check_authentication', 'openid.assoc_handle': '{HMAC-SHA1}{1}{x}', 'openid.sig': 'AAAA', 'openid.signed': 'mode,identity', 'openid.identity': 'http://user.example/',
          'openid.return_to': 'http://rp.example/'},
         {'openid.mode': 'check_authentication', 'openid.assoc_handle': 'handle', 'openid.sig': 'AAAA', 'openid.signed': 'mode', 'openid.invalidate_handle': 'handle'}]


def mutated(base, ns, muts):
    q = dict(base)
    if ns:
        q['openid.ns'] = ns
    for how, key, own, value in muts:
        key = sorted(q)[own % len(q)] if q and how != 'set any' else key
        if how == 'drop':
            q.pop(key, None)
        else:
            q[key] = value
    return q


near = st.tuples(st.sampled_from(BASES), st.sampled_from([None, ref.OPENID2, ref.OPENID2, ref.OPENID11]),
                 st.lists(st.tuples(st.sampled_from(['drop', 'set', 'set any', 'set any']), st.sampled_from(KEYS), st.integers(0, 9), st.one_of(st.sampled_from(VALUES), gen.tricky_text)), max_size=3)).map(
    lambda t: mutated(*t))


def check_any(ctx, query):
    clock.set(1500000000)
    with Box('memory') as box:
        server = Server(box.store, SERVER)
        error = None
        before = dict(query)
        try:
            request = server.decodeRequest(query)
        except ProtocolError as e:
            error = e
        expect_eq(query, before, 'query after decoding')
        if error is None:
            if not query:
                expect(request is None, 'request %r made of an empty query', request)
                return
            mode = query.get('openid.mode')
            expect(request is not None and request.mode == mode, 'decoded as %r', request)
            ctx.label('decoded ' + request.mode)
            ctx.nt()
            expect_eq(request.namespace, query.get('openid.ns', ref.OPENID10), 'namespace')
            if mode == 'associate':
                expect_eq(request.assoc_type, query.get('openid.assoc_type', 'HMAC-SHA1'), 'association type')
                expect_eq(request.session.session_type, query.get('openid.session_type', 'no-encryption') or 'no-encryption', 'session type')
            elif mode == 'check_authentication':
                expect_eq(request.assoc_handle, query.get('openid.assoc_handle'), 'handle')
                expect_eq(request.invalidate_handle, query.get('openid.invalidate_handle'), 'handle to be invalidated')
                expect_eq(request.signed.toPostArgs(), dict(query, **{'openid.mode': 'id_res'}), 'assertion to be verified')
            if mode in DIRECT:
                try:
                    response = server.handleRequest(request)
                except ProtocolError as e:
                    error = e
                else:
                    try:
                        web = server.encodeResponse(response)
                    except EncodingError:
                        # something in it can not be put in key-value form
                        expect(any('\n' in v for v in query.values()), 'response to %r can not be encoded', query)
                        return
                    got = ref.parse_kv(web.body)
                    expect(web.code == (400 if 'error' in got else 200), 'HTTP status %r of %r', web.code, got)
                    if query.get('openid.ns') == ref.OPENID2:
                        expect_eq(got.get('ns'), ref.OPENID2, 'namespace of the response')
                    if mode == 'check_authentication':
                        expect_eq(got.get('is_valid'), 'false', 'verdict on a forged assertion')
            else:
                expect_eq(request.return_to, query.get('openid.return_to'), 'return_to')
                expect_eq(request.identity, query.get('openid.identity'), 'identity')
                expect(isinstance(request.trustRootValid(), bool), 'trustRootValid')
                for allow in (False, True):
                    try:
                        answer = request.answer(allow, identity='http://user.example/' if request.idSelect() else None)
                    except srv.NoReturnToError:
                        expect(not request.return_to, 'no return_to?')
                        continue
                    except ValueError:
                        # there is nobody to vouch for
                        expect(allow and not request.identity and query.get('openid.ns') != ref.OPENID2, 'answering %r', query)
                        continue
                    try:
                        web = server.encodeResponse(answer)
                    except EncodingError:
                        expect(any('\n' in v for v in query.values()), 'answer to %r can not be encoded', query)
                        continue
                    except ValueError as e:
                        # HTML forms can not carry control characters
                        expect('XML' in str(e), 'unexpected %r', e)
                        continue
                    expect(web.code in (302, 200), 'HTTP status %r', web.code)
        if error is not None:
            ctx.label('error')
            ctx.nt('openid.mode' in query)
            check_error(server, error, query)


def check_error(server, error, query):
    try:
        web = server.encodeResponse(error)
    except EncodingError:
        rt = query.get('openid.return_to')
        mode = query.get('openid.mode')
        newline = any('\n' in k + v for k, v in query.items())
        # only valid URLs are answered (OpenID 2.0, 5.2.3)
        gone = rt is None or not rt.lower().startswith(('http://', 'https://'))
        expect(newline or (gone and (not mode or mode in ('checkid_setup', 'checkid_immediate'))), 'error for %r can not be encoded', query)
        return
    except ValueError as e:
        expect('XML' in str(e), 'unexpected %r', e)
        return
    rt = query.get('openid.return_to')
    if web.code == 302:
        expect(rt is not None and rt.lower().startswith(('http://', 'https://')), 'redirect for the return_to %r', rt)
        url = web.headers['location']
        try:
            got = parse_qsl(urlsplit(url).query, keep_blank_values=True)
        except ValueError:
            return
        had = []
        try:
            had = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
        except ValueError:
            pass
        new = dict(got[len(had):])
        if '\n' not in rt and '\t' not in rt and '\r' not in rt and 'openid.mode' not in rt:
            expect_eq(new.get('openid.mode'), 'error', 'mode in %r' % url)
            expect('openid.error' in new, 'no error text in %r', url)
    elif web.code == 400:
        got = ref.parse_kv(web.body)
        expect(got.get('error'), 'no error text in %r', web.body)
        expect_eq(got.get('mode'), 'error', 'mode')
    else:
        expect(web.code == 200 and 'openid.error' in web.body, 'error sent as %r', web.code)


# ---- valid checkid requests and those with a single fault
REALMS = [('http://rp.example/', 'http://rp.example/back', True), ('http://rp.example/', 'http://rp.example/', True),
          ('http://rp.example/a/', 'http://rp.example/a/b?c=d', True), ('http://*.example/', 'http://rp.example/x', True),
          ('http://rp.example:8080/', 'http://rp.example:8080/', True), ('http://rp.example', 'http://rp.example/z?openid=1', True),
          ('https://rp.example/', 'http://rp.example/', False), ('http://rp.example/a/', 'http://rp.example/b', False),
          ('http://rp.example/', 'http://other.example/', False), ('http://rp.example/', 'http://rp.example.evil/', False),
          ('http://*.rp.example/', 'http://xrp.example/', False), ('http://rp.example/', 'http://rp.example:81/', False),
          ('http://rp.example/a', 'http://rp.example/ab', False), ('http://rp.example/?x=1', 'http://rp.example/?x=1&y=2', True)]
valid_case = st.fixed_dictionaries({
    'version': st.sampled_from(['2', '2', '1.1', '1']), 'immediate': st.booleans(), 'realm': st.integers(0, len(REALMS) - 1), 'send_realm': st.booleans(),
    'identity': st.one_of(st.sampled_from(['http://user.example/', ref.IDSELECT, '=user', 'http://user.example/\xe9']), gen.ident),
    'claimed': st.one_of(st.none(), st.sampled_from(['http://claimed.example/', 'http://claimed.example/#frag'])),
    'handle': st.one_of(st.none(), gen.handle), 'sreg': st.booleans(), 'other': st.booleans(),
    'fault': st.sampled_from([None, None, None, 'no return_to', 'no identity', 'no claimed_id', 'bad return_to', 'bad realm', 'no mode', 'bad mode', 'bad ns', 'bad alias',
                              'wildcard return_to'])})


def check_valid(ctx, case):
    realm, return_to, matches = REALMS[case['realm']]
    v1 = case['version'] != '2'
    q = {'openid.mode': 'checkid_immediate' if case['immediate'] else 'checkid_setup', 'openid.return_to': return_to, 'openid.identity': case['identity']}
    if not v1:
        q['openid.ns'] = ref.OPENID2
        q['openid.claimed_id'] = case['claimed'] or case['identity']
    elif case['version'] == '1.1':
        q['openid.ns'] = ref.OPENID11
    rkey = 'openid.trust_root' if v1 else 'openid.realm'
    if case['send_realm']:
        q[rkey] = realm
    if case['handle']:
        q['openid.assoc_handle'] = case['handle']
    if case['sreg']:
        q['openid.ns.sreg'] = 'http://openid.net/extensions/sreg/1.1'
        q['openid.sreg.required'] = 'nickname'
    if case['other']:
        q['foo'] = 'bar'
    ok = matches or not case['send_realm']
    kind = ProtocolError if ok else srv.UntrustedReturnURL
    fault = case['fault']
    if fault == 'no return_to':
        del q['openid.return_to']
        ok = not v1 and case['send_realm']
        kind = ProtocolError
        if ok:
            return_to = None
    elif fault == 'no identity':
        del q['openid.identity']
        ok, kind = False, ProtocolError
    elif fault == 'no claimed_id' and not v1:
        del q['openid.claimed_id']
        ok, kind = False, ProtocolError
    elif fault == 'bad return_to':
        q['openid.return_to'] = 'rp.example/back'
        ok, kind = False, srv.MalformedReturnURL
    elif fault == 'bad realm':
        q[rkey] = 'rp.example'
        ok, kind = False, srv.MalformedTrustRoot
    elif fault == 'no mode':
        del q['openid.mode']
        ok, kind = False, ProtocolError
    elif fault == 'bad mode':
        q['openid.mode'] = 'checkid'
        ok, kind = False, ProtocolError
    elif fault == 'bad ns':
        q['openid.ns'] = 'http://specs.openid.net/auth/3.0'
        ok, kind = False, ProtocolError
    elif fault == 'bad alias':
        q['openid.ns.mode'] = 'http://example.com/'
        ok, kind = False, ProtocolError
    with Box('memory') as box:
        server = Server(box.store, SERVER)
        try:
            request = server.decodeRequest(dict(q))
        except ProtocolError as e:
            expect(not ok, 'valid request %r refused: %s', q, e)
            expect(isinstance(e, kind), 'wrong error %r for %r', e, q)
            ctx.label('refused', 'fault: %s' % fault)
            ctx.nt()
            if fault == 'bad return_to':
                expect_raises(EncodingError, 'an error with nowhere to go', server.encodeResponse, e)
            elif fault != 'no mode' and 'openid.return_to' in q:
                web = server.encodeResponse(e)
                expect_eq(web.code, 302, 'HTTP status of the error')
                expect(web.headers['location'].startswith(q['openid.return_to']), 'error redirected to %r', web.headers['location'])
            return
        expect(ok, 'invalid request %r accepted', q)
        expect_eq(request.mode, q['openid.mode'], 'mode')
        expect_eq(request.immediate, case['immediate'], 'immediate')
        expect_eq(request.identity, case['identity'], 'identity')
        expect_eq(request.claimed_id, q.get('openid.claimed_id'), 'claimed_id')
        expect_eq(request.return_to, return_to, 'return_to')
        expect_eq(request.trust_root, q.get(rkey) or return_to, 'trust root')
        expect_eq(request.assoc_handle, case['handle'], 'assoc_handle')
        expect_eq(request.idSelect(), case['identity'] == ref.IDSELECT, 'idSelect')
        expect_eq(request.namespace, q.get('openid.ns', ref.OPENID10), 'namespace')
        expect_eq(request.message.toPostArgs(), q, 'message of the request')
        expect_eq(request.trustRootValid(), True, 'trustRootValid')
        ctx.nt(case['send_realm'])
        ctx.label('accepted', 'v' + case['version'])


# ---- how errors are sent
TEXTS = ['No such thing', 'x', 'a: b', '"quoted" <b>&amp;</b>', 'caf\xe9 \u4e2d', 'error=1&openid.mode=id_res', '', '%41+ ']
error_case = st.fixed_dictionaries({
    'version': st.sampled_from(['2', '2', '2', '1.1', '1', '1 explicit']), 'mode': st.sampled_from(['checkid_setup', 'checkid_immediate', 'associate', 'check_authentication', 'nonsense', None, '']),
    'return_to': st.sampled_from([None, None, 'http://rp.example/back', 'http://rp.example/?a=b&a=c', 'http://rp.example/?q=', 'http://rp.example/?q=', 'http://rp.example/?q=']),
    'length': st.one_of(st.just(0), st.integers(2030, 2060), st.integers(2047, 2049), st.just(4000)), 'text': st.sampled_from(TEXTS),
    'contact': st.sampled_from([None, None, 'admin@op.example', '\xe9']), 'reference': st.sampled_from([None, None, 'ticket 1&2', 'r'])})


def check_encoding(ctx, case):
    v1 = case['version'][0] == '1'
    ns = {'2': ref.OPENID2, '1.1': ref.OPENID11, '1': None, '1 explicit': ref.OPENID10}[case['version']]
    q = {'openid.identity': 'http://user.example/'}
    if ns:
        q['openid.ns'] = ns
    if case['mode'] is not None:
        q['openid.mode'] = case['mode']
    wanted = {'openid.mode': 'error', 'openid.error': case['text']}
    for name in ('contact', 'reference'):
        if case[name] is not None:
            wanted['openid.' + name] = case[name]
    if not v1:
        wanted['openid.ns'] = ns
    rt = case['return_to']
    if rt is not None:
        if rt.endswith('=') and case['length']:
            extra = dict(wanted)
            if case['version'] == '1.1':
                extra['openid.ns'] = ns
            rt += 'x' * max(0, case['length'] - len(rt) - 1 - len(urlencode(extra)))
        q['openid.return_to'] = rt
    error = ProtocolError(Message.fromPostArgs(q), case['text'], reference=case['reference'], contact=case['contact'])
    server = Server(MemoryStore(), SERVER)
    browser = case['mode'] in ('checkid_setup', 'checkid_immediate')
    if rt is None and (browser or not case['mode']):
        expect_eq(error.whichEncoding(), None, 'encoding of an error that is for the user')
        expect_raises(EncodingError, 'encoding an error that is for the user', server.encodeResponse, error)
        ctx.label('for the user')
        ctx.nt()
        return
    web = server.encodeResponse(error)
    if rt is None:
        expect_eq(web.code, 400, 'HTTP status')
        got = ref.parse_kv(web.body)
        if v1:
            got.pop('ns', None)
        expect_eq(got, {k[7:]: v for k, v in wanted.items()}, 'error document')
        ctx.label('key-value form')
        ctx.nt()
        return
    had = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    if web.code == 302:
        url = web.headers['location']
        expect(v1 or len(url) <= 2047, 'redirect to a URL of %d characters', len(url))
        expect(url.startswith(rt), 'redirected to %r', url)
        pairs = parse_qsl(urlsplit(url).query, keep_blank_values=True)
        expect_eq(pairs[:len(had)], had, 'arguments of the return URL')
        pairs = pairs[len(had):]
        ctx.label('redirect')
    else:
        expect(web.code == 200 and not v1, 'HTTP status %r', web.code)
        form = Form()
        form.feed(web.body)
        expect_eq(form.attrs.get('action'), rt, 'action of the form')
        expect_eq(form.attrs.get('method', '').lower(), 'post', 'method of the form')
        pairs = form.fields
        length = len(rt) + 1 + len(urlencode(pairs))
        expect(length > 2047, 'form although the URL would have %d characters', length)
        ctx.label('form')
    got = dict(pairs)
    expect_eq(len(got), len(pairs), 'distinct arguments')
    if v1:
        got.pop('openid.ns', None)
    expect_eq(got, wanted, 'error message')
    if case['length'] in (2047, 2048, 2049):
        ctx.label('%d characters' % case['length'])
    ctx.nt()


FACETS = [
    Facet('errors', error_case, check_encoding, 2400, rule='every case'),
    Facet('anything', st.sampled_from(['any', 'shaped', 'near', 'near']).flatmap(lambda k: {'any': any_query, 'shaped': shaped, 'near': near}[k]), check_any, 8000, rule='decoded, or has a mode'),
    Facet('checkid', valid_case, check_valid, 3000, rule='refused, or has an explicit realm'),
]
