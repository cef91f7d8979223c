"""Negotiation of association and session types."""
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box
from vf.web import OP, Web, form, query
from openid.association import SessionNegotiator, default_negotiator, encrypted_negotiator
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OPENID_1_1_TYPE, OPENID_2_0_TYPE, OpenIDServiceEndpoint
from openid.fetchers import HTTPFetchingError
from openid.server.server import Server

ASSUMPTIONS = ['at least one pair of types is allowed',
               'OpenID 1 providers may answer any association request without encryption, and then with either association type']
PAIRS = [('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'DH-SHA256')]
SERVER = 'http://op.example/endpoint'
allowed = st.lists(st.sampled_from(PAIRS), min_size=1, max_size=4, unique=True).map(lambda ps: [list(p) for p in ps])
suggestion = st.tuples(st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256', 'HMAC-SHA256', 'HMAC-MD5', '', None]),
                       st.sampled_from(['no-encryption', 'DH-SHA1', 'DH-SHA256', 'DH-SHA256', 'DH-MD5', '', None])).map(list)
reply = st.one_of(
    st.just(['ok']), st.just(['ok']),
    st.tuples(st.just('unsupported'), suggestion).map(list),
    st.tuples(st.just('unsupported'), st.sampled_from(PAIRS).map(list)).map(list),
    st.tuples(st.just('error'), st.sampled_from([None, 'unsupported', 'Unsupported-Type', '']), suggestion).map(list),
    st.tuples(st.just('mismatch'), st.sampled_from(['no-encryption', 'DH-SHA1', 'DH-SHA256', '', None])).map(list),
    st.tuples(st.just('assoc_type'), st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256', 'HMAC-MD5', '', None])).map(list),
    st.tuples(st.just('drop'), st.sampled_from(['assoc_handle', 'expires_in', 'key', 'session_type', 'dh_server_public', 'ns'])).map(list),
    st.tuples(st.just('set'), st.sampled_from(['expires_in', 'key', 'dh_server_public']), st.sampled_from(['', 'x', '!!!', '0x10', '1.5', 'QQ', 'AA==', '12 34'])).map(list),
    st.tuples(st.just('status'), st.sampled_from([404, 500, 302])).map(list),
    st.tuples(st.just('ok with'), st.sampled_from([206, 206, 201, 204, 207, 302, 404, 500, 503, 199, 600])).map(list),
    st.just(['raise']), st.just(['garbage']))
contact = st.fixed_dictionaries({'version': st.sampled_from([1, 2, 2, 2]), 'replies': st.lists(reply, min_size=1, max_size=3), 'key': gen.hexbytes(32, 32)})
rp_case = st.fixed_dictionaries({'allowed': allowed, 'contacts': st.one_of(st.lists(contact, min_size=1, max_size=1), st.lists(contact, min_size=2, max_size=3))})


def answer(case, args, rep, handle):
    """A provider's answer. Returns (page, expected association or None, suggestion or None)."""
    atype = args['openid.assoc_type']
    stype = args.get('openid.session_type') or 'no-encryption'
    v2 = case['version'] == 2
    if rep[0] == 'raise':
        return HTTPFetchingError('no route'), None, None
    if rep[0] == 'status':
        return {'status': rep[1], 'body': b'oops'}, None, None
    if rep[0] == 'garbage':
        return {'body': b'<html>\xff\xfe'}, None, None
    if rep[0] in ('unsupported', 'error'):
        d = {'error': 'not supported'}
        if v2:
            d['ns'] = ref.OPENID2
        code = 'unsupported-type' if rep[0] == 'unsupported' else rep[1]
        if code is not None:
            d['error_code'] = code
        pair = rep[-1]
        for k, v in zip(('assoc_type', 'session_type'), pair):
            if v is not None:
                d[k] = v
        usable = v2 and code == 'unsupported-type' and list(pair) in case['allowed']
        return {'status': 400, 'body': ref.kv(sorted(d.items()))}, None, tuple(pair) if usable else None
    # what is in the answer
    out_s = stype
    if rep[0] == 'mismatch':
        out_s = rep[1]
    out_a = rep[1] if rep[0] == 'assoc_type' else atype
    key = bytes.fromhex(case['key'])[:ref.SIZE.get(out_a, 20)]
    d = {'assoc_handle': handle, 'assoc_type': out_a, 'expires_in': '600'}
    if v2:
        d['ns'] = ref.OPENID2
    effective = out_s or ('no-encryption' if not v2 else out_s)
    if effective in ('DH-SHA1', 'DH-SHA256'):
        public = args.get('openid.dh_consumer_public')
        public = ref.unbtwoc(ref.unb64(public)) if public else 4
        x = 12345
        d['dh_server_public'] = ref.b64(ref.btwoc(pow(2, x, ref.DEFAULT_MODULUS)))
        shared = pow(public, x, ref.DEFAULT_MODULUS)
        size = 20 if effective == 'DH-SHA1' else 32
        d['enc_mac_key'] = ref.b64(ref.mac_key_xor(effective, shared, bytes.fromhex(case['key'])[:size]))
        key = bytes.fromhex(case['key'])[:size]
    else:
        d['mac_key'] = ref.b64(key)
    if out_s is not None and not (not v2 and out_s == 'no-encryption' and rep[0] != 'mismatch'):
        d['session_type'] = out_s
    ok = True
    if effective != stype and not (not v2 and effective == 'no-encryption'):
        ok = False
    fits = {'no-encryption': ('HMAC-SHA1', 'HMAC-SHA256'), 'DH-SHA1': ('HMAC-SHA1',), 'DH-SHA256': ('HMAC-SHA256',)}
    if out_a not in fits.get(effective, ()) or v2 and out_a != atype:
        ok = False
    if rep[0] == 'drop':
        name = rep[1]
        if name == 'key':
            d.pop('mac_key', None)
            d.pop('enc_mac_key', None)
            ok = False
        elif name in d:
            if name == 'ns':
                ok = None       # then it is an OpenID 1 answer to an OpenID 2 request: left open
            elif name == 'session_type':
                if v2 or stype != 'no-encryption':
                    ok = False   # missing, or no encryption without a key
            else:
                ok = False
            del d[name]
    if rep[0] == 'set':
        name = rep[1]
        if name == 'key':
            name = 'mac_key' if 'mac_key' in d else 'enc_mac_key'
        if name in d:
            d[name] = rep[2]
            if name == 'expires_in':
                ok = False
            elif name == 'mac_key':
                ok = None        # the size of the key is not judged
            elif name == 'enc_mac_key':
                ok = False
            else:
                ok = False if rep[2] in ('', 'x', 'QQ', 'AA==') else None
    for k in list(d):
        if d[k] is None:
            del d[k]
    if rep[0] == 'ok with':
        ok = ok and rep[1] == 206
        return {'status': rep[1], 'body': ref.kv(sorted(d.items()))}, ok and (handle, key, out_a), None
    return {'body': ref.kv(sorted(d.items()))}, (ok and (handle, key, out_a)) if ok is not None else 'open', None


def check_rp(ctx, case):
    clock.set(1500000000)
    allowed_pairs = [tuple(p) for p in case['allowed']]
    with Box('memory') as box:
        consumer = Consumer({}, box.store)
        consumer.setAssociationPreference(allowed_pairs)
        # what happens with one provider does not change what others are asked for
        for n, contact in enumerate(case['contacts']):
            check_contact(ctx, box.store, consumer, allowed_pairs, SERVER + str(n), dict(contact, allowed=case['allowed']))
    ctx.nt(any(c['replies'][0] != ['ok'] for c in case['contacts']))
    ctx.label('providers=%d' % len(case['contacts']))


def check_contact(ctx, store, consumer, allowed_pairs, server, case):
    sent, wanted = [], []

    def page(body, headers):
        args = form(body)
        pair = (args['openid.assoc_type'], args.get('openid.session_type') or 'no-encryption')
        sent.append(pair)
        rep = case['replies'][min(len(sent), len(case['replies'])) - 1]
        res, assoc, suggested = answer(case, args, rep, 'handle%d' % len(sent))
        wanted.append((assoc, suggested))
        if isinstance(res, Exception):
            raise res
        return res

    with Web({server: page}):
        endpoint = OpenIDServiceEndpoint()
        endpoint.claimed_id = 'http://user.example/'
        endpoint.server_url = server
        endpoint.type_uris = [OPENID_2_0_TYPE if case['version'] == 2 else OPENID_1_1_TYPE]
        request = consumer.beginWithoutDiscovery(endpoint)
        sent_handle = query(request.redirectURL('http://rp.example/', 'http://rp.example/back')).get('openid.assoc_handle')
        expect(len(sent) >= 1, 'no association request')
        expect_eq(sent[0], allowed_pairs[0], 'types asked for first')
        for p in sent:
            expect(p in allowed_pairs, 'the types %r are not allowed', p)
        expect(len(sent) <= 2, 'association requests: %r', sent)
        suggested = wanted[0][1]
        if suggested is None:
            expect_eq(len(sent), 1, 'association requests')
        else:
            expect_eq(sent[1:], [suggested], 'types asked for after the suggestion')
        final = wanted[-1][0]
        got = store.getAssociation(server)
        if final != 'open':
            if final:
                expect(got is not None, 'no association after %r', case['replies'])
                expect_eq((got.handle, got.secret, got.assoc_type), final, 'association')
            else:
                expect(got is None, 'association %r made of %r', got, case['replies'])
        expect_eq(sent_handle, got.handle if got is not None else None, 'handle in the authentication request')
    ctx.label('v%d' % case['version'], case['replies'][0][0], 'requests=%d' % len(sent), 'associated' if got else 'stateless')


# ---- provider
op_case = st.fixed_dictionaries({
    'allowed': allowed, 'version': st.sampled_from([1, 2, 2]),
    'assoc_type': st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256', 'HMAC-SHA1', 'HMAC-SHA256', 'HMAC-MD5', '', None]),
    'session_type': st.sampled_from(['no-encryption', 'DH-SHA1', 'DH-SHA256', 'no-encryption', 'DH-SHA1', 'DH-SHA256', 'DH-MD5', '', None]),
    'how': st.sampled_from(['set', 'add', 'replace'])})


class Recorder(object):
    """Delegates to a store, remembering what is written."""

    def __init__(self, store):
        self.store, self.stored = store, []

    def storeAssociation(self, url, assoc):
        self.stored.append((url, assoc.handle))
        self.store.storeAssociation(url, assoc)

    def __getattr__(self, name):
        return getattr(self.store, name)


def check_op(ctx, case):
    clock.set(1500000000)
    pairs = [tuple(p) for p in case['allowed']]
    with Box('memory') as box:
        store = Recorder(box.store)
        server = Server(store, SERVER)
        if case['how'] == 'set':
            server.negotiator.setAllowedTypes(pairs)
        elif case['how'] == 'add':
            server.negotiator.setAllowedTypes([])
            for p in pairs:
                server.negotiator.addAllowedType(*p)
        else:
            server.negotiator = SessionNegotiator(pairs)
        other = Server(store, SERVER).negotiator
        for p in PAIRS:
            expect(other.isAllowed(*p), 'the policy of one provider, %r, took %r from another', pairs, p)
        args = {'openid.mode': 'associate', 'openid.dh_consumer_public': ref.b64(ref.btwoc(pow(2, 777, ref.DEFAULT_MODULUS)))}
        if case['version'] == 2:
            args['openid.ns'] = ref.OPENID2
        atype, stype = case['assoc_type'], case['session_type']
        if atype is not None:
            args['openid.assoc_type'] = atype
        if stype is not None:
            args['openid.session_type'] = stype
        if case['version'] == 1:
            if atype is None:
                atype = 'HMAC-SHA1'
            stype = stype or 'no-encryption'
        known = (atype, stype) in PAIRS
        good = known and (atype, stype) in pairs
        code, body = OP(store, SERVER, server).respond(args)
        if good:
            expect_eq(code, 200, 'HTTP status of %r' % body)
            got = ref.parse_kv(body)
            expect_eq(got['assoc_type'], atype, 'association type')
            expect_eq(got.get('session_type') or 'no-encryption', stype, 'session type')
            expect_eq(len(store.stored), 1, 'associations stored')
            expect_eq(store.stored[0][1], got['assoc_handle'], 'stored association')
            ctx.label('associated')
        else:
            expect_eq(code, 400, 'HTTP status of %r' % body)
            got = ref.parse_kv(body)
            expect('error' in got, 'no error in %r', got)
            for k in ('mac_key', 'enc_mac_key', 'assoc_handle'):
                expect(k not in got, '%s in an error', k)
            expect_eq(store.stored, [], 'associations stored')
            if known and case['version'] == 2:
                expect_eq((got.get('error_code'), got.get('assoc_type'), got.get('session_type')), ('unsupported-type',) + pairs[0], 'suggestion')
            ctx.label('refused')
    ctx.nt(known)
    ctx.label('v%d' % case['version'])


# ---- both together: they agree on something whenever the policies leave something
both_case = st.fixed_dictionaries({'rp': allowed, 'op': allowed, 'version': st.sampled_from([1, 2, 2])})


def check_both(ctx, case):
    clock.set(1500000000)
    rp, op_pairs = [tuple(p) for p in case['rp']], [tuple(p) for p in case['op']]
    with Box('memory') as box, Box('memory') as opbox:
        server = Server(opbox.store, SERVER)
        server.negotiator = SessionNegotiator(op_pairs)
        op = OP(opbox.store, SERVER, server)
        with Web({SERVER: op.page}):
            endpoint = OpenIDServiceEndpoint()
            endpoint.claimed_id = 'http://user.example/'
            endpoint.server_url = SERVER
            endpoint.type_uris = [OPENID_2_0_TYPE if case['version'] == 2 else OPENID_1_1_TYPE]
            consumer = Consumer({}, box.store)
            consumer.setAssociationPreference(rp)
            consumer.beginWithoutDiscovery(endpoint)
        got = box.store.getAssociation(SERVER)
        if rp[0] in op_pairs:
            wanted = rp[0]
        elif case['version'] == 2 and op_pairs[0] in rp:
            wanted = op_pairs[0]
        else:
            wanted = None
        expect_eq(got is not None, wanted is not None, 'association between %r and %r' % (rp, op_pairs))
        if got is not None:
            expect_eq(got.assoc_type, wanted[0], 'association type')
            request = server.decodeRequest({'openid.ns': ref.OPENID2, 'openid.mode': 'checkid_setup', 'openid.identity': 'http://u/', 'openid.claimed_id': 'http://u/',
                                            'openid.return_to': 'http://rp.example/', 'openid.assoc_handle': got.handle})
            _, res = op.redirect_args(server.encodeResponse(request.answer(True)))
            expect_eq(res['openid.sig'], ref.message_sig(got.assoc_type, got.secret, res), 'signature with the shared key')
    ctx.nt(rp[0] not in op_pairs)
    ctx.label('agreed' if got else 'no agreement', 'v%d' % case['version'])


neg_case = st.fixed_dictionaries({'pairs': st.lists(suggestion.map(lambda p: [p[0] or '', p[1] or '']), max_size=4), 'ask': suggestion})


def check_negotiator(ctx, case):
    pairs = [tuple(p) for p in case['pairs']]
    good = all(p in PAIRS for p in pairs)
    if not good:
        expect_raises(ValueError, 'negotiator for %r' % pairs, SessionNegotiator, pairs)
        ctx.label('invalid')
        return
    neg = SessionNegotiator(pairs)
    copy = neg.copy()
    ask = tuple(case['ask'])
    expect_eq(bool(neg.isAllowed(*ask)), ask in pairs, 'isAllowed%r with %r' % (ask, pairs))
    expect_eq(neg.getAllowedType(), pairs[0] if pairs else (None, None), 'preferred types')
    for p in PAIRS:
        if p not in pairs:
            copy.addAllowedType(*p)
    expect(all(copy.isAllowed(*p) for p in PAIRS), 'types that were added are not allowed')
    for p in PAIRS:
        expect_eq(bool(neg.isAllowed(*p)), p in pairs, 'types allowed by the original of a changed copy')
    # a type for any session, and one that is none
    copy = neg.copy()
    if ask[0] in ('HMAC-SHA1', 'HMAC-SHA256'):
        copy.addAllowedType(ask[0])
        for p in PAIRS:
            expect_eq(bool(copy.isAllowed(*p)), p in pairs or p[0] == ask[0], 'types allowed after %r was added for any session' % ask[0])
    else:
        expect_raises(ValueError, 'addAllowedType(%r)' % ask[0], copy.addAllowedType, ask[0])
    if ask[1] is not None and ask not in PAIRS:
        expect_raises(ValueError, 'addAllowedType%r' % (ask,), copy.addAllowedType, *ask)
        expect(not copy.isAllowed(*ask), 'impossible types %r are allowed', ask)
    expect_eq(copy.getAllowedType(), pairs[0] if pairs else copy.getAllowedType(), 'preferred types after one was added')
    expect(not encrypted_negotiator.isAllowed(*ask) or (ask in PAIRS and ask[1] != 'no-encryption'), 'the negotiator for encrypted sessions allows %r', ask)
    expect(encrypted_negotiator.isAllowed(*ask) or not (ask in PAIRS and ask[1] != 'no-encryption'), 'the negotiator for encrypted sessions refuses %r', ask)
    expect_eq(bool(default_negotiator.isAllowed(*ask)), ask in PAIRS, 'default negotiator and %r' % (ask,))
    ctx.nt(bool(pairs))


FACETS = [
    Facet('rp', rp_case, check_rp, 2400, rule='the first answer is not a plain success'),
    Facet('op', op_case, check_op, 1600, rule='a known pair of types is asked for'),
    Facet('both', both_case, check_both, 1200, rule='the first choice of the relying party is not allowed by the provider'),
    Facet('negotiator', neg_case, check_negotiator, 2000, rule='valid pairs'),
]
