"""Association establishment against an independent implementation of the specification, and its codecs."""
import base64
import hashlib

from cryptography.hazmat.primitives import hashes

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import OP, Web, form, query
from openid import cryptutil, oidutil
from openid.consumer.consumer import Consumer, DiffieHellmanSHA1ConsumerSession, DiffieHellmanSHA256ConsumerSession
from openid.consumer.discover import OPENID_1_1_TYPE, OPENID_2_0_TYPE, OpenIDServiceEndpoint
from openid.dh import DiffieHellman
from openid.message import Message
from openid.server.server import Server

ASSUMPTIONS = ['MAC keys have the size of their association type', 'the Diffie-Hellman modulus is a prime of 512 bits or more']

PRIMES = [int(x, 16) for x in (
    'a5de1dfc534d33c573d5c58188eda7f05c1646852268f8dda9c2846c0eca175357eff434492f8ae7ebf0fad0cbb1dfb81db891d5ff4ef886f311e390668f8437',
    '1151a063eb6fe705afc99ed628a41c6ed2a49ff74644d94a140ef711a3dedd655497219b281bf6949a866fb20513fcfe14a6fbcde6145b79b962023be62db22f7',
    'cc70327ca4bd7bfd50d25e6fb2772a6014514882b9f898e33379328e6a5e985ace60bf0192c08bf2d0a1e8ba51ad73b7b072ede93d1fedeced5170fa3a0d6aeaf',
    '6564e262d979b87c8f31ca0f6537aaec631296a816fa5e0fe13382dee374233c2655641d19a18bcfb35378b320ce93b9732abaedcd67c9329ff9f96b41a7ac3c6f',
    'ecb9589127f0628fe0781f13d8aff9b653f438962aeba9f0947a272d46f340ff23b2c0fc49f8fd30d62dc01e069fdf6bb2188d54a74ea7d2aadcd9b9ddb7a904d3',
    '129199a382855ffbd86d8b925f29fc033e7fa12da6c0633e4fa7982f628c575e607641eee4101c5ebb38e6db02fcc5ece1662bc1685602048d9512f712e1c91e7eb',
    'f128b0738e063694a8ba069b8dd37972ce0e0456945c6258a86cb2d872cb90a44580ae84e0bd423ea1c3760806ed4b49972c9260d099b79c3cbabcd86f69e7e6eb97')]
PAIRS = [('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'DH-SHA256')]
DH_PAIRS = PAIRS[2:]
FORMS = ['any', 'any', 'zero byte', 'top bit', 'zero byte, top bit']
SERVER = 'http://op.example/endpoint'


def classify(shared, modulus):
    size = (modulus.bit_length() + 7) // 8
    out = []
    if shared.bit_length() <= 8 * (size - 1):
        out.append('zero byte')
    if shared and shared.bit_length() % 8 == 0:
        out.append('top bit')
    return ', '.join(out) or 'plain'


def exponent_for(public, modulus, start, form):
    """A private exponent, not below start, which gives a shared secret of the wanted form."""
    shared = pow(public, start, modulus)
    x = start
    for _ in range(4000):
        if form == 'any' or all(p in classify(shared, modulus).split(', ') for p in form.split(', ')):
            return x
        x += 1
        shared = shared * public % modulus
    return x


def prime(i):
    return ref.DEFAULT_MODULUS if i < 0 else PRIMES[i]


# ---- the library as relying party
rp_case = st.fixed_dictionaries({
    'pair': st.sampled_from(PAIRS + DH_PAIRS * 3).map(list), 'version': st.sampled_from([1, 2, 2]), 'store': st.sampled_from(KINDS),
    'form': st.sampled_from(FORMS), 'x': st.integers(2, 10 ** 6), 'key': gen.hexbytes(32, 32), 'handle': gen.handle,
    'expires': st.sampled_from([1, 60, 1209600]), 'plain': st.booleans(), 'session_field': st.sampled_from(['same', 'absent', 'empty']),
    'extra': st.booleans(), 'now': st.sampled_from([1500000000, 1500000000.7])})


def check_rp(ctx, case):
    assoc_type, session_type = case['pair']
    key = bytes.fromhex(case['key'])[:ref.SIZE[assoc_type]]
    seen = {}

    def page(body, headers):
        args = form(body)
        seen.update(args)
        seen['#'] = seen.get('#', 0) + 1
        expect_eq(args.get('openid.mode'), 'associate', 'mode')
        expect_eq(args.get('openid.assoc_type'), assoc_type, 'association type asked for')
        if case['version'] == 2:
            expect_eq(args.get('openid.ns'), ref.OPENID2, 'namespace')
            expect_eq(args.get('openid.session_type'), session_type, 'session type asked for')
        else:
            expect(args.get('openid.ns') in (None, ref.OPENID11, ref.OPENID10), 'namespace %r', args.get('openid.ns'))
            expect_eq(args.get('openid.session_type', '') or 'no-encryption', session_type, 'session type asked for')
        answer = {'assoc_handle': case['handle'], 'assoc_type': assoc_type, 'expires_in': str(case['expires'])}
        if case['version'] == 2:
            answer['ns'] = ref.OPENID2
        used = session_type
        if case['version'] == 1 and case['plain']:
            used = 'no-encryption'     # OpenID 1 providers may answer without encryption
        if used != 'no-encryption':
            public64 = args['openid.dh_consumer_public']
            raw = ref.unb64(public64)
            modulus, g = ref.DEFAULT_MODULUS, ref.DEFAULT_GEN
            if 'openid.dh_modulus' in args:
                modulus = ref.unbtwoc(ref.unb64(args['openid.dh_modulus']))
                g = ref.unbtwoc(ref.unb64(args['openid.dh_gen']))
            public = ref.unbtwoc(raw)
            expect_eq(raw, ref.btwoc(public), 'btwoc form of the public key')
            expect(1 < public < modulus - 1, 'public key out of range')
            x = exponent_for(public, modulus, case['x'], case['form'])
            shared = pow(public, x, modulus)
            seen['class'] = classify(shared, modulus)
            answer['dh_server_public'] = ref.b64(ref.btwoc(pow(g, x, modulus)))
            answer['enc_mac_key'] = ref.b64(ref.mac_key_xor(session_type, shared, key))
            answer['session_type'] = used
        else:
            answer['mac_key'] = ref.b64(key)
            if case['version'] == 2 or case['session_field'] == 'same':
                answer['session_type'] = 'no-encryption'
            elif case['session_field'] == 'empty':
                answer['session_type'] = ''
        if case['extra']:
            answer['x-other'] = 'ignored: yes'
        return {'body': ref.kv(sorted(answer.items()))}

    clock.set(case['now'])
    with Box(case['store']) as box, Web({SERVER: page}):
        endpoint = OpenIDServiceEndpoint()
        endpoint.claimed_id = 'http://user.example/'
        endpoint.server_url = SERVER
        endpoint.type_uris = [OPENID_2_0_TYPE if case['version'] == 2 else OPENID_1_1_TYPE]
        consumer = Consumer({}, box.store)
        consumer.setAssociationPreference([tuple(case['pair'])])
        request = consumer.beginWithoutDiscovery(endpoint)
        got = box.store.getAssociation(SERVER)
        expect(got is not None, 'no association was established: %r', seen)
        expect_eq((got.handle, got.secret, got.assoc_type, got.issued, got.lifetime),
                  (case['handle'], key, assoc_type, int(case['now']), case['expires']), 'association')
        url = request.redirectURL('http://rp.example/', 'http://rp.example/back')
        expect_eq(query(url).get('openid.assoc_handle'), case['handle'], 'handle in the request')
        # it is used again as long as it is valid
        consumer.beginWithoutDiscovery(endpoint)
        expect_eq(seen['#'], 1, 'association requests')
    ctx.nt(session_type != 'no-encryption' and 'class' in seen)
    ctx.label('%s %s v%d' % (assoc_type, session_type, case['version']), 'shared secret: %s' % seen.get('class', 'none'))


# ---- the library as provider
op_case = st.fixed_dictionaries({
    'pair': st.sampled_from(PAIRS + DH_PAIRS * 3).map(list), 'version': st.sampled_from([1, 2, 2]), 'store': st.sampled_from(KINDS),
    'x': st.integers(2, 10 ** 9), 'modulus': st.sampled_from([None, None, -1, 0, 1, 2, 3, 4, 5, 6]), 'gen': st.sampled_from([2, 3, 5]), 'rounds': st.integers(1, 4)})


def check_op(ctx, case):
    assoc_type, session_type = case['pair']
    clock.set(1500000000)
    with Box(case['store']) as box:
        server = Server(box.store, SERVER)
        op = OP(box.store, SERVER, server)
        handles = set()
        for i in range(case['rounds']):
            args = {'openid.mode': 'associate', 'openid.assoc_type': assoc_type}
            if case['version'] == 2:
                args['openid.ns'] = ref.OPENID2
                args['openid.session_type'] = session_type
            elif session_type != 'no-encryption':
                args['openid.session_type'] = session_type
            modulus, g = ref.DEFAULT_MODULUS, ref.DEFAULT_GEN
            x = case['x'] + i
            if session_type != 'no-encryption':
                if case['modulus'] is not None:
                    modulus, g = prime(case['modulus']), case['gen']
                    args['openid.dh_modulus'] = ref.b64(ref.btwoc(modulus))
                    args['openid.dh_gen'] = ref.b64(ref.btwoc(g))
                args['openid.dh_consumer_public'] = ref.b64(ref.btwoc(pow(g, x, modulus)))
            code, body = op.respond(args)
            expect_eq(code, 200, 'HTTP status of %r' % body)
            answer = ref.parse_kv(body)
            expect_eq(answer.get('assoc_type'), assoc_type, 'association type')
            expect_eq(answer.get('ns'), ref.OPENID2 if case['version'] == 2 else None, 'namespace')
            expect(answer.get('assoc_handle') and len(answer['assoc_handle']) <= 255 and all(33 <= ord(c) <= 126 for c in answer['assoc_handle']),
                   'handle %r', answer.get('assoc_handle'))
            expect(answer['assoc_handle'] not in handles, 'handle given out twice')
            handles.add(answer['assoc_handle'])
            expect(int(answer['expires_in']) > 0, 'expires_in %r', answer['expires_in'])
            if session_type == 'no-encryption':
                if case['version'] == 2:
                    expect_eq(answer.get('session_type'), 'no-encryption', 'session type')
                else:
                    expect(answer.get('session_type', '') == '', 'session type %r', answer.get('session_type'))
                key = ref.unb64(answer['mac_key'])
                expect('enc_mac_key' not in answer, 'unexpected encrypted key')
            else:
                expect_eq(answer.get('session_type'), session_type, 'session type')
                expect('mac_key' not in answer, 'the key is sent without encryption')
                raw = ref.unb64(answer['dh_server_public'])
                public = ref.unbtwoc(raw)
                expect_eq(raw, ref.btwoc(public), 'btwoc form of the public key')
                expect(1 < public < modulus - 1, 'public key out of range')
                shared = pow(public, x, modulus)
                key = ref.mac_key_xor(session_type, shared, ref.unb64(answer['enc_mac_key']))
                ctx.label('shared secret: %s' % classify(shared, modulus))
            expect_eq(len(key), ref.SIZE[assoc_type], 'size of the key')
            # the provider signs with the key that the relying party has got
            check = {'openid.mode': 'checkid_setup', 'openid.identity': 'http://user.example/', 'openid.return_to': 'http://rp.example/back',
                     'openid.assoc_handle': answer['assoc_handle']}
            if case['version'] == 2:
                check.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': 'http://user.example/'})
            request = server.decodeRequest(check)
            _, got = op.redirect_args(server.encodeResponse(request.answer(True, server_url=SERVER)))
            expect_eq(got['openid.assoc_handle'], answer['assoc_handle'], 'handle of the assertion')
            expect_eq(got['openid.sig'], ref.message_sig(assoc_type, key, got), 'signature made with the association')
    ctx.nt(session_type != 'no-encryption')
    ctx.label('%s %s v%d' % (assoc_type, session_type, case['version']), 'modulus=%s' % case['modulus'])


# ---- Diffie-Hellman by itself
dh_case = st.fixed_dictionaries({'modulus': st.sampled_from([None, -1, 0, 1, 2, 3, 4, 5, 6]), 'gen': st.sampled_from([2, 3, 5]), 'x': st.integers(2, 10 ** 9),
                                 'form': st.sampled_from(FORMS), 'sha': st.sampled_from(['DH-SHA1', 'DH-SHA256']), 'key': gen.hexbytes(32, 32),
                                 'bad': st.sampled_from([None, 'short', 'long'])})


def check_dh(ctx, case):
    if case['modulus'] is None:
        modulus, g = ref.DEFAULT_MODULUS, ref.DEFAULT_GEN
        dh = DiffieHellman.fromDefaults()
        expect(dh.usingDefaultValues(), 'the defaults are not recognized')
    else:
        modulus, g = prime(case['modulus']), case['gen']
        dh = DiffieHellman(ref.b64(ref.btwoc(modulus)), ref.b64(ref.btwoc(g)))
        expect_eq(dh.usingDefaultValues(), (modulus, g) == (ref.DEFAULT_MODULUS, ref.DEFAULT_GEN), 'taken for the defaults')
    expect_eq(dh.parameters, (ref.b64(ref.btwoc(modulus)), ref.b64(ref.btwoc(g))), 'parameters')
    public = ref.unbtwoc(ref.unb64(dh.public_key))
    x = exponent_for(public, modulus, case['x'], case['form'])
    shared = pow(public, x, modulus)
    other = ref.b64(ref.btwoc(pow(g, x, modulus)))
    size = 20 if case['sha'] == 'DH-SHA1' else 32
    key = bytes.fromhex(case['key'])[:size]
    algorithm = hashes.SHA1() if size == 20 else hashes.SHA256()
    if case['bad']:
        wrong = key[:-1] if case['bad'] == 'short' else key + b'x'
        expect_raises(ValueError, 'encrypting a key of the wrong size', dh.xor_secret, other, ref.b64(wrong), algorithm)
    wanted = ref.mac_key_xor(case['sha'], shared, key)
    expect_eq(dh.xor_secret(other, ref.b64(key), algorithm), ref.b64(wanted), 'encrypted key')
    expect_eq(dh.xor_secret(other, ref.b64(wanted), algorithm), ref.b64(key), 'decrypted key')
    func = {'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}[case['sha']]
    expect_eq(dh.xorSecret(pow(g, x, modulus), key, lambda s: func(s).digest()), wanted, 'encrypted key (deprecated method)')
    # a session of the relying party with these parameters
    session = {'DH-SHA1': DiffieHellmanSHA1ConsumerSession, 'DH-SHA256': DiffieHellmanSHA256ConsumerSession}[case['sha']](dh)
    sent = session.getRequest()
    expect_eq(sent.get('dh_consumer_public'), dh.public_key, 'public key sent')
    if (modulus, g) == (ref.DEFAULT_MODULUS, ref.DEFAULT_GEN):
        expect('dh_modulus' not in sent or (sent['dh_modulus'], sent['dh_gen']) == dh.parameters, 'parameters sent')
    else:
        expect_eq((sent.get('dh_modulus'), sent.get('dh_gen')), dh.parameters, 'parameters sent')
    msg = Message.fromOpenIDArgs({'ns': ref.OPENID2, 'dh_server_public': other, 'enc_mac_key': ref.b64(wanted)})
    expect_eq(session.extractSecret(msg), key, 'key extracted from the response')
    ctx.nt(classify(shared, modulus) != 'plain')
    ctx.label('shared secret: %s' % classify(shared, modulus), case['sha'])


# ---- codecs
number = st.one_of(st.integers(0, 70000), st.integers(0, 2 ** 1100), st.tuples(st.integers(0, 300), st.sampled_from([-1, 0, 1])).map(
    lambda t: max(0, 2 ** t[0] + t[1]))).map(str)
codec_case = st.fixed_dictionaries({'n': number, 'data': gen.hexbytes(0, 300), 'chars': st.sampled_from([None, 'A', 'AB', '@@', '=', 'AAAAA', 'ABC'])})


def check_codecs(ctx, case):
    n = int(case['n'])
    wanted = ref.btwoc(n)
    expect_eq(cryptutil.int_to_bytes(n), wanted, 'btwoc of %d' % n)
    expect_eq(cryptutil.longToBinary(n), wanted, 'btwoc of %d' % n)
    expect_eq(cryptutil.bytes_to_int(wanted), n, 'number of %r' % wanted)
    expect_eq(cryptutil.binaryToLong(wanted), n, 'number of %r' % wanted)
    expect_eq(cryptutil.longToBase64(n), ref.b64(wanted), 'base64 of %d' % n)
    expect_eq(cryptutil.base64ToLong(ref.b64(wanted)), n, 'number from base64')
    data = bytes.fromhex(case['data'])
    expect_eq(oidutil.toBase64(data), base64.b64encode(data).decode('ascii'), 'base64')
    expect_eq(oidutil.fromBase64(oidutil.toBase64(data)), data, 'base64 round trip')
    if data:
        expect_eq(cryptutil.bytes_to_int(data), int.from_bytes(data, 'big'), 'number of %r' % data)
        fixed = cryptutil.fix_btwoc(data)
        expect(fixed[0] < 128 and int.from_bytes(fixed, 'big') == int.from_bytes(data, 'big'), 'fix_btwoc(%r) is %r', data, fixed)
    if case['chars'] in ('A', 'AB', 'AAAAA', 'ABC'):
        expect_raises(ValueError, 'decoding %r' % case['chars'], oidutil.fromBase64, case['chars'])
    ctx.nt(n > 127)
    ctx.label('bits=%d' % (n.bit_length() % 8))


FACETS = [
    Facet('rp', rp_case, check_rp, 1600, rule='an encrypted session'),
    Facet('op', op_case, check_op, 640, rule='an encrypted session'),
    Facet('dh', dh_case, check_dh, 800, rule='the shared secret has a leading zero byte or its top bit set'),
    Facet('codecs', codec_case, check_codecs, 3000, rule='a number of more than 7 bits'),
]
