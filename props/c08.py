"""Signatures and serialization of associations."""
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from openid.association import Association
from openid.kvform import KVFormError
from openid.message import Message

ASSUMPTIONS = ['field names have no comma', 'text without surrogates', 'a signed field that is missing counts as empty']

TYPES = ['HMAC-SHA1', 'HMAC-SHA256']
value = gen.nonl(st.one_of(gen.tricky_text, gen.ident, st.sampled_from(['', ' x ', 'http://rp.example/?a=b&c=d', 'a:b', 'é', '2005-05-15T17:11:51ZUNIQUE'])))
OP = ['mode', 'identity', 'claimed_id', 'return_to', 'response_nonce', 'op_endpoint', 'realm', 'x', 'user_setup_url', 'error', 'Mode', 'invalidate_handle']
EXT = ['nickname', 'type.e', 'value.e', 'mode', 'a.b.c', 'é', 'x y', '_', 'count.e', '0']
body = st.fixed_dictionaries({
    'ns': st.sampled_from([ref.OPENID2, ref.OPENID2, ref.OPENID11, ref.OPENID10, None]),
    'op': st.dictionaries(st.sampled_from(OP), value, max_size=6),
    'ext': st.dictionaries(st.sampled_from(EXT), value, max_size=4),
    'bare': st.dictionaries(st.sampled_from(['foo', 'nonce', 'openid', 'openidx.y']), value, max_size=2),
    'handle': st.one_of(st.just('h'), gen.nonl(gen.tricky_text)), 'preset': st.booleans(),
    'type': st.sampled_from(TYPES), 'secret': gen.hexbytes(0, 40),
})


def build(case):
    args = dict(('openid.' + k, v) for k, v in case['op'].items())
    args.update(case['bare'])
    if case['ns']:
        args['openid.ns'] = case['ns']
    if case['ext']:
        args['openid.ns.ext'] = 'http://example.com/ext'
        args.update(('openid.ext.' + k, v) for k, v in case['ext'].items())
    if case['preset']:
        args['openid.assoc_handle'] = case['handle']
    return args


def assoc_of(case):
    return Association(case['handle'], bytes.fromhex(case['secret']), 1000, 1000, case['type'])


def check_sign(ctx, case):
    args = build(case)
    assoc = assoc_of(case)
    msg = Message.fromPostArgs(dict(args))
    signed = assoc.signMessage(msg)
    expect_eq(msg.toPostArgs(), args, 'the message given to be signed')
    got = signed.toPostArgs()
    fields = got['openid.signed'].split(',')
    expect_eq(len(fields), len(set(fields)), 'distinct signed fields')
    wanted = set(k[7:] for k in args if k.startswith('openid.')) | set(['signed', 'assoc_handle'])
    expect_eq(set(fields), wanted, 'signed fields')
    expect_eq(got.get('openid.assoc_handle'), case['handle'], 'handle in the message')
    expect_eq(set(got), set(args) | set(['openid.assoc_handle', 'openid.signed', 'openid.sig']), 'arguments of the signed message')
    for k, v in args.items():
        expect_eq(got[k], v, 'argument ' + k)
    expect_eq(got['openid.sig'], ref.message_sig(case['type'], assoc.secret, got), 'signature')
    expect(assoc.checkMessageSignature(signed), 'the signature that was made is refused')
    expect(assoc.checkMessageSignature(Message.fromPostArgs(got)), 'the signature is refused after transport')
    expect_raises(ValueError, 'signing twice', assoc.signMessage, signed)
    for k in ('sig', 'signed'):
        half = dict(got)
        del half['openid.' + k]
        expect_raises(ValueError, 'signing a message with part of a signature', assoc.signMessage, Message.fromPostArgs(half))
    other = Association(case['handle'] + 'x', assoc.secret, 1000, 1000, case['type'])
    if case['handle'] or not case['preset']:
        expect_raises(ValueError, 'signing with another association', other.signMessage,
                      Message.fromPostArgs(dict(args, **{'openid.assoc_handle': case['handle'] or 'y'})))
    ctx.nt(len(args) >= 3)
    ctx.label(case['type'], 'ext' if case['ext'] else 'no ext', 'ns=%s' % case['ns'])


change = st.one_of(
    st.tuples(st.just('value'), st.integers(0, 20), value),
    st.tuples(st.just('append'), st.integers(0, 20), st.sampled_from(['x', ' ', '\xe9', '0', '\t'])),
    st.tuples(st.just('swapcase'), st.integers(0, 20)),
    st.tuples(st.just('swap'), st.integers(0, 20), st.integers(0, 20)),
    st.tuples(st.just('drop'), st.integers(0, 20)),
    st.tuples(st.just('add'), st.sampled_from(['openid.new', 'openid.ext.new', 'new', 'openid.mode', 'openid.sreg.email']), value),
    st.tuples(st.just('unsign'), st.integers(0, 20)),
    st.tuples(st.just('signalso'), st.sampled_from(['new', 'mode', '', 'nickname', 'sig'])),
    st.tuples(st.just('reorder'), st.integers(0, 20)),
    st.tuples(st.just('sigchar'), st.integers(0, 40), st.sampled_from('ABab01+/=\xe9 ')),
    st.tuples(st.just('sigcut'), st.integers(0, 44)),
    st.tuples(st.just('sigset'), st.sampled_from(['', 'AAAAAAAAAAAAAAAAAAAAAAAAAAA=', '\xe9', '='])),
    st.tuples(st.just('secret'), st.integers(0, 400)),
    st.tuples(st.just('type')),
    st.tuples(st.just('strip'), st.sampled_from(['openid.sig', 'openid.signed'])),
    st.tuples(st.just('resign')),
).map(list)
tamper_case = st.fixed_dictionaries({'body': body, 'changes': st.lists(change, min_size=1, max_size=2)})


def check_tamper(ctx, case):
    b = case['body']
    assoc = assoc_of(b)
    args = assoc.signMessage(Message.fromPostArgs(build(b))).toPostArgs()
    secret, atype = assoc.secret, assoc.assoc_type
    for c in case['changes']:
        keys = sorted(k for k in args if k not in ('openid.sig', 'openid.signed', 'openid.ns', 'openid.ns.ext'))
        pick = lambda i: keys[i % len(keys)]  # noqa: E731
        signed = args.get('openid.signed', '').split(',')
        sig = args.get('openid.sig', '')
        if c[0] == 'value' and keys:
            args[pick(c[1])] = c[2]
        elif c[0] == 'append' and keys:
            args[pick(c[1])] += c[2]
        elif c[0] == 'swapcase' and keys:
            args[pick(c[1])] = args[pick(c[1])].swapcase()
        elif c[0] == 'swap' and keys:
            a, z = pick(c[1]), pick(c[2])
            args[a], args[z] = args[z], args[a]
        elif c[0] == 'drop' and keys:
            del args[pick(c[1])]
        elif c[0] == 'add':
            args[c[1]] = c[2]
        elif c[0] == 'unsign':
            signed.pop(c[1] % len(signed))
            args['openid.signed'] = ','.join(signed)
        elif c[0] == 'signalso':
            args['openid.signed'] = ','.join(signed + [c[1]])
        elif c[0] == 'reorder':
            i = c[1] % len(signed)
            args['openid.signed'] = ','.join(signed[i:] + signed[:i])
        elif c[0] == 'sigchar' and sig:
            i = c[1] % len(sig)
            args['openid.sig'] = sig[:i] + c[2] + sig[i + 1:]
        elif c[0] == 'sigcut':
            args['openid.sig'] = sig[:c[1]]
        elif c[0] == 'sigset':
            args['openid.sig'] = c[1]
        elif c[0] == 'secret' and secret:
            i = c[1] % (8 * len(secret))
            secret = bytes(x ^ ((1 << (i % 8)) if j == i // 8 else 0) for j, x in enumerate(secret))
        elif c[0] == 'type':
            atype = TYPES[1 - TYPES.index(atype)]
        elif c[0] == 'strip':
            args.pop(c[1], None)
        elif c[0] == 'resign' and args.get('openid.signed'):
            args['openid.sig'] = ref.message_sig(atype, secret, args)
        ctx.label(c[0])
    msg = Message.fromPostArgs(dict(args))
    verifier = Association(b['handle'], secret, 1000, 1000, atype)
    if not args.get('openid.sig') or not args.get('openid.signed'):
        expect_raises(ValueError, 'checking a message without signature', verifier.checkMessageSignature, msg)
        return
    right = ref.message_sig(atype, secret, args)
    wanted = args['openid.sig'] == right
    expect_eq(bool(verifier.checkMessageSignature(msg)), wanted, 'verdict on signature %r of %r (right one: %r)' % (args['openid.sig'], args, right))
    expect_eq(verifier.getMessageSignature(msg), right, 'computed signature')
    ctx.nt(True)
    ctx.label('valid' if wanted else 'invalid')


pairs_case = st.fixed_dictionaries({'type': st.sampled_from(TYPES), 'secret': gen.hexbytes(0, 80),
                                    'pairs': st.lists(st.tuples(st.one_of(gen.tricky_text, gen.ident), st.one_of(gen.tricky_text, gen.ident)).map(list), max_size=5)})


def check_pairs(ctx, case):
    pairs = [tuple(p) for p in case['pairs']]
    assoc = Association('h', bytes.fromhex(case['secret']), 0, 1, case['type'])
    if any('\n' in k + v or ':' in k for k, v in pairs):
        expect_raises(KVFormError, 'signing pairs that key-value form can not represent', assoc.sign, pairs)
        ctx.label('refused')
        return
    expect_eq(assoc.sign(pairs), ref.sign(case['type'], assoc.secret, pairs), 'signature of %r' % (pairs,))
    ctx.nt(bool(pairs))


ser_case = st.fixed_dictionaries({
    'handle': st.one_of(gen.handle, gen.nonl(gen.tricky_text).map(lambda s: s.strip())), 'secret': gen.hexbytes(0, 40),
    'issued': st.one_of(st.integers(0, 2 ** 33), st.sampled_from([0, 1])), 'lifetime': st.one_of(st.integers(0, 2 ** 33), st.sampled_from([0, 1, 1209600])),
    'type': st.sampled_from(TYPES), 'now': st.one_of(st.sampled_from([-1, 0, 1]).map(lambda d: ['end', d]), st.integers(0, 2 ** 34).map(lambda t: ['abs', t])),
    'fraction': st.sampled_from([0, 0.25, 0.99]),
    'corrupt': st.one_of(st.none(), st.tuples(st.just('cut'), st.integers(0, 200)).map(list), st.tuples(st.just('dup'), st.integers(0, 5)).map(list),
                         st.tuples(st.just('type'), st.sampled_from(['HMAC-MD5', '', 'hmac-sha1'])).map(list),
                         st.tuples(st.just('version'), st.sampled_from(['1', '', '3'])).map(list), st.tuples(st.just('drop'), st.integers(0, 5)).map(list),
                         st.tuples(st.just('swap'), st.integers(0, 4)).map(list), st.just(['junk']))})


def check_serialize(ctx, case):
    a = Association(case['handle'], bytes.fromhex(case['secret']), case['issued'], case['lifetime'], case['type'])
    text = a.serialize()
    b = Association.deserialize(text)
    expect(a == b and not (a != b), 'deserialized association differs: %r', vars(b))
    expect_eq((b.handle, b.secret, b.issued, b.lifetime, b.assoc_type), (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type), 'deserialized association')
    end = case['issued'] + case['lifetime']
    now = max(0, end + case['now'][1]) if case['now'][0] == 'end' else case['now'][1]
    clock.set(now + case['fraction'])
    for x in (a, b):
        expect_eq(x.getExpiresIn(), max(0, end - now), 'seconds left')
        expect_eq(x.expiresIn, max(0, end - now), 'seconds left')
        expect_eq(x.getExpiresIn(now=now), max(0, end - now), 'seconds left')
    c = Association.fromExpiresIn(case['lifetime'], case['handle'], a.secret, case['type'])
    expect_eq((c.issued, c.lifetime, c.getExpiresIn()), (now, case['lifetime'], case['lifetime']), 'association made from expires_in')
    ctx.nt(case['now'][0] == 'end')
    lines = text.split('\n')[:-1]
    cor = case['corrupt']
    if cor:
        ctx.label('corrupt ' + cor[0])
        if cor[0] == 'cut':
            bad = text[:min(cor[1], len(text) - 1)]
        elif cor[0] == 'dup':
            bad = '\n'.join(lines + [lines[cor[1]]]) + '\n'
        elif cor[0] == 'type':
            bad = '\n'.join(lines[:-1] + ['assoc_type:' + cor[1]]) + '\n'
        elif cor[0] == 'version':
            bad = '\n'.join(['version:' + cor[1]] + lines[1:]) + '\n'
        elif cor[0] == 'drop':
            bad = '\n'.join(lines[:cor[1]] + lines[cor[1] + 1:]) + '\n'
        elif cor[0] == 'swap':
            i = cor[1]
            bad = '\n'.join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]) + '\n'
        else:
            bad = text + 'junk\n'
        if bad != text:
            expect_raises(ValueError, 'deserializing %r' % bad, Association.deserialize, bad)


FACETS = [
    Facet('sign', body, check_sign, 3000, rule='three or more arguments'),
    Facet('tamper', tamper_case, check_tamper, 6000, rule='a signature is left to verify after the changes'),
    Facet('pairs', pairs_case, check_pairs, 2000, rule='at least one pair'),
    Facet('serialize', ser_case, check_serialize, 3000, rule='the clock is at the end of the lifetime'),
]
