"""What the application is told after a success, when unsigned fields came along."""
import hashlib

from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box
from vf.web import Web, form
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax, pape, sreg
from openid.extensions.draft import pape2
from openid.message import BARE_NS, OPENID_NS

ASSUMPTIONS = ['the provider signs its namespace declarations']
NOW = 1500000000
OP = 'http://op.example/'
CLAIMED = 'http://user.example/'
SECRET = hashlib.sha1(b'key').digest()
SREG11, SREG10, AX, PAPE = 'http://openid.net/extensions/sreg/1.1', 'http://openid.net/sreg/1.0', 'http://openid.net/srv/ax/1.0', 'http://specs.openid.net/extensions/pape/1.0'
URIS = [SREG11, SREG11, SREG10, AX, AX, PAPE, 'http://ext.example/1', 'http://ext.example/2']
ALIASES = ['sreg', 'ax', 'pape', 'e', 'ext1', 'ex', 'x']
KEYS = {'sreg': ['email', 'nickname', 'fullname', 'dob', 'gender', 'email2', 'mail', 'country'], 'other': ['a', 'b', 'a.b', 'aa', 'email', 'mode', 'return_to', 'signed']}
TYPES = ['http://type.example/email', 'http://type.example/name', 'http://type.example/x']
value = st.one_of(st.sampled_from(['v', '', 'v2', 'admin@example.com', '1', 'none']), gen.nonl(gen.tricky_text))
sreg_args = st.dictionaries(st.sampled_from(KEYS['sreg']), value, min_size=1, max_size=4)
other_args = st.dictionaries(st.sampled_from(KEYS['other']), value, min_size=1, max_size=4)
ax_args = st.dictionaries(st.sampled_from(TYPES), st.one_of(value.map(lambda v: [v]), st.lists(value, max_size=3).map(lambda v: ['list'] + v)), min_size=1, max_size=3)
pape_args = st.fixed_dictionaries({'auth_policies': st.lists(st.sampled_from(['http://schemas.openid.net/pape/policies/2007/06/multi-factor', 'http://p.example/1', 'http://p.example/2']), min_size=1, max_size=2, unique=True), 'auth_time': st.sampled_from([None, '2017-07-14T02:40:00Z'])})


def ns_of(uri):
    return {'args': sreg_args if uri in (SREG10, SREG11) else ax_args if uri == AX else pape_args if uri == PAPE else other_args, 'uri': st.just(uri)}


namespace = st.sampled_from(URIS).flatmap(lambda uri: st.fixed_dictionaries(dict(ns_of(uri), alias=st.sampled_from(ALIASES), mode=st.sampled_from(['fetch_response', 'store_response_success', 'store_response_failure']), sign=st.sampled_from(['all', 'all', 'all', 'all', 'some', 'none']), skip=st.integers(0, 5))))
extra = st.one_of(st.tuples(st.just('in'), st.integers(0, 3), st.sampled_from(KEYS['sreg'] + KEYS['other'] + ['value.ext9', 'type.ext9', 'count.ext0', 'value.ext0.1', 'auth_level.ns.x', 'nist_auth_level', 'auth_time', 'update_url']), value),
                  st.tuples(st.just('new'), st.sampled_from(URIS), st.sampled_from(ALIASES + ['evil']), st.sampled_from(KEYS['sreg'] + ['a']), value),
                  st.tuples(st.just('plain'), st.sampled_from(['foo', 'user', 'invalidate_handle', 'error', 'contact', 'email', 'user_setup']), value))
case = st.fixed_dictionaries({'version': st.sampled_from(['2', '2', '1']), 'stateless': st.sampled_from([False, False, True]), 'spaces': st.lists(namespace, min_size=1, max_size=3), 'extras': st.sampled_from([0, 0, 1, 1, 2]).flatmap(lambda n: st.lists(extra.map(list), min_size=n, max_size=n)), 'fragment': st.booleans(), 'display': st.booleans()})


def wire(n):
    """Unqualified arguments of a namespace."""
    if n['uri'] == AX:
        out = {'mode': n['mode']}
        if n['mode'] != 'fetch_response':
            if n['mode'] == 'store_response_failure':
                out['error'] = 'sorry'
            return out
        for i, (t, vs) in enumerate(sorted(n['args'].items())):
            out['type.ext%d' % i] = t
            if vs[:1] == ['list']:
                out['count.ext%d' % i] = str(len(vs) - 1)
                for j, v in enumerate(vs[1:]):
                    out['value.ext%d.%d' % (i, j + 1)] = v
            else:
                out['value.ext%d' % i] = vs[0]
        return out
    if n['uri'] == PAPE:
        out = {'auth_policies': ' '.join(n['args']['auth_policies'])}
        if n['args']['auth_time']:
            out['auth_time'] = n['args']['auth_time']
        return out
    return dict(n['args'])


def check(ctx, case):
    clock.set(NOW)
    v2 = case['version'] == '2'
    claimed = CLAIMED + ('#f' if v2 and case['fragment'] else '')
    args = {'openid.mode': 'id_res', 'openid.identity': CLAIMED, 'openid.assoc_handle': 'private' if case['stateless'] else 'h', 'openid.return_to': 'http://rp.example/back'}
    if v2:
        args.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': claimed, 'openid.op_endpoint': OP, 'openid.response_nonce': '2017-07-14T02:40:00Zs'})
    else:
        args.update({'janrain_nonce': '2017-07-14T02:40:00Zs', 'openid1_claimed_id': CLAIMED})
        args['openid.return_to'] += '?janrain_nonce=2017-07-14T02%3A40%3A00Zs&openid1_claimed_id=http%3A%2F%2Fuser.example%2F'
    signed = sorted(k[7:] for k in args if k.startswith('openid.') and k not in ('openid.ns', 'openid.mode'))
    spaces, aliases = {}, {}
    for n in case['spaces']:
        if n['uri'] in spaces or n['alias'] in aliases:
            continue
        if n['uri'] in (SREG10, SREG11) and (SREG10 in spaces or SREG11 in spaces):
            continue
        spaces[n['uri']] = dict(n, wire=wire(n), signed=set())
        aliases[n['alias']] = n['uri']
        args['openid.ns.' + n['alias']] = n['uri']
        signed.append('ns.' + n['alias'])
        for i, (k, v) in enumerate(sorted(spaces[n['uri']]['wire'].items())):
            args['openid.%s.%s' % (n['alias'], k)] = v
            if n['sign'] == 'all' or (n['sign'] == 'some' and i != n['skip'] % len(spaces[n['uri']]['wire'])):
                signed.append('%s.%s' % (n['alias'], k))
                spaces[n['uri']]['signed'].add(k)
    args['openid.signed'] = ','.join(signed)
    args['openid.sig'] = ref.message_sig('HMAC-SHA1', SECRET, args)
    # on the way
    injected = False
    for e in case['extras']:
        if e[0] == 'in':
            n = list(spaces.values())[e[1] % len(spaces)]
            if e[2] in n['wire']:
                if e[2] in n['signed']:
                    continue
            n['wire'][e[2]] = e[3]
            args['openid.%s.%s' % (n['alias'], e[2])] = e[3]
        elif e[0] == 'new':
            if e[1] in spaces or e[2] in aliases or (e[1] in (SREG10, SREG11) and (SREG10 in spaces or SREG11 in spaces)):
                continue
            spaces[e[1]] = {'uri': e[1], 'alias': e[2], 'wire': {e[3]: e[4]}, 'signed': set(), 'args': None}
            aliases[e[2]] = e[1]
            args.update({'openid.ns.' + e[2]: e[1], 'openid.%s.%s' % (e[2], e[3]): e[4]})
        else:
            args['openid.' + e[1]] = e[2]
        injected = True

    def provider(body, headers):
        a = form(body) if body is not None else {}
        good = a.get('openid.mode') == 'check_authentication' and a.get('openid.sig') == ref.message_sig('HMAC-SHA1', SECRET, a)
        return {'headers': {'Content-Type': 'text/plain'}, 'body': ('is_valid:%s\n' % ('true' if good else 'false') + ('ns:%s\n' % ref.OPENID2 if v2 else '')).encode()}

    e = OpenIDServiceEndpoint()
    e.claimed_id, e.server_url, e.type_uris = CLAIMED, OP, ['http://specs.openid.net/auth/2.0/signon' if v2 else 'http://openid.net/signon/1.1']
    if case['display']:
        e.display_identifier = 'user.example'
    with Box('memory') as box, Web({OP: provider}):
        box.store.storeAssociation(OP, Association('h', SECRET, NOW, 1000, 'HMAC-SHA1'))
        session = {}
        Consumer(session, box.store).beginWithoutDiscovery(e)
        got = Consumer(session, box.store).complete(dict(args), 'http://rp.example/back')
    expect_eq((got.status, getattr(got, 'message', None) if got.status != 'success' else ''), ('success', ''), 'status')
    expect_eq(got.identity_url, claimed, 'identity')
    expect_eq(got.getDisplayIdentifier(), 'user.example' if case['display'] else CLAIMED, 'display identifier')
    expect_eq(got.getReturnTo(), args['openid.return_to'], 'return_to')
    for k in ('foo', 'user', 'invalidate_handle', 'email'):
        expect_eq(got.getSigned(OPENID_NS, k), None, 'unsigned field %s' % k)
    expect_eq(got.getSigned(BARE_NS, 'janrain_nonce'), None, 'argument that is not of OpenID')
    expect_eq(got.getSigned(OPENID_NS, 'identity'), CLAIMED, 'identity field')
    for uri, n in spaces.items():
        whole = set(n['wire']) == n['signed']
        expect_eq(got.getSignedNS(uri), n['wire'] if whole else None, 'signed arguments of %s' % uri)
        expect_eq(got.extensionResponse(uri, True), n['wire'] if whole else None, 'signed extension response')
        expect_eq(got.extensionResponse(uri, False), n['wire'], 'extension response')
        for k, v in n['wire'].items():
            expect_eq(got.isSigned(uri, k), k in n['signed'], 'whether %s is signed' % k)
            expect_eq(got.getSigned(uri, k, 'default'), v if k in n['signed'] else 'default', 'signed field %s' % k)
        expect_eq(got.getSigned(uri, 'no such', 'default'), 'default', 'missing field')
        readers(uri, n, whole, got)
        ctx.label('%s %s' % ({SREG11: 'sreg', SREG10: 'sreg', AX: 'ax', PAPE: 'pape'}.get(uri, 'other'), 'signed' if whole else 'partly signed' if n['signed'] else 'unsigned'))
    for uri in URIS:
        if uri not in spaces:
            expect(not got.getSignedNS(uri), 'arguments of a namespace that was not sent')
    ctx.nt(injected or any(set(n['wire']) != n['signed'] for n in spaces.values()))


def readers(uri, n, whole, got):
    if uri in (SREG10, SREG11):
        r = sreg.SRegResponse.fromSuccessResponse(got)
        data = {k: v for k, v in n['wire'].items() if k in sreg.data_fields}
        if whole:
            expect(r is not None, 'no simple registration data')
            expect_eq(dict(r.items()), data, 'simple registration data')
        else:
            expect_eq(r, None, 'simple registration data that is not signed')
        r = sreg.SRegResponse.fromSuccessResponse(got, signed_only=False)
        expect_eq(dict(r.items()), data, 'simple registration data, signed or not')
    elif uri == AX:
        if n['args'] is None or wire(n) != n['wire']:
            pass
        elif n['mode'] == 'fetch_response':
            r = ax.FetchResponse.fromSuccessResponse(got, signed=False)
            expect_eq({t: list(r.get(t)) for t in n['args']}, {t: v[1:] if v[:1] == ['list'] else [x for x in v if x] for t, v in n['args'].items()}, 'attributes, signed or not')
        elif n['mode'].startswith('store_response'):
            r = ax.StoreResponse.fromSuccessResponse(got, signed=False)
            expect_eq((r.succeeded(), r.error_message), (n['mode'].endswith('success'), 'sorry' if n['mode'].endswith('failure') else None), 'store response, signed or not')
        if not whole:
            expect_eq(ax.FetchResponse.fromSuccessResponse(got), None, 'attributes that are not signed')
            expect_eq(ax.StoreResponse.fromSuccessResponse(got), None, 'store response that is not signed')
        elif n['mode'] == 'fetch_response':
            r = ax.FetchResponse.fromSuccessResponse(got)
            expect_eq({t: list(r.get(t)) for t in n['args']}, {t: v[1:] if v[:1] == ['list'] else [x for x in v if x] for t, v in n['args'].items()}, 'attributes')
            expect_eq(set(r.data), set(n['args']), 'attribute types')
        else:
            r = ax.StoreResponse.fromSuccessResponse(got)
            expect_eq((r.succeeded(), r.error_message), (n['mode'].endswith('success'), 'sorry' if n['mode'].endswith('failure') else None), 'store response')
    elif uri == PAPE:
        for module in (pape, pape2):
            r = module.Response.fromSuccessResponse(got)
            if whole:
                expect_eq((r.auth_policies, r.auth_time), (n['args']['auth_policies'], n['args']['auth_time']), 'policies')
            else:
                expect_eq(r, None, 'policies that are not signed')


FACETS = [Facet('signed', case, check, quick=8000, rule='some field is not signed or was added on the way')]
