"""Deliveries of responses to relying parties that share a store, over time."""
import hashlib
import time
from urllib.parse import urlencode

from vf.core import Facet, expect, expect_eq, st
from vf import ref
from vf.env import clock
from vf.stores import ALL_KINDS, Box
from vf.web import Web, form
from openid.association import Association
from openid.consumer.consumer import Consumer, GenericConsumer
from openid.consumer.discover import OpenIDServiceEndpoint

ASSUMPTIONS = ['the clock does not go backwards', 'relying parties that share a store',
               'the MySQL and PostgreSQL stores run on SQLite behind a stand-in for their drivers, with text for character columns and bytes for binary ones']
NOW = 1500000000
SKEW = 5 * 3600
SERVERS = ['http://op.example/', 'http://op.example/2', 'https://op.example/?a=b']
T2, T11 = 'http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1'
SALTS = ['', 'a', 'A', 'aa', '0', '-', 'a/b', 'a%2Fb', '..', 'x' * 30, '\xe9', 'a b', '+', 'Z']
BAD = ['', 'bad', '2017-07-14T02:40:00', '2017-07-14 02:40:00Zx', '2017-13-14T02:40:00Zx', ' 2017-07-14T02:40:00Zx', 'x2017-07-14T02:40:00Zx', '17-07-14T02:40:00Zxxxxx', '2017-07-14T02:40:00+00:00', None]
response = st.fixed_dictionaries({'version': st.sampled_from(['2', '2', '1']), 'server': st.sampled_from([0, 0, 1, 2]), 'offset': st.sampled_from([0, 0, 0, 0, 1, 1, -1, 100, -SKEW, -SKEW + 1, -SKEW - 1, SKEW, SKEW - 1, SKEW + 1, -10 * SKEW, 3 * SKEW]),
                                  'salt': st.sampled_from(SALTS[:3] * 3 + SALTS), 'bad': st.sampled_from([None] * 12 + list(range(len(BAD)))), 'stateless': st.sampled_from([False, False, True]), 'user': st.integers(0, 1)})
deliver = st.tuples(st.just('deliver'), st.integers(0, 5), st.sampled_from(['as it is', 'as it is', 'as it is', 'as it is', 'other session', 'no session', 'more', 'forged', 'unsigned']))
step = st.sampled_from(['deliver'] * 9 + ['time', 'time', 'cleanup', 'reopen']).flatmap(lambda k: {'deliver': deliver, 'time': st.tuples(st.just('time'), st.sampled_from([1, 2, 10, SKEW - 1, SKEW, SKEW + 1, 2 * SKEW, 100 * SKEW])), 'cleanup': st.just(('cleanup',)), 'reopen': st.just(('reopen',))}[k]).map(list)
case = st.fixed_dictionaries({'store': st.sampled_from(ALL_KINDS), 'responses': st.lists(response, min_size=1, max_size=4), 'steps': st.lists(step, min_size=3, max_size=16), 'begun': st.sampled_from([False, True]), 'checker': st.sampled_from(['consumer', 'consumer', 'generic'])})


def key_of(i):
    return hashlib.sha1(b'key %d' % i).digest()


def sig_of(i, args):
    return ref.message_sig('HMAC-SHA1', key_of(i), args)


def stamp(t):
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(t))


def user(r):
    return 'http://user%d.example/' % r['user']


def build(r, made, more=False):
    v2 = r['version'] == '2'
    # a relying party makes the nonces of OpenID 1, so that they do not depend on the provider
    nonce = BAD[r['bad']] if r['bad'] is not None else stamp(made + r['offset']) + r['salt'] + ('' if v2 else 's%d' % r['server'])
    args = {'openid.mode': 'id_res', 'openid.identity': user(r), 'openid.assoc_handle': 'private' if r['stateless'] else 'shared'}
    bare = {}
    if v2:
        args.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': user(r), 'openid.op_endpoint': SERVERS[r['server']]})
        if nonce is not None:
            args['openid.response_nonce'] = nonce
    else:
        bare['openid1_claimed_id'] = user(r)
        if nonce is not None:
            bare['janrain_nonce'] = nonce
    args['openid.return_to'] = 'http://rp.example/back' + ('?' + urlencode(bare) if bare else '')
    args.update(bare)
    if more:
        args['openid.more'] = 'more'
    args['openid.signed'] = ','.join(sorted(k[7:] for k in args if k.startswith('openid.') and k not in ('openid.ns', 'openid.mode')))
    args['openid.sig'] = sig_of(r['server'], args)
    return args, nonce


def check(ctx, case):
    clock.set(NOW)

    def provider(i):
        def page(body, headers):
            args = form(body) if body is not None else {}
            good = args.get('openid.mode') == 'check_authentication' and args.get('openid.sig') == sig_of(i, args)
            return {'headers': {'Content-Type': 'text/plain'}, 'body': ('is_valid:%s\n' % ('true' if good else 'false') + ('ns:%s\n' % ref.OPENID2 if args.get('openid.ns') == ref.OPENID2 else '')).encode()}
        return page

    def identity_page(body, headers):
        services = ''.join('<Service><Type>%s</Type><URI>%s</URI></Service>' % (T2, u) for u in SERVERS)
        return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s</XRD></x:XRDS>' % services).encode()}

    def endpoint(r):
        e = OpenIDServiceEndpoint()
        e.claimed_id, e.server_url, e.type_uris = user(r), SERVERS[r['server']], [T2 if r['version'] == '2' else T11]
        return e

    web = Web({u: provider(i) for i, u in enumerate(SERVERS)})
    for i in (0, 1):
        web.pages['http://user%d.example/' % i] = identity_page
    used = set()
    accepted = {}
    born = {}  # responses are made just before they are first delivered
    with Box(case['store']) as box, web:
        for i, u in enumerate(SERVERS):
            box.store.storeAssociation(u, Association('shared', key_of(i), NOW, 10 ** 9, 'HMAC-SHA1'))
        for s in case['steps']:
            if s[0] == 'time':
                clock.advance(s[1])
                continue
            if s[0] == 'cleanup':
                box.store.cleanupNonces()
                continue
            if s[0] == 'reopen':
                box.reopen()
                continue
            n = s[1] % len(case['responses'])
            r = case['responses'][n]
            how = s[2]
            args, nonce = build(r, born.setdefault(n, clock.time()), how == 'more')
            if how == 'forged':
                args['openid.sig'] = sig_of(r['server'] + 1, args)
            elif how == 'unsigned':
                args['openid.signed'] = args['openid.signed'].replace(',return_to', '')
            session = {}
            v2 = r['version'] == '2'
            if how == 'other session':
                other = dict(r, server=(r['server'] + 1) % 3)
                e = endpoint(other if v2 else r)
            elif how == 'no session' and v2:
                e = None
            else:
                e = endpoint(r)
            if case['checker'] == 'generic':
                from openid.message import Message
                got = GenericConsumer(box.store).complete(Message.fromPostArgs(args), e, 'http://rp.example/back')
            else:
                c = Consumer(session, box.store)
                if e is not None:
                    c.beginWithoutDiscovery(e)
                got = Consumer(session, box.store).complete(args, 'http://rp.example/back')
            triple = (SERVERS[r['server']] if v2 else '', nonce)
            fresh = r['bad'] is None and abs(born[n] + r['offset'] - clock.time()) <= SKEW
            good = how not in ('forged', 'unsigned')
            want = good and fresh and triple not in used
            if got.status == 'success':
                expect(good, 'success of a forged response')
                expect(r['bad'] is None, 'success with the nonce %r', nonce)
                expect(fresh, 'success with a nonce %d s old', clock.time() - born[n] - r['offset'])
                expect(triple not in used, 'success with a nonce that was used before')
                used.add(triple)
                accepted[n] = accepted.get(n, 0) + 1
                ctx.label('accepted')
            else:
                expect_eq(got.status, 'failure', 'status')
                expect(not want, 'a fresh response is refused: %s', got.message)
                ctx.label('refused: ' + ('forged' if not good else 'malformed' if r['bad'] is not None else 'out of time' if not fresh else 'replayed'))
                if good and fresh and triple in used:
                    ctx.nt()
    ctx.nt(len(accepted) >= 2)


FACETS = [Facet('replay', case, check, quick=6000, rule='a response is refused because of an earlier delivery, or several different ones are accepted')]
