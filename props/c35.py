"""What must not be guessed: made twice in the same state of everything but the system's randomness, and in bulk.

Values of 32 bits and a little more may coincide by chance, so that one coincidence is let pass; the
bounds are such that code that uses the system's randomness fails once in 10^9 runs or less.
"""
import base64
import json
import os
import random
from itertools import combinations
from urllib.parse import parse_qsl

from vf.core import Facet, expect, expect_eq, st
from vf.env import clock
from openid import fetchers
from openid.association import SessionNegotiator
from openid.consumer.consumer import GenericConsumer
from openid.consumer.discover import OPENID_1_1_TYPE, OPENID_2_0_TYPE, OpenIDServiceEndpoint
from openid.dh import DiffieHellman
from openid.message import OPENID1_NS, OPENID2_NS
from openid.server.server import Server
from openid.store.memstore import MemoryStore
from openid.store.nonce import mkNonce, split as splitNonce

ASSUMPTIONS = ['the system\'s source of randomness is good', 'one coincidence of handles or nonces in a run is let pass: they have 32 and 35 random bits']
URL = 'http://op.example/endpoint'
TYPES = ['HMAC-SHA1', 'HMAC-SHA256']
MANY = ['nonce', 'nonce at', 'dumb', 'smart', 'associate', 'answer', 'begin']
op = st.tuples(st.sampled_from(MANY + ['dh', 'dh associate', 'dh request']), st.integers(0, 1), st.integers(1, 2)).map(list)
state = {'seed': st.one_of(st.integers(0, 3), st.integers(0, 2 ** 32)), 'clock': st.sampled_from([None, 1500000000, 1500000000.5, 1, 1234567890])}
case = st.fixed_dictionaries(dict(state, how=st.sampled_from(['again', 'again', 'again', 'fork']), before=st.lists(op, max_size=3), ops=st.lists(op, min_size=1, max_size=6)))
bulk = st.fixed_dictionaries(dict(state, kind=st.sampled_from(MANY), type=st.integers(0, 1), version=st.integers(1, 2)))


class Net(fetchers.HTTPFetcher):
    """Notes the request, and answers nothing."""

    def fetch(self, url, body=None, headers=None):
        self.body = body
        raise fetchers.HTTPFetchingError('nobody there')


class World(object):
    def __init__(self):
        self.store = MemoryStore()
        self.server = Server(self.store, URL)
        self.consumer = GenericConsumer(None)

    def ask(self, version, **args):
        q = {'openid.' + k: v for k, v in args.items()}
        if version == 2:
            q['openid.ns'] = OPENID2_NS
        return self.server.decodeRequest(q)

    def answer_args(self, request, **kw):
        r = request.answer(True, **kw)
        r = self.server.signatory.sign(r)
        return r.fields.getArgs(OPENID2_NS if r.fields.isOpenID2() else r.fields.getOpenIDNamespace())

    def make(self, kind, type, version):
        """-> {what it is: value}; secrets are bytes."""
        name = TYPES[type]
        if kind == 'nonce':
            return {'salt': splitNonce(mkNonce())[1]}
        if kind == 'nonce at':
            return {'salt': splitNonce(mkNonce(1400000000))[1]}
        if kind in ('dumb', 'smart'):
            a = self.server.signatory.createAssociation(dumb=kind == 'dumb', assoc_type=name)
            return {'secret': a.secret, 'handle': a.handle}
        if kind == 'associate':
            args = dict(mode='associate', assoc_type=name, session_type='no-encryption') if version == 2 else dict(mode='associate', assoc_type=name)
            f = self.server.handleRequest(self.ask(version, **args)).fields
            ns = f.getOpenIDNamespace()
            return {'secret': base64.b64decode(f.getArg(ns, 'mac_key')), 'handle': f.getArg(ns, 'assoc_handle')}
        if kind == 'answer':
            args = dict(mode='checkid_setup', identity='http://user.example/', return_to='http://rp.example/')
            if version == 2:
                args['claimed_id'] = args['identity']
            args = self.answer_args(self.ask(version, **args))
            a = self.server.signatory.getAssociation(args['assoc_handle'], dumb=True)
            return {'salt': splitNonce(args['response_nonce'])[1], 'handle': a.handle, 'secret': a.secret}
        if kind == 'begin':
            e = OpenIDServiceEndpoint()
            e.claimed_id, e.server_url, e.type_uris = 'http://user.example/', URL, [OPENID_1_1_TYPE if version == 1 else OPENID_2_0_TYPE]
            r = self.consumer.begin(e)
            return {'salt': splitNonce(r.return_to_args['janrain_nonce'])[1]}
        if kind == 'dh':
            return {'key': DiffieHellman.fromDefaults().public_key}
        session = 'DH-' + name[5:]
        e = OpenIDServiceEndpoint()
        e.server_url, e.type_uris = URL, [OPENID_2_0_TYPE]
        consumer, net = GenericConsumer(MemoryStore()), Net()
        consumer.negotiator = SessionNegotiator([(name, session)])
        fetchers.setDefaultFetcher(net)
        try:
            consumer.begin(e)
        finally:
            fetchers.setDefaultFetcher(None)
        args = dict(parse_qsl(net.body.decode()))
        if kind == 'dh request':
            return {'key': args['openid.dh_consumer_public']}
        f = self.server.handleRequest(self.server.decodeRequest(args)).fields
        h = f.getArg(OPENID2_NS, 'assoc_handle')
        return {'secret': self.server.signatory.getAssociation(h, dumb=False).secret, 'handle': h, 'key': f.getArg(OPENID2_NS, 'dh_server_public')}


def produce(ops, world=None):
    out = {}
    world = world or World()
    for o in ops:
        for what, v in world.make(*o).items():
            out.setdefault(what, []).append(v)
    return out


def forked(func):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            data = json.dumps({k: [v.hex() if isinstance(v, bytes) else v for v in vs] for k, vs in func().items()}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    expect(data, 'the other process failed')
    got = json.loads(data.decode())
    if 'secret' in got:
        got['secret'] = [bytes.fromhex(v) for v in got['secret']]
    return got


def prepare(case):
    random.seed(case['seed'])
    if case['clock'] is not None:
        clock.set(case['clock'])


def check(ctx, case):
    keep = random.getstate()
    try:
        if case['how'] == 'again':
            runs = []
            for i in range(2):
                prepare(case)
                world = World()
                produce(case['before'], world)
                runs.append(produce(case['ops'], world))
        else:
            prepare(case)
            world = World()
            produce(case['before'], world)
            runs = [forked(lambda: produce(case['ops'], world)) for i in range(2)] + [produce(case['ops'], world)]
    finally:
        random.setstate(keep)
    for what in runs[0]:
        values = [v for r in runs for v in r[what]]
        again = len(values) - len(set(values))
        expect(again <= (0 if what in ('secret', 'key') else 1), 'the same %s again: %r', what, runs)
    lengths = sorted(set(len(v) for v in runs[0].get('secret', [])))
    expect(all(n in (20, 32) for n in lengths), 'secrets of %r bytes', lengths)
    ctx.nt(case['how'] == 'fork' or len(case['ops']) > 1)
    ctx.label(case['how'], *['made: ' + w for w in runs[0]])


def spread(what, samples, least):
    """No position is foreseeable, by itself or from another."""
    n = len(samples[0])
    expect_eq(set(map(len, samples)), {n}, 'lengths of the %s' % what)
    for i in range(n):
        expect(len(set(s[i] for s in samples)) >= least, 'place %d of %d values of %s takes few values', i, len(samples), what)
    size = max(256 if isinstance(samples[0], bytes) else 0, len(set(c for s in samples for c in s)))
    number = (lambda c: c) if isinstance(samples[0], bytes) else {c: k for k, c in enumerate(sorted(set(c for s in samples for c in s)))}.get
    rows = [[number(c) for c in s] for s in samples]
    for i, j in combinations(range(n), 2):
        expect(len(set((r[i] - r[j]) % size for r in rows)) >= least, 'places %d and %d of %s depend on one another', i, j, what)
        expect(len(set((r[i] + r[j]) % size for r in rows)) >= least, 'places %d and %d of %s depend on one another', i, j, what)
    for a, b in ((0, 1),):
        # from one value to the next
        for i in range(n):
            expect(len(set((y[i] - x[i]) % size for x, y in zip(rows, rows[1:]))) >= least, 'place %d of %s follows from the one before', i, what)


def check_bulk(ctx, case):
    keep = random.getstate()
    try:
        prepare(case)
        world = World()
        made = {}
        for i in range(3000):
            for what, v in world.make(case['kind'], case['type'], case['version']).items():
                made.setdefault(what, []).append(v)
    finally:
        random.setstate(keep)
    for what, values in made.items():
        again = len(values) - len(set(values))
        expect(again <= (0 if what == 'secret' else 2), '%d of %d values of %s were used before', again, len(values), what)
        if what == 'secret':
            spread(what, values[:500], 150)
            bits = len(values[0]) * 8
            ones = [0] * bits
            for v in values:
                n = int.from_bytes(v, 'big')
                for b in range(bits):
                    ones[b] += n >> b & 1
            # the standard deviation is 27
            expect(all(abs(k - 1500) < 300 for k in ones), 'bits of the secrets are not balanced: %r', ones)
        elif what == 'salt':
            spread(what, values[:500], 30)
        ctx.label('%d %ss' % (len(values), what))
    ctx.nt()


FACETS = [
    Facet('fresh', case, check, quick=1200, rule='several values are made, or in several processes'),
    Facet('bulk', bulk, check_bulk, quick=48, thorough=600, rule='3000 values of a kind'),
]
