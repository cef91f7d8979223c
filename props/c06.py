"""Association storage against a model."""
from vf.core import Facet, Violation, expect, expect_eq, st
from vf import gen
from vf.env import clock
from vf.stores import ALL_KINDS, Box
from vf.threads import together
from openid.association import Association

ASSUMPTIONS = ['handles have no newline and no blanks around them', 'secrets, issue times and lifetimes as the library makes them',
               'removing an association that has expired may or may not report that it was there',
               'the MySQL and PostgreSQL stores run on SQLite behind a stand-in for their drivers, with text for character columns and bytes for binary ones']

URLS = ['http://op.example/', 'http://op.example/x', 'https://op.example/', 'http://op.example', 'http://localhost/|normal', 'http://localhost/|dumb', '',
        'http://op.example/ y', 'http://op.ex\xe4mple/', 'http://' + 'h' * 300 + '/', 'http://' + 'h' * 300 + '/2', 'xri://=a', 'a/b://c', 'op',
        'http://op.example/\n', "x'; --", '%s', '\x00', 'HTTP://op.example/', 'http://op.example//', 'http://op.example:80/', 'a' * 5000]
HANDLES = ['h', 'H', 'h1', 'h1-', '{HMAC-SHA1}{4a}{b==}', '\xe9', '\xe9/', '../../x', 'a b', 'h' * 255, 'h' * 254 + 'i', '%s', "'", '-', '0', 'None', '\x00', '',
           'h\r1', '{HMAC-SHA1}{4a}{b==}x']
TYPES = ['HMAC-SHA1', 'HMAC-SHA256']
good_handle = st.one_of(st.sampled_from(HANDLES), gen.nonl(gen.tricky_text).map(lambda s: s.strip()))
op = st.one_of(
    st.tuples(st.just('store'), st.integers(0, 2), st.integers(0, 3), st.sampled_from([-3700, -3600, -3599, -60, -2, -1, 0, 0, 0, 1]),
              st.sampled_from([0, 1, 2, 59, 60, 61, 3600, 3601, 14 * 86400]), st.integers(0, 1), gen.hexbytes(20, 20), st.booleans()),
    st.tuples(st.just('store'), st.integers(0, 2), st.integers(0, 3), st.sampled_from([-2, -1, 0, 1]), st.just(3600), st.integers(0, 1),
              gen.hexbytes(32, 32), st.booleans()),
    st.tuples(st.just('get'), st.integers(0, 2), st.integers(0, 3)),
    st.tuples(st.just('best'), st.integers(0, 2)),
    st.tuples(st.just('best'), st.integers(0, 2)),
    st.tuples(st.just('remove'), st.integers(0, 2), st.integers(0, 3)),
    st.tuples(st.just('advance'), st.sampled_from([0.5, 1, 1, 2, 58, 59, 60, 3599, 3600, 86400])),
    st.tuples(st.just('cleanup'), st.sampled_from(['cleanup', 'cleanupAssociations', 'cleanupAssociations', 'cleanupNonces'])),
    st.tuples(st.just('reopen')),
    st.tuples(st.just('nonce'), st.integers(0, 2)),
).map(list)
case = st.fixed_dictionaries({
    'kind': st.sampled_from(ALL_KINDS), 'start': st.sampled_from([1500000000, 1500000000.5, 1234567890.99]),
    'urls': gen.texts_alike(URLS, 2),
    'handles': st.one_of(st.lists(good_handle, min_size=3, max_size=3), gen.texts_alike(HANDLES, 3).map(lambda t: [gen.bare(x) for x in t])),
    'ops': gen.history(op),
})


def fields(a):
    return (a.handle, bytes(a.secret), a.issued, a.lifetime, a.assoc_type)


def check(ctx, case):
    clock.set(case['start'])
    model = {}          # (url, handle) -> fields of what was stored last
    maybe = set()       # expired ones that the store may have dropped already
    hits = expired_seen = 0
    kind = case['kind']

    def expired(f):
        return f[2] + f[3] <= int(clock.time())

    with Box(kind) as box:
        for op in case['ops']:
            name = op[0]
            if name == 'advance':
                clock.advance(op[1])
                continue
            if name == 'reopen':
                box.reopen()
                continue
            if name == 'nonce':
                box.store.useNonce(case['urls'][op[1] % 2], int(clock.time()), 'salt')
                continue
            if name == 'cleanup':
                res = getattr(box.store, op[1])()
                if op[1] == 'cleanupNonces':
                    continue
                gone = [k for k, f in model.items() if expired(f)]
                if op[1] == 'cleanupAssociations':
                    low = len([k for k in gone if k not in maybe])
                    expect(low <= res <= len(gone), '%s cleanupAssociations returned %r, %d to %d have expired', kind, res, low, len(gone))
                expect_eq(box.store.cleanupAssociations(), 0, '%s associations removed by a second cleanup' % kind)
                for k in gone:
                    del model[k]
                    maybe.discard(k)
                if gone:
                    ctx.label('cleaned')
                continue
            url = case['urls'][op[1] % 2]
            if name == 'store':
                assoc = Association(case['handles'][op[2] % 3], bytes.fromhex(op[6]), int(clock.time()) + op[3], op[4], TYPES[op[5]])
                box.store.storeAssociation(url, assoc)
                model[(url, assoc.handle)] = fields(assoc)
                maybe.discard((url, assoc.handle))
                if op[7]:
                    # what the caller does with its object later is not the store's business
                    assoc.secret, assoc.issued, assoc.lifetime, assoc.assoc_type = b'?' * 20, 5, 10 ** 9, 'HMAC-SHA1'
                    assoc.handle = 'changed'
            elif name == 'get':
                handle = case['handles'][op[2] % 3]
                key = (url, handle)
                got = box.store.getAssociation(url, handle)
                wanted = model.get(key)
                if wanted is not None and expired(wanted):
                    expired_seen += 1
                    if got is not None:
                        expect_eq(fields(got), wanted, '%s association' % kind)
                        if kind == 'memory' and got.getExpiresIn() == 0:
                            ctx.known.append('memory-store-expired-by-handle')
                        else:
                            raise Violation('%s returned the expired association %r' % (kind, wanted))
                    maybe.add(key)
                elif wanted is None:
                    expect(got is None, '%s getAssociation%r returned %r', kind, key, got)
                else:
                    expect(got is not None, '%s getAssociation%r lost %r', kind, key, wanted)
                    expect_eq(fields(got), wanted, '%s association' % kind)
                    expect_eq(got, Association(*wanted), 'association')
                    hits += 1
            elif name == 'best':
                got = box.store.getAssociation(url)
                valid = [f for k, f in model.items() if k[0] == url and not expired(f)]
                for k, f in model.items():
                    if k[0] == url and expired(f):
                        maybe.add(k)
                if not valid:
                    expect(got is None, '%s getAssociation(%r) returned %r', kind, url, got and fields(got))
                else:
                    latest = [f for f in valid if f[2] == max(v[2] for v in valid)]
                    expect(got is not None, '%s getAssociation(%r) found none of %r', kind, url, valid)
                    expect(fields(got) in latest, '%s getAssociation(%r) returned %r, the most recent is %r', kind, url, fields(got), latest)
                    hits += 1
                    ctx.label('best of %d' % min(3, len(valid)))
            else:
                key = (url, case['handles'][op[2] % 3])
                got = box.store.removeAssociation(*key)
                wanted = model.pop(key, None)
                if wanted is None or not expired(wanted):
                    expect_eq(bool(got), wanted is not None, '%s removeAssociation%r' % (kind, key))
                maybe.discard(key)
                ctx.label('removed' if wanted else 'nothing to remove')
        # everything that was stored is still there, apart from what has been removed or has expired
        for u in set(case['urls']):
            for h in set(case['handles']):
                wanted = model.get((u, h))
                if wanted is not None and expired(wanted):
                    continue
                got = box.store.getAssociation(u, h)
                if wanted is None:
                    expect(got is None, '%s has %r for %r in the end', kind, got, (u, h))
                else:
                    expect(got is not None, '%s has lost %r in the end', kind, (u, h))
                    expect_eq(fields(got), wanted, '%s association in the end' % kind)
    ctx.label(kind)
    ctx.nt(hits > 0 and len(case['ops']) > 3)
    if expired_seen:
        ctx.label('expired looked up')


thread_op = st.one_of(
    st.tuples(st.sampled_from(['store', 'store', 'store old']), st.integers(0, 2), st.integers(0, 5)),
    st.tuples(st.just('get'), st.integers(0, 9), st.just(0)),
    st.tuples(st.just('best'), st.integers(0, 2), st.just(0)),
    st.tuples(st.sampled_from(['remove', 'remove', 'cleanup', 'again']), st.integers(0, 9), st.just(0)),
).map(list)
thread_case = st.fixed_dictionaries({
    'kind': st.sampled_from(['memory', 'memory', 'memory', 'file']), 'cleaning': st.booleans(),
    'threads': st.lists(st.lists(thread_op, min_size=5, max_size=25), min_size=2, max_size=4)})


def check_threads(ctx, case):
    now = 1500000000
    clock.set(now)
    urls = URLS[:3]
    made = {}       # handle -> (url, fields) of everything ever stored; filled by the threads, each under handles of its own
    with Box(case['kind']) as box:
        if case['cleaning']:
            # cleaning up drops server URLs without associations: an association that comes at that moment may be lost,
            # so every URL keeps one
            for i, u in enumerate(urls):
                keep = Association('keep%d' % i, b'k' * 20, now - 1000, 5000, TYPES[0])
                box.store.storeAssociation(u, keep)
                made[keep.handle] = (u, fields(keep))

        def runner(t, ops):
            def run():
                mine = {}

                def put(url, handle, issued, lifetime):
                    a = Association(handle, (handle * 20).encode('ascii')[:20], issued, lifetime, TYPES[0])
                    made[handle] = (url, fields(a))
                    if lifetime > 10:
                        mine[handle] = (url, fields(a))
                    box.store.storeAssociation(url, a)
                for n, (name, arg, extra) in enumerate(ops):
                    if name == 'store':
                        put(urls[arg], 't%dn%d' % (t, n), now - extra, 3600)
                    elif name == 'store old':
                        put(urls[arg], 't%dn%d' % (t, n), now - 100, 5)
                    elif name == 'best':
                        got = box.store.getAssociation(urls[arg])
                        own = [f[2] for u, f in mine.values() if u == urls[arg]] + ([now - 1000] if case['cleaning'] else [])
                        if got is None:
                            expect(not own, 'thread %d: getAssociation(%r) found nothing', t, urls[arg])
                        else:
                            expect_eq((urls[arg], fields(got)), made.get(got.handle), 'association of that server URL in a thread')
                            expect(got.issued + got.lifetime > now, 'thread %d: getAssociation(%r) returned the expired %r', t, urls[arg], fields(got))
                            expect(not own or got.issued >= max(own), 'thread %d: getAssociation(%r) returned %r, this thread stored a later one', t, urls[arg], fields(got))
                    elif name == 'cleanup':
                        if case['cleaning']:
                            box.store.cleanupAssociations()
                    elif mine:
                        handle = sorted(mine)[arg % len(mine)]
                        url, wanted = mine[handle]
                        if name == 'get':
                            got = box.store.getAssociation(url, handle)
                            expect(got is not None, 'thread %d: the association %r it stored is not found', t, wanted)
                            expect_eq(fields(got), wanted, 'association stored by this thread')
                        elif name == 'again':
                            box.store.storeAssociation(url, Association(*wanted))
                        else:
                            del mine[handle]
                            expect(box.store.removeAssociation(url, handle), 'thread %d: the association %r it stored is not there to be removed', t, wanted)
                            expect(box.store.getAssociation(url, handle) is None, 'thread %d: the association %r it removed is still there', t, wanted)
                return mine
            return run
        left = {}
        for mine in together([runner(t, ops) for t, ops in enumerate(case['threads'])]):
            left.update(mine)
        if case['cleaning']:
            left.update((h, made[h]) for h in made if h.startswith('keep'))
        for handle, (url, wanted) in left.items():
            got = box.store.getAssociation(url, handle)
            expect(got is not None, '%s: the association %r is lost', case['kind'], wanted)
            expect_eq(fields(got), wanted, 'association after the threads have ended')
        for url in urls:
            live = [f[2] for u, f in left.values() if u == url]
            got = box.store.getAssociation(url)
            expect_eq(got and got.issued, max(live) if live else None, 'issue time of the most recent association after the threads have ended')
        box.store.cleanupAssociations()
        for handle, (url, wanted) in made.items():
            got = box.store.getAssociation(url, handle)
            expect_eq(got and fields(got), wanted if handle in left else None, 'association after the threads have ended and a clean-up')
    ctx.label(case['kind'])
    if case['cleaning'] and any(op[0] == 'cleanup' for ops in case['threads'] for op in ops):
        ctx.label('cleaning up meanwhile')
    ctx.nt(len(left) >= 2)


FACETS = [Facet('threads', thread_case, check_threads, 1200, rule='at least two associations are left'),
          Facet('model', case, check, 6000, rule='more than three operations, some lookup finds an association')]
