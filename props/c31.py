"""SQL stores when statements fail, and when several processes use the same database."""
import os
import shutil
import sqlite3
import tempfile

from vf.core import Facet, expect, expect_eq, st
from vf import gen
from vf.env import clock
from vf.stores import SQL_STORES, Connection, Cursor
from openid.association import Association

ASSUMPTIONS = ['a call of the database that fails has no effect', 'one failure per operation, and not in the roll-back after a failure', 'an operation that finds the database locked may fail',
               'an association stored under the handle of an expired one while that is being read may be lost',
               'the MySQL and PostgreSQL stores run on SQLite behind a stand-in for their drivers']
NOW = 1500000000
URLS = ['http://op.example/', 'http://op.example/x']
HANDLES = ['h', 'i', 'j']
NONCES = [(u, NOW + t, s) for u in URLS for t in (0, -100) for s in ('a', 'b')]
ERRORS = ['OperationalError', 'OperationalError', 'DatabaseError', 'InterfaceError', 'MemoryError', 'IntegrityError']
assoc = st.tuples(st.integers(0, 1), st.integers(0, 2), st.sampled_from([0, -1, -3600, -3700]), gen.hexbytes(20, 20)).map(list)
operation = st.sampled_from(['store', 'store', 'store', 'get', 'best', 'remove', 'remove', 'nonce', 'nonce', 'nonce', 'cleanup']).flatmap(lambda k: {
    'store': assoc.map(lambda a: ['store', a]), 'get': st.tuples(st.integers(0, 1), st.integers(0, 2)).map(lambda t: ['get'] + list(t)), 'best': st.integers(0, 1).map(lambda u: ['best', u]),
    'remove': st.tuples(st.integers(0, 1), st.integers(0, 2)).map(lambda t: ['remove'] + list(t)), 'nonce': st.integers(0, len(NONCES) - 1).map(lambda n: ['nonce', n]),
    'cleanup': st.sampled_from(['cleanup', 'cleanupNonces', 'cleanupAssociations']).map(lambda n: ['cleanup', n])}[k])
event = st.one_of(st.none(), st.none(), st.tuples(st.just('fail'), st.integers(0, 8), st.sampled_from(ERRORS)).map(list),
                  st.tuples(st.just('during'), st.integers(1, 6), operation).map(list), st.tuples(st.just('same'), st.integers(1, 6)).map(list))
step = st.fixed_dictionaries({'who': st.integers(0, 1), 'op': operation, 'event': event})
case = st.fixed_dictionaries({'kind': st.sampled_from(sorted(SQL_STORES)), 'steps': st.lists(step, min_size=1, max_size=10)})


class PlainCursor(Cursor):
    def execute(self, sql, args=()):
        self.rows = None
        self.cur.execute(sql, args)

    def fetchall(self):
        if self.rows is not None:
            rows, self.rows = self.rows, []
            return rows
        return self.cur.fetchall()


class Tapped(Connection):
    """Counts the calls of the database, and can make one fail or do something else before it."""
    DatabaseError, InterfaceError = sqlite3.DatabaseError, sqlite3.InterfaceError

    def __init__(self, conn, plain):
        Connection.__init__(self, conn)
        self.plain, self.count, self.at, self.action, self.fired, self.failed, self.aborted = plain, 0, None, None, False, False, False

    def arm(self, at, action):
        self.count, self.at, self.action, self.fired, self.failed = 0, at, action, False, False

    def tick(self, what):
        n, self.count = self.count, self.count + 1
        if self.at is not None and n == self.at and not self.fired and not self.failed:
            self.fired = True
            self.action(what)

    def cursor(self):
        self.tick('cursor')
        return TappedCursor(self, (PlainCursor if self.plain else Cursor)(self.conn.cursor()))

    def commit(self):
        self.tick('commit')
        self.aborted = False
        self.conn.commit()

    def rollback(self):
        self.tick('rollback')
        self.aborted = False
        self.conn.rollback()


class TappedCursor(object):
    def __init__(self, owner, cur):
        self.owner, self.cur = owner, cur

    def execute(self, sql, args=()):
        self.owner.tick('execute')
        if self.owner.aborted:
            raise sqlite3.InternalError('current transaction is aborted')
        try:
            self.cur.execute(sql, args)
        except Exception:
            # PostgreSQL does nothing more in a transaction in which a statement failed
            self.owner.aborted = not self.owner.plain
            raise

    def fetchall(self):
        self.owner.tick('fetch')
        return self.cur.fetchall()

    def fetchone(self):
        self.owner.tick('fetch')
        return self.cur.fetchone()

    def fetchmany(self, size=1):
        self.owner.tick('fetch')
        return self.cur.fetchmany(size)

    def executemany(self, sql, args):
        for a in args:
            self.execute(sql, a)

    def __iter__(self):
        return iter(self.fetchone, None)

    def __getattr__(self, name):
        return getattr(self.cur, name)


def fields(a):
    return a and (a.handle, bytes(a.secret), a.issued, a.lifetime, a.assoc_type)


def perform(store, op):
    if op[0] == 'store':
        u, h, issued, secret = op[1]
        return store.storeAssociation(URLS[u], Association(HANDLES[h], bytes.fromhex(secret), NOW + issued, 3600, 'HMAC-SHA1'))
    if op[0] == 'get':
        return fields(store.getAssociation(URLS[op[1]], HANDLES[op[2]]))
    if op[0] == 'best':
        return fields(store.getAssociation(URLS[op[1]]))
    if op[0] == 'remove':
        return bool(store.removeAssociation(URLS[op[1]], HANDLES[op[2]]))
    if op[0] == 'nonce':
        return store.useNonce(*NONCES[op[1]])
    getattr(store, op[1])()


def live(f):
    return f is not None and f[2] + f[3] > NOW


def apply(model, op):
    """-> (new model, acceptable results); a model is (associations, nonces)."""
    assocs, nonces = dict(model[0]), set(model[1])
    if op[0] == 'store':
        u, h, issued, secret = op[1]
        assocs[u, h] = (HANDLES[h], bytes.fromhex(secret), NOW + issued, 3600, 'HMAC-SHA1')
        return (assocs, nonces), [None]
    if op[0] == 'get':
        f = assocs.get((op[1], op[2]))
        return model, [f if live(f) else None]
    if op[0] == 'best':
        found = [f for (u, h), f in assocs.items() if u == op[1] and live(f)]
        return model, [f for f in found if f[2] == max(g[2] for g in found)] or [None]
    if op[0] == 'remove':
        f = assocs.pop((op[1], op[2]), None)
        return (assocs, nonces), [True] if live(f) else [False] if f is None else [True, False]
    if op[0] == 'nonce':
        new = op[1] not in nonces
        nonces.add(op[1])
        return (assocs, nonces), [new]
    return model, [None]


def view(model):
    return {k: f for k, f in model[0].items() if live(f)}, set(model[1])


class Shared(object):
    def __init__(self, kind):
        self.kind = kind
        self.dir = tempfile.mkdtemp(prefix='sql')
        self.open = []
        first = self.connect(self.path())
        first.createTables()

    def path(self):
        return os.path.join(self.dir, 'db')

    def connect(self, path):
        conn = sqlite3.connect(path, timeout=0)
        conn.execute('PRAGMA synchronous=OFF')
        conn.execute('PRAGMA journal_mode=MEMORY')
        self.open.append(conn)
        tapped = Tapped(conn, self.kind == 'sqlite')
        return SQL_STORES[self.kind](tapped)

    def look(self):
        """What somebody who comes later finds."""
        copy = os.path.join(self.dir, 'copy')
        shutil.copyfile(self.path(), copy)
        n = len(self.open)
        store = self.connect(copy)
        found = {(u, h): perform(store, ['get', u, h]) for u in range(len(URLS)) for h in range(len(HANDLES))}
        used = set(n for n in range(len(NONCES)) if not perform(store, ['nonce', n]))
        for conn in self.open[n:]:
            conn.close()
        del self.open[n:]
        return {k: f for k, f in found.items() if f is not None}, used

    def rows(self):
        """Everything that is in the database, also what has expired."""
        conn = sqlite3.connect('file:%s?mode=ro' % self.path(), uri=True)
        try:
            names = sorted(r[0] for r in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
            return {name: sorted(map(repr, conn.execute('SELECT * FROM "%s"' % name))) for name in names}
        finally:
            conn.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        for conn in self.open:
            conn.close()
        shutil.rmtree(self.dir)


def check(ctx, case):
    clock.set(NOW)
    model = ({}, set())
    with Shared(case['kind']) as shared:
        stores = [shared.connect(shared.path()) for _ in range(2)]
        for step in case['steps']:
            store, other = stores[step['who']], stores[1 - step['who']]
            op, event = step['op'], step['event']
            inner = []
            rows = shared.rows()
            if event is None:
                store.conn.arm(None, None)
            elif event[0] == 'fail':
                def fail(what, name=event[2], conn=store.conn):
                    conn.failed = True
                    inner.append(what)
                    raise (MemoryError if name == 'MemoryError' else getattr(sqlite3, name))('injected')
                store.conn.arm(event[1], fail)
            else:
                nested = event[2] if event[0] == 'during' else op

                def during(what):
                    try:
                        inner.append(('returned', perform(other, nested)))
                    except sqlite3.Error as e:
                        inner.append(('raised', e))
                other.conn.arm(None, None)
                store.conn.arm(event[1], during)
            try:
                outcome = ('returned', perform(store, op))
            except (sqlite3.Error, MemoryError) as e:
                outcome = ('raised', e)
            what = '%s: %r with %r' % (case['kind'], op, event)
            if event is None or not inner:
                expect(outcome[0] == 'returned', '%s raised %r', what, outcome[1])
                model, results = apply(model, op)
                expect(outcome[1] in results, '%s returned %r, expected %r', what, outcome[1], results)
            elif event[0] == 'fail':
                ctx.label('failing ' + inner[0], event[2])
                ctx.nt()
                if outcome[0] == 'returned':
                    # only an operation that needs nothing of the database may cope, and a unique key that is there already
                    after, results = apply(model, op)
                    if op[0] == 'nonce' and event[2] == 'IntegrityError':
                        expect_eq(outcome[1], False, what)
                    else:
                        expect(outcome[1] in results, '%s returned %r, expected %r', what, outcome[1], results)
                        expect(inner[0] not in ('execute', 'commit'), '%s reports no error', what)
                        expect(inner[0] in ('fetch', 'cursor') or after == model, '%s reports no error', what)
                        model = after
                else:
                    expect_eq(shared.rows(), rows, what + ': rows of the database, after the operation has failed')
                    ctx.label('rows kept', 'with expired ones' if any(not live(f) for f in model[0].values()) else 'all live')
                expect_eq(shared.look(), view(model), what + ': contents of the database')
            else:
                ctx.nt()
                orders = []
                done = [('inner', nested, inner[0]), ('outer', op, outcome)]
                ctx.label('%s during %s: %s' % (nested[0], op[0], '/'.join(d[2][0] for d in done)))
                for order in (done, done[::-1]):
                    m, ok = model, True
                    for _, o, res in order:
                        if res[0] == 'returned':
                            m, results = apply(m, o)
                            ok = ok and res[1] in results
                    if ok:
                        orders.append(m)
                        # whoever reads an expired association removes it, and may remove one of the same handle that was stored meanwhile
                        for o, reader in ((op, nested), (nested, op)):
                            if o[0] == 'store' and reader[0] in ('get', 'best') and reader[1] == o[1][0] and (o[1][0], o[1][1]) in model[0] and not live(model[0][o[1][0], o[1][1]]):
                                orders.append(({k: f for k, f in m[0].items() if k != (o[1][0], o[1][1])}, m[1]))
                expect(orders, '%s: results %r fit neither order', what, done)
                seen = shared.look()
                fits = [m for m in orders if view(m) == seen]
                expect(fits, '%s: contents of the database are %r after %r', what, seen, done)
                model = fits[0]
        expect_eq(shared.look(), view(model), 'contents of the database at the end')
        for i, store in enumerate(stores):
            store.conn.arm(None, None)
            for u in range(len(URLS)):
                for h in range(len(HANDLES)):
                    f = model[0].get((u, h))
                    expect_eq(perform(store, ['get', u, h]), f if live(f) else None, 'association seen by process %d' % i)
        for n in model[1]:
            expect_eq(perform(stores[0], ['nonce', n]), False, 'nonce used again')
    ctx.label(case['kind'])


FACETS = [Facet('shared', case, check, quick=8000, rule='an operation is disturbed by a failure or by another process')]
