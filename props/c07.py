"""The file store under crashes, failing system calls and concurrent use."""
import errno
import os
import shutil
import tempfile

from vf.core import Facet, Violation, expect, expect_eq, expect_raises, st
from vf import gen
from vf.env import clock
from vf.inject import Fault, Interleave, count_fs, crash_states, restore, snapshot
from openid.association import Association
from openid.store.filestore import FileOpenIDStore

LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['a crash loses what is still in the buffers of the process; a power failure also loses file contents that were not forced to disk, '
               'but keeps the order of directory changes', 'file system calls are atomic',
               'losing an association stored while another process discards an expired one with the same handle is accepted (documented)']

NOW = 1500000000
URLS = ['http://op.example/', 'http://op.example/x']
HANDLES = ['h1', 'h2', 'h1x']
assoc = st.tuples(st.integers(0, 1), st.integers(0, 2), st.sampled_from([-7200, -3600, -10, -1, 0]), st.sampled_from([3600, 7200, 86400]), gen.hexbytes(20, 20),
                  st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256'])).map(list)
nonce = st.tuples(st.integers(0, 1), st.sampled_from([0, 1, -1, -20000]), st.sampled_from(['a', 'b'])).map(list)
operation = st.one_of(
    st.tuples(st.just('store'), assoc),
    st.tuples(st.just('store'), assoc),
    st.tuples(st.just('get'), st.integers(0, 1), st.integers(0, 2)),
    st.tuples(st.just('best'), st.integers(0, 1)),
    st.tuples(st.just('remove'), st.integers(0, 1), st.integers(0, 2)),
    st.tuples(st.just('cleanup'), st.sampled_from(['cleanup', 'cleanupAssociations', 'cleanupNonces'])),
    st.tuples(st.just('nonce'), nonce),
).map(list)
initial = st.fixed_dictionaries({'assocs': st.lists(assoc, max_size=4), 'nonces': st.lists(nonce, max_size=3), 'junk': st.booleans(),
                                 'old_nonce': st.booleans()})


def make(a):
    return URLS[a[0]], Association(HANDLES[a[1]], bytes.fromhex(a[4]), NOW + a[2], a[3], a[5])


def fields(a):
    return None if a is None else (a.handle, a.secret, a.issued, a.lifetime, a.assoc_type)


def expired(f):
    return f[2] + f[3] <= NOW


class World(object):
    """A store directory together with what it is known to hold."""

    def __init__(self, init):
        self.base = tempfile.mkdtemp(prefix='fs')
        self.n = 0
        self.root = os.path.join(self.base, 'root')
        clock.set(NOW)
        store = FileOpenIDStore(self.root)
        self.assocs, self.nonces = {}, set()
        for a in init['assocs']:
            url, obj = make(a)
            store.storeAssociation(url, obj)
            self.assocs[(url, obj.handle)] = fields(obj)
        for n in init['nonces']:
            if abs(n[1]) <= 18000:
                store.useNonce(URLS[n[0]], NOW + n[1], n[2])
                self.nonces.add((URLS[n[0]], NOW + n[1], n[2]))
        if init['old_nonce']:
            clock.set(NOW - 18000)
            store.useNonce('http://old.example/', NOW - 30000, 'old')
            clock.set(NOW)
        if init['junk']:
            with open(os.path.join(self.root, 'temp', 'tmpleftover'), 'wb') as f:
                f.write(b'version:2\nhandle')
        self.store = store

    def scratch(self):
        self.n += 1
        return os.path.join(self.base, 'r%d' % self.n)

    def close(self):
        shutil.rmtree(self.base)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def runner(store, op):
    if op[0] == 'store':
        url, obj = make(op[1])
        return lambda: store.storeAssociation(url, obj)
    if op[0] == 'get':
        return lambda: store.getAssociation(URLS[op[1]], HANDLES[op[2]])
    if op[0] == 'best':
        return lambda: store.getAssociation(URLS[op[1]])
    if op[0] == 'remove':
        return lambda: store.removeAssociation(URLS[op[1]], HANDLES[op[2]])
    if op[0] == 'cleanup':
        return getattr(store, op[1])
    return lambda: store.useNonce(URLS[op[1][0]], NOW + op[1][1], op[1][2])


def allowed(world, ops, done):
    """{key: set of acceptable values} when the operations may have taken effect (or surely have, if done)."""
    out = {}
    for url in URLS:
        for handle in HANDLES:
            key = (url, handle)
            old = world.assocs.get(key)
            if old is not None and expired(old):
                old = None
            values = {old}
            stores = [fields(make(op[1])[1]) for op in ops if op[0] == 'store' and (URLS[op[1][0]], HANDLES[op[1][1]]) == key]
            stores = [None if expired(s) else s for s in stores]
            removes = [op for op in ops if op[0] == 'remove' and (URLS[op[1]], HANDLES[op[2]]) == key]
            values |= set(stores)
            if removes:
                values.add(None)
            if done:
                if stores and not removes:
                    values = set(stores)
                elif removes and not stores:
                    values = {None}
            dead = world.assocs.get(key)
            if len(ops) > 1 and stores and dead is not None and expired(dead):
                values.add(None)     # the accepted race
            if len(ops) > 1 and len(set(stores)) > 1 or (None in stores and len(ops) > 1):
                values.add(None)
            out[key] = values
    return out


def examine(root, values, nonces, what):
    """Open the store again and look at everything in it."""
    store = FileOpenIDStore(root)
    present = {}
    for url in URLS:
        best = store.getAssociation(url)
        valid = []
        for handle in HANDLES:
            got = fields(store.getAssociation(url, handle))
            expect(got in values[(url, handle)], '%s: association %r is %r, expected one of %r', what, (url, handle), got, sorted(map(repr, values[(url, handle)])))
            present[(url, handle)] = got
            if got is not None:
                valid.append(got)
        if not valid:
            expect(best is None, '%s: found association %r', what, best)
        else:
            expect(fields(best) in [v for v in valid if v[2] == max(x[2] for x in valid)], '%s: most recent association is %r of %r', what, fields(best), valid)
    for n in sorted(nonces):
        expect(not store.useNonce(*n), '%s: the used nonce %r is accepted again', what, n)
    return present


# ---- crashes
crash_case = st.fixed_dictionaries({'init': initial, 'op': operation})


def check_crash(ctx, case):
    op = case['op']
    with World(case['init']) as w:
        states, final, result = crash_states(runner(w.store, op), w.root)
        seen = 0
        for i, state in enumerate(states + [final]):
            done = i == len(states)
            values = allowed(w, [op], done)
            nonces = set(w.nonces)
            if done and op[0] == 'nonce' and result:
                nonces.add((URLS[op[1][0]], NOW + op[1][1], op[1][2]))
            for power in (False, True):
                root = w.scratch()
                restore(state, root, power)
                what = '%s %s %r (state %d of %d)' % ('power failure' if power else 'crash', 'after' if done else 'during', op, i, len(states))
                examine(root, values, nonces, what)
                # the interrupted operation can be done again
                again = runner(FileOpenIDStore(root), op)()
                if op[0] == 'nonce' and not done and (URLS[op[1][0]], NOW + op[1][1], op[1][2]) in w.nonces:
                    expect(not again, '%s: nonce accepted twice', what)
                FileOpenIDStore(root).cleanup()
                examine(root, allowed(w, [op], True), nonces, what + ', done again')
                seen += 1
        ctx.label(op[0], 'states=%d' % len(states))
        ctx.nt(len(states) > 1)


# ---- failing calls
def open_files():
    return len(os.listdir('/proc/self/fd'))


fault_case = st.fixed_dictionaries({'init': initial, 'op': operation, 'errno': st.sampled_from(['ENOSPC', 'EIO', 'EACCES', 'EMFILE']), 'sticky': st.booleans()})


def check_fault(ctx, case):
    op = case['op']
    with World(case['init']) as w:
        base = snapshot(w.root, {})
        root = w.scratch()
        restore(base, root)
        files = open_files()
        calls = count_fs(runner(FileOpenIDStore(root), op))
        expect_eq(open_files(), files, 'open files after %r' % (op,))
        root = w.scratch()
        restore(base, root)
        wanted = runner(FileOpenIDStore(root), op)()
        if op[0] in ('get', 'best') and wanted is not None:
            wanted = fields(wanted)
        for k in range(len(calls)):
            root = w.scratch()
            restore(base, root)
            store = FileOpenIDStore(root)
            fault = Fault(k, getattr(errno, case['errno']), case['sticky'])
            what = '%s failing in %r (call %d, %s)' % (case['errno'], op, k, calls[k])
            try:
                result = fault.run(runner(store, op))
            except OSError:
                result = 'raised'
            if fault.hit is None:
                continue
            # what does not report the error has done its work
            values = allowed(w, [op], result != 'raised')
            nonces = set(w.nonces)
            if result != 'raised' and op[0] in ('get', 'best', 'nonce', 'remove'):
                expect_eq(fields(result) if op[0] in ('get', 'best') and result is not None else result, wanted, what + ': result')
            if op[0] == 'nonce':
                key = (URLS[op[1][0]], NOW + op[1][1], op[1][2])
                if result is True:
                    expect(key not in w.nonces and op[1][1] != -20000, '%s: nonce %r accepted', what, key)
                    nonces.add(key)
            elif op[0] in ('get', 'best') and result not in ('raised', None):
                expect(fields(result) in [v for vs in values.values() for v in vs if v], '%s: returned %r', what, fields(result))
            examine(root, values, nonces, what)
            if op[0] == 'store' and fault.hit not in ('unlink', 'remove'):
                left = sorted(os.listdir(os.path.join(root, 'temp')))
                expect_eq(left, ['tmpleftover'] if case['init']['junk'] else [], '%s: files left behind' % what)
            ctx.label('failing %s' % fault.hit, 'raised' if result == 'raised' else 'coped')
            runner(FileOpenIDStore(root), op)()
            examine(root, allowed(w, [op], True), nonces, what + ', done again')
        ctx.nt(len(calls) > 1)
        ctx.label(op[0])


# ---- damaged files
damage_case = st.fixed_dictionaries({'init': st.fixed_dictionaries({'assocs': st.lists(assoc, min_size=1, max_size=4), 'nonces': st.lists(nonce, max_size=2), 'junk': st.booleans(), 'old_nonce': st.booleans()}),
                                     'damage': st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['cut', 'cut', 'empty', 'garbage', 'version', 'more', 'zeros', 'latin']), st.integers(0, 150)).map(list), min_size=1, max_size=2),
                                     'op': operation})


def check_damage(ctx, case):
    op = case['op']
    with World(case['init']) as w:
        files = sorted(os.path.join(d, n) for d, _, names in os.walk(w.root) for n in names if n != 'tmpleftover' and os.path.getsize(os.path.join(d, n)))
        hurt = set()
        for which, how, at in case['damage']:
            name = files[which % len(files)]
            hurt.add(name)
            with open(name, 'rb') as f:
                text = f.read()
            at = at % (len(text) or 1)
            text = {'cut': text[:at], 'empty': b'', 'garbage': b'\xff\xfe\x00' * 7, 'version': text.replace(b'version:2', b'version:1'), 'more': text + b'more:1\n', 'zeros': b'\0' * len(text),
                    'latin': text.replace(b'handle:h', b'handle:\xe9')}[how]
            with open(name, 'wb') as f:
                f.write(text)
            ctx.label(how)
        values = allowed(w, [op], True)
        for key in values:
            if not (op[0] == 'store' and key == (URLS[op[1][0]], HANDLES[op[1][1]])):
                values[key] = values[key] | {None}
        copy = w.scratch()
        shutil.copytree(w.root, copy)
        old = sum(1 for f in w.assocs.values() if expired(f))
        removed = FileOpenIDStore(copy).cleanupAssociations()
        expect(old - len(hurt) <= removed <= old, 'clean-up removed %r of %d expired associations, %d files are damaged', removed, old, len(hurt))
        store = FileOpenIDStore(w.root)
        result = runner(store, op)()
        if op[0] in ('get', 'best'):
            keys = [k for k in values if k[0] == URLS[op[1]] and (op[0] == 'best' or k[1] == HANDLES[op[2]])]
            expect(any(fields(result) in values[k] for k in keys), '%r returned %r', op, fields(result))
        nonces = set(w.nonces)
        if op[0] == 'nonce' and result:
            nonces.add((URLS[op[1][0]], NOW + op[1][1], op[1][2]))
        what = 'after %r with damaged files' % (op,)
        present = examine(w.root, values, nonces, what)
        lost = [k for k, f in w.assocs.items() if not expired(f) and present[k] is None and k != ((URLS[op[1]], HANDLES[op[2]]) if op[0] == 'remove' else (URLS[op[1][0]], HANDLES[op[1][1]]) if op[0] == 'store' else None)]
        expect(len(lost) <= len(hurt), '%s: lost %r', what, lost)
        # damage does not come back, and what is stored now is found
        for key in lost:
            a = Association(key[1], b'\1' * 20, NOW, 3600, 'HMAC-SHA1')
            store.storeAssociation(key[0], a)
            expect_eq(fields(FileOpenIDStore(w.root).getAssociation(*key)), fields(a), what + ': association stored in place of a damaged one')
        FileOpenIDStore(w.root).cleanup()
        ctx.nt(bool(lost))
        ctx.label(op[0], 'lost %d' % len(lost))


# ---- concurrent use
schedule_case = st.fixed_dictionaries({
    'init': initial,
    'ops': st.one_of(st.lists(operation, min_size=2, max_size=3), st.tuples(operation, st.integers(2, 3)).map(lambda t: [t[0]] * t[1]),
                     st.tuples(nonce, st.integers(2, 3)).map(lambda t: [['nonce', t[0]]] * t[1]),
                     st.tuples(assoc, st.sampled_from(['get', 'best', 'remove', 'store']), gen.hexbytes(20, 20)).map(
                         lambda t: [['store', t[0]], {'get': ['get', t[0][0], t[0][1]], 'best': ['best', t[0][0]], 'remove': ['remove', t[0][0], t[0][1]],
                                                      'store': ['store', t[0][:4] + [t[2]] + t[0][5:]]}[t[1]]])),
    'schedule': st.lists(st.integers(0, 2), max_size=40)})


def check_schedule(ctx, case):
    ops = case['ops']
    with World(case['init']) as w:
        inter = Interleave([runner(FileOpenIDStore(w.root), op) for op in ops], case['schedule'])
        results = inter.run()
        before = allowed(w, [], False)
        during = allowed(w, ops, False)
        for op, (kind, res) in zip(ops, results):
            if kind == 'raised':
                raise Violation('%r raised %r when run with %r' % (op, res, ops))
            if op[0] == 'get':
                expect(fields(res) in during[(URLS[op[1]], HANDLES[op[2]])], '%r returned %r', op, fields(res))
            elif op[0] == 'best':
                possible = set(v for k, vs in during.items() if k[0] == URLS[op[1]] for v in vs)
                expect(res is None or fields(res) in possible, '%r returned %r', op, fields(res))
                # some association that is not touched by anything else is there all the time
                steady = [vs for k, vs in during.items() if k[0] == URLS[op[1]] and None not in vs]
                if steady:
                    expect(res is not None, '%r found nothing', op)
            elif op[0] == 'remove':
                if during[(URLS[op[1]], HANDLES[op[2]])] == {None}:
                    expect(not res, '%r removed something', op)
        nonces = set(w.nonces)
        by_nonce = {}
        removes = {}
        for op, (kind, res) in zip(ops, results):
            if op[0] == 'nonce':
                by_nonce.setdefault((URLS[op[1][0]], NOW + op[1][1], op[1][2]), []).append(bool(res))
            elif op[0] == 'remove':
                removes.setdefault((URLS[op[1]], HANDLES[op[2]]), []).append(bool(res))
        for key, got in by_nonce.items():
            wanted = 1 if abs(key[1] - NOW) <= 18000 and key not in w.nonces else 0
            expect_eq(sum(got), wanted, 'times that nonce %r was accepted by %d concurrent uses' % (key, len(got)))
            nonces.add(key)
        for key, got in removes.items():
            if not any(op[0] == 'store' and (URLS[op[1][0]], HANDLES[op[1][1]]) == key for op in ops):
                expect_eq(sum(got), 0 if before[key] == {None} else 1, 'successful removals of %r' % (key,))
        values = allowed(w, ops, True)
        examine(w.root, values, nonces, 'after %r' % (ops,))
        left = sorted(os.listdir(os.path.join(w.root, 'temp')))
        expect_eq(left, ['tmpleftover'] if case['init']['junk'] else [], 'files left behind')
        ctx.nt(inter.switches > 1)
        ctx.label('+'.join(sorted(op[0] for op in ops)), 'switches=%d' % min(10, inter.switches))


# ---- opening
entry = st.sampled_from(['no', 'no', 'no', 'dir', 'dir', 'link', 'file'])
open_case = st.fixed_dictionaries({'base': st.sampled_from(['no', 'no parent', 'dir', 'dir', 'dir', 'link', 'file']), 'subs': st.tuples(entry, entry, entry).map(list), 'errno': st.sampled_from(['ENOSPC', 'EIO', 'EACCES', 'EROFS']),
                                   'slash': st.sampled_from(['', '/', '/./', '/x/..']), 'many': st.sampled_from([2, 2, 3]), 'schedule': st.lists(st.integers(0, 2), max_size=30)})


def check_open(ctx, case):
    base = tempfile.mkdtemp(prefix='fs')
    clock.set(NOW)
    try:
        def fresh(name):
            top = os.path.join(base, name)
            os.mkdir(top)
            os.mkdir(os.path.join(top, 'elsewhere'))
            root = os.path.join(top, 'a', 'b') if case['base'] == 'no parent' else os.path.join(top, 'root')
            if case['base'] == 'file':
                open(root, 'w').close()
            elif case['base'] == 'link':
                os.symlink(os.path.join(top, 'elsewhere'), root)
            elif case['base'] == 'dir':
                os.mkdir(root)
            if case['base'] in ('dir', 'link'):
                for sub, kind in zip(('nonces', 'associations', 'temp'), case['subs']):
                    path = os.path.join(root, sub)
                    if kind == 'dir':
                        os.mkdir(path)
                    elif kind == 'file':
                        open(path, 'w').close()
                    elif kind == 'link':
                        os.mkdir(os.path.join(top, 'elsewhere', 'to ' + sub))
                        os.symlink(os.path.join(top, 'elsewhere', 'to ' + sub), path)
            return root

        def works(store, root, what):
            url, obj = make([0, 0, -10, 3600, '00' * 20, 'HMAC-SHA1'])
            store.storeAssociation(url, obj)
            expect_eq(fields(FileOpenIDStore(root).getAssociation(url, obj.handle)), fields(obj), what + ': association')
            expect(store.useNonce(url, NOW, 'salt'), '%s: fresh nonce refused', what)
            expect(not FileOpenIDStore(root).useNonce(url, NOW, 'salt'), '%s: used nonce accepted', what)

        spelled = case['slash']
        if spelled == '/x/..' and case['base'] == 'no parent':
            spelled = ''
        bad = case['base'] == 'file' or (case['base'] in ('dir', 'link') and 'file' in case['subs'])
        root = fresh('plain')
        calls = []
        if bad:
            expect_raises(OSError, 'a store where there is a file', FileOpenIDStore, root + spelled)
        else:
            calls = count_fs(lambda: FileOpenIDStore(root + spelled))
            works(FileOpenIDStore(root + spelled), root, 'new store')
            for k in range(len(calls)):
                root = fresh('fault%d' % k)
                fault = Fault(k, getattr(errno, case['errno']))
                what = '%s in call %d (%s) of opening' % (case['errno'], k, calls[k])
                try:
                    store = fault.run(lambda: FileOpenIDStore(root))
                except OSError:
                    ctx.label('raised')
                    store = FileOpenIDStore(root)
                works(store, root, what)
            root = fresh('race')
            inter = Interleave([lambda: FileOpenIDStore(root)] * case['many'], case['schedule'])
            for kind, res in inter.run():
                expect(kind == 'ok', 'opening a store while others do so raises %r', res)
            works(res, root, 'after opening at the same time')
            ctx.label('switches=%d' % min(5, inter.switches))
        ctx.nt(bad or len(calls) > 1)
        ctx.label('refused' if bad else 'opened')
    finally:
        shutil.rmtree(base)


FACETS = [
    Facet('crash', crash_case, check_crash, 480, rule='the operation changes the directory', cpu=60),
    Facet('fault', fault_case, check_fault, 480, rule='the operation makes two or more file system calls', cpu=60),
    Facet('open', open_case, check_open, 400, rule='there is a file in the way, or something is to be created'),
    Facet('damage', damage_case, check_damage, 1600, rule='an association was lost by the damage'),
    Facet('schedule', schedule_case, check_schedule, 1600, rule='the schedule switches between the operations more than once'),
]
