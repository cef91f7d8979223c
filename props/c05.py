"""Nonces: the store contract and the nonce format."""
import calendar
import datetime

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen
from vf.env import clock
from vf.stores import ALL_KINDS, Box
from vf.threads import together
from openid.store import nonce

ASSUMPTIONS = ['the clock does not go backwards', 'text without surrogates', 'timestamps are not negative',
               'the MySQL and PostgreSQL stores run on SQLite behind a stand-in for their drivers, with text for character columns and bytes for binary ones']

SKEW = 5 * 3600
URLS = ['http://op.example/', 'http://op.example/x', 'https://op.example/', 'HTTP://op.example/', 'http://op.example', '',
        'http://op.example/?a=b', 'http://op.example:80/', 'http://op.examplf/', 'xri://op', 'op.example', 'http://op.ex\xe4mple/',
        'http://op.example/' + 'a' * 300, 'http://op.example/' + 'a' * 299 + 'b', 'http://' + 'h' * 300 + '/', '\x00', 'a/b://c',
        'http://op.example/x y', 'http://op.example/_20', 'http://op.example/ ']
SALTS = ['', 'abcdef', 'abcdeg', 'abcdef=', 'abcdef==', '-abcdef', 'ABCDEF', 'abcde', 'a/b', 'a-b', '..', '\xe9', '\u0301e', 'abcdef ', 'x' * 300, 'x' * 299 + 'y', '\n', "'", '%s',
         '\x00', 'a\x00b', '+', '_', 'abcdefghij' * 6 + '1', 'abcdefghij' * 6 + '2']
OFFSETS = [0, 1, -1, SKEW, -SKEW, SKEW + 1, -SKEW - 1, SKEW - 1, 1 - SKEW, 60, -60, 10 * SKEW, -10 * SKEW, 21600, -21600, -17999, 256, -256,
           -65536, 65536]
nonce_op = st.one_of(
    st.tuples(st.just('use'), st.integers(0, 4), st.one_of(st.sampled_from(OFFSETS), st.integers(-SKEW - 5, SKEW + 5)), st.integers(0, 4)),
    st.tuples(st.just('use'), st.integers(0, 4), st.sampled_from([0, 1, -1, 256]), st.integers(0, 4)),
    st.tuples(st.just('again'), st.integers(0, 30)),
    st.tuples(st.just('again'), st.integers(0, 30)),
    # an earlier one with another server URL, salt or time
    st.tuples(st.just('like'), st.integers(0, 30), st.sampled_from([0, 0, 1, 2]), st.integers(0, 4)),
    st.tuples(st.just('like'), st.integers(0, 30), st.sampled_from([0, 0, 1, 2]), st.integers(0, 4)),
    st.tuples(st.just('advance'), st.sampled_from([0, 0.5, 1, 60, 3600, SKEW - 1, SKEW, SKEW + 1, 2 * SKEW, 0.25, 17999.5])),
    st.tuples(st.just('cleanup'), st.sampled_from(['cleanup', 'cleanupNonces', 'cleanupAssociations'])),
    st.tuples(st.just('reopen')),
).map(list)
store_case = st.fixed_dictionaries({
    'kind': st.sampled_from(ALL_KINDS), 'start': st.sampled_from([1500000000, 1500000000.5, 1234567890.999, SKEW + 10]),
    'urls': gen.texts_alike(URLS, 5),
    'salts': gen.texts_alike(SALTS, 5),
    'ops': gen.history(nonce_op),
})


def check_store(ctx, case):
    clock.set(case['start'])
    used = {}
    history = []
    reused = cleaned = 0
    with Box(case['kind']) as box:
        for op in case['ops']:
            now = clock.time()
            if op[0] == 'advance':
                clock.advance(op[1])
            elif op[0] == 'reopen':
                box.reopen()
            elif op[0] == 'cleanup':
                res = getattr(box.store, op[1])()
                if op[1] == 'cleanupAssociations':
                    continue
                old = [k for k, present in used.items() if present is not False and k[1] < now - SKEW]
                sure = [k for k in old if k[1] < int(now) - SKEW]
                if op[1] == 'cleanupNonces':
                    # it counts the nonces it discards, which are too old to be used
                    low = len([k for k in sure if used[k]])
                    expect(low <= res <= len(old), 'cleanupNonces returned %r, %d to %d nonces have expired', res, low, len(old))
                    cleaned += res
                expect_eq(box.store.cleanupNonces(), 0, 'nonces removed by a second cleanup')
                for k in old:
                    used[k] = False if k in sure else None
            else:
                if op[0] == 'use':
                    key = (case['urls'][op[1]], max(0, int(now) + op[2]), case['salts'][op[3]])
                elif history:
                    key = history[op[1] % len(history)]
                    if op[0] == 'like':
                        other = [case['urls'][op[3]], key[1] + op[3], case['salts'][op[3]]][op[2]]
                        key = key[:op[2]] + (other,) + key[op[2] + 1:]
                else:
                    continue
                history.append(key)
                fresh = abs(key[1] - now) <= SKEW
                wanted = fresh and key not in used
                got = box.store.useNonce(*key)
                expect_eq(bool(got), wanted, '%s useNonce%r at %r (used before: %s)' % (case['kind'], key, now, key in used))
                reused += key in used
                if wanted:
                    used[key] = True
                ctx.label('fresh' if fresh else 'stale', 'new' if wanted else 'refused')
    ctx.label(case['kind'])
    ctx.nt(reused > 0 and len(used) > 1)
    if cleaned:
        ctx.label('cleaned')


# ---- format
stamp = st.one_of(st.integers(0, 2 ** 31), st.sampled_from([0, 1, 86399, 951782400, 1230767999, 1456704000, 1483228799, 4102444800, 253402300799]))
fmt_case = st.fixed_dictionaries({'when': stamp, 'salt': st.one_of(gen.tricky_text, gen.ident)})


def iso(ts):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ts)).strftime('%Y-%m-%dT%H:%M:%SZ')


def check_format(ctx, case):
    when = case['when']
    made = nonce.mkNonce(when)
    expect_eq(made[:20], iso(when), 'time in a nonce made for %d' % when)
    expect(len(made) > 20 and all(33 <= ord(c) <= 126 for c in made), 'bad nonce %r', made)
    expect_eq(nonce.split(made), (when, made[20:]), 'split(mkNonce(when))')
    expect_eq(nonce.split(iso(when) + case['salt']), (when, case['salt']), 'split')
    clock.set(when + 0.75)
    expect_eq(nonce.split(nonce.mkNonce())[0], when, 'time in a nonce made now')
    ctx.nt(bool(case['salt']))
    expect(len(set(nonce.mkNonce(when) for _ in range(40))) == 40, 'nonces made in the same second repeat')


skew_case = st.fixed_dictionaries({
    'now': st.one_of(st.integers(10 ** 6, 2 ** 31), st.sampled_from([1500000000, 86400 * 365])), 'skew': st.sampled_from([None, 0, 1, 60, 3600, SKEW, 10 ** 6]),
    'offset': st.one_of(st.sampled_from([-1, 0, 1]).map(lambda d: ['past', d]), st.sampled_from([-1, 0, 1]).map(lambda d: ['future', d]),
                        st.integers(-2 * SKEW, 2 * SKEW).map(lambda d: ['now', d])),
    'given': st.booleans(), 'salt': gen.tricky_text})


def check_skew(ctx, case):
    skew = SKEW if case['skew'] is None else case['skew']
    base = {'past': case['now'] - skew, 'future': case['now'] + skew, 'now': case['now']}[case['offset'][0]]
    ts = max(0, base + case['offset'][1])
    kw = {} if case['skew'] is None else {'allowed_skew': case['skew']}
    if case['given']:
        clock.set(17)
        kw['now'] = case['now']
    else:
        clock.set(case['now'])
    got = nonce.checkTimestamp(iso(ts) + case['salt'], **kw)
    expect_eq(got, abs(ts - case['now']) <= skew, 'checkTimestamp of %s at %s with %s' % (iso(ts), iso(case['now']), kw))
    ctx.nt(case['offset'][0] != 'now')
    ctx.label('current' if got else 'not current')


def _valid(ts):
    return iso(ts)


bad_case = st.one_of(
    st.fixed_dictionaries({'when': stamp, 'pos': st.integers(0, 19), 'char': st.sampled_from('xX-:T Z/0\u20ac')}),
    st.fixed_dictionaries({'when': stamp, 'cut': st.integers(0, 19)}),
    st.fixed_dictionaries({'text': st.one_of(
        gen.tricky_text,
        st.tuples(st.integers(0, 9999), st.integers(0, 14), st.integers(0, 33), st.integers(0, 25), st.integers(0, 63), st.integers(0, 63), gen.ident).map(
            lambda t: '%04d-%02d-%02dT%02d:%02d:%02dZ%s' % t))}))


def check_bad(ctx, case):
    if 'text' in case:
        text = case['text']
    elif 'cut' in case:
        text = iso(case['when'])[:case['cut']]
    else:
        good = iso(case['when'])
        text = good[:case['pos']] + case['char'] + good[case['pos'] + 1:]
    verdict = None
    try:
        parts = [int(text[a:b]) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
        shape = len(text) >= 20 and text[4] == text[7] == '-' and text[10] == 'T' and text[13] == text[16] == ':' and text[19] == 'Z' and \
            all(c in '0123456789' for i, c in enumerate(text[:20]) if i not in (4, 7, 10, 13, 16, 19))
        if shape:
            secs = calendar.timegm(datetime.datetime(*parts).utctimetuple())
            verdict = secs if secs >= 0 else False
        else:
            verdict = False
    except ValueError:
        verdict = False
        # a second of 60 or 61 is left open
        if len(text) >= 20 and text[17:19] in ('60', '61'):
            verdict = None
    if any(c in ' \t\n\r\x0b\x0c' or ord(c) > 127 for c in text[:20]):
        if verdict is False:
            verdict = None     # leniency about whitespace and other digits is left open
    if verdict is False:
        expect_raises(ValueError, 'split(%r)' % text, nonce.split, text)
        expect_eq(nonce.checkTimestamp(text), False, 'checkTimestamp(%r)' % text)
        ctx.label('malformed')
    elif verdict is not None:
        expect_eq(nonce.split(text), (verdict, text[20:]), 'split(%r)' % text)
        ctx.label('well formed')
    else:
        try:
            ts, salt = nonce.split(text)
        except ValueError:
            pass
        else:
            expect(ts >= 0 and salt == text[20:], 'split(%r) gave %r', text, (ts, salt))
    ctx.nt('text' not in case or len(case['text']) >= 20)


thread_case = st.fixed_dictionaries({
    'kind': st.sampled_from(['memory', 'memory', 'memory', 'file']), 'threads': st.lists(st.lists(st.one_of(st.integers(0, 11), st.integers(0, 11), st.integers(0, 3), st.just('cleanup')), min_size=6, max_size=30), min_size=2, max_size=4),
    'offsets': st.lists(st.sampled_from([0, 0, 1, -1, SKEW - 1, 1 - SKEW, -SKEW - 1, SKEW + 1]), min_size=12, max_size=12)})


def check_threads(ctx, case):
    clock.set(1500000000)
    with Box(case['kind']) as box:
        nonces = [(URLS[i % 3], 1500000000 + o, SALTS[i % 5]) for i, o in enumerate(case['offsets'])]

        def runner(ops):
            def run():
                got = []
                for op in ops:
                    if op == 'cleanup':
                        box.store.cleanupNonces()
                    else:
                        got.append((nonces[op], box.store.useNonce(*nonces[op])))
                return got
            return run
        accepted = {}
        for got in together([runner(ops) for ops in case['threads']]):
            for n, ok in got:
                accepted[n] = accepted.get(n, 0) + bool(ok)
    for n, times in accepted.items():
        expect_eq(times, 1 if abs(n[1] - 1500000000) <= SKEW else 0, 'how many threads were told that nonce %r is new' % (n,))
    ctx.label(case['kind'])
    ctx.nt(len(accepted) >= 3)


FACETS = [
    Facet('threads', thread_case, check_threads, 1200, rule='at least three nonces'),
    Facet('store', store_case, check_store, 2400, rule='some nonce is presented again and two or more were accepted'),
    Facet('format', fmt_case, check_format, 1200, rule='a salt is given'),
    Facet('skew', skew_case, check_skew, 4000, rule='the time is at an edge of the window'),
    Facet('malformed', bad_case, check_bad, 5000, rule='close to a well formed nonce'),
]
