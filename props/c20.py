"""Histories of attempts within sessions, against a model of what is left to try."""
import collections.abc
import hashlib
import pickle

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import ref
from vf.env import clock
from vf.stores import Box
from vf.web import Web
from openid import fetchers
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import DiscoveryFailure
from openid.yadis.manager import Discovery

ASSUMPTIONS = ['sessions are mappings that pickle what is stored in them', 'an identifier is entered as it was before, or as discovery found it']
NOW = 1500000000
T2, TS, T11, T10 = 'http://specs.openid.net/auth/2.0/signon', 'http://specs.openid.net/auth/2.0/server', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0'
# what is entered -> what is found
IDS = {'a.example': 'http://a.example/', 'http://a.example/': 'http://a.example/', 'http://b.example/x': 'http://b.example/x', 'http://b.example/x/': 'http://b.example/x/', 'redirected.example': 'http://c.example/', 'http://c.example/': 'http://c.example/', 'http://a.example/b': 'http://a.example/b', 'http://a.example/B': 'http://a.example/B', 'http://a.example/b?q=1': 'http://a.example/b?q=1', 'http://a.example/b#frag': 'http://a.example/b'}
FOUND = sorted(set(IDS.values()))
WHO = 'http://who.example/'
service = st.tuples(st.integers(0, 5), st.sampled_from(['2', '2', '2', '1.1', '1.0', 'op'])).map(list)
page = st.sampled_from(['some'] * 6 + ['none', 'error']).flatmap(lambda k: st.lists(service, min_size=1, max_size=5, unique_by=tuple) if k == 'some' else st.just([]) if k == 'none' else st.none())
where = {'user': st.sampled_from([0, 0, 0, 1]), 'prefix': st.sampled_from([0] * 5 + [1])}
begin = st.fixed_dictionaries(dict(where, do=st.just('begin'), id=st.sampled_from(sorted(IDS)), again=st.sampled_from([True, True, True, False]), anonymous=st.sampled_from([False, False, False, True])))
complete = st.fixed_dictionaries(dict(where, do=st.just('complete'), outcome=st.sampled_from(['success', 'failure', 'cancel', 'error', 'setup_needed', 'garbage'])))
change = st.fixed_dictionaries({'do': st.just('change'), 'id': st.sampled_from(FOUND), 'page': page})
other = st.fixed_dictionaries(dict(where, do=st.sampled_from(['foreign', 'cleanup'])))
step = st.sampled_from(['begin'] * 6 + ['complete'] * 3 + ['change', 'other']).flatmap(lambda k: {'begin': begin, 'complete': complete, 'change': change, 'other': other}[k])
case = st.fixed_dictionaries({'pages': st.lists(page, min_size=len(FOUND), max_size=len(FOUND)), 'steps': st.lists(step, min_size=3, max_size=18)})


class Session(collections.abc.MutableMapping):
    """A session that keeps what was stored in it as it was then, as sessions in files or databases do."""

    def __init__(self):
        self.data = {}

    def __getitem__(self, key):
        return pickle.loads(self.data[key])

    def __setitem__(self, key, value):
        self.data[key] = pickle.dumps(value)

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


class Other(Consumer):
    session_key_prefix = 'second_'


def secret(server):
    return hashlib.sha1(server.encode()).digest()


def server_url(n):
    return 'http://op%d.example/?s' % n


def types(kind):
    return {'2': [T2], '1.1': [T11], '1.0': [T10], 'op': [TS]}[kind]


def order(page):
    """Services in the order they are to be tried: provider identifiers come first."""
    return [s for s in page if s[1] == 'op'] + [s for s in page if s[1] != 'op']


def check(ctx, case):
    clock.set(NOW)
    pages = dict(zip(FOUND, case['pages']))

    def serve(found):
        def answer(body, headers):
            p = pages[found]
            if p is None:
                return fetchers.HTTPFetchingError('no')
            text = ''.join('<Service priority="%d">%s<URI>%s</URI></Service>' % (i, ''.join('<Type>%s</Type>' % t for t in types(s[1])), server_url(s[0])) for i, s in enumerate(p))
            return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s</XRD></x:XRDS>' % text).encode(), 'final': found}
        return answer

    web = Web()
    for f in FOUND:
        web.pages[f] = serve(f)
    web.pages['http://redirected.example/'] = serve('http://c.example/')
    web.pages[WHO] = {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD>%s</XRD></x:XRDS>' % ''.join(
        '<Service><Type>%s</Type><URI>%s</URI></Service>' % (T2, server_url(n)) for n in range(6))).encode()}
    sessions = [Session(), Session()]
    model = {}  # (user, prefix) -> {'start', 'found', 'rest'}
    token = {}  # (user, prefix) -> (request, service, found) or None
    last = {}
    stats = set()
    with Box('memory') as box, web:
        for n in range(6):
            box.store.storeAssociation(server_url(n), Association('h', secret(server_url(n)), NOW, 10000, 'HMAC-SHA1'))
        for s in case['steps']:
            if s['do'] == 'change':
                pages[s['id']] = s['page']
                continue
            at = (s['user'], s['prefix'])
            session = sessions[s['user']]
            consumer = (Other if s['prefix'] else Consumer)(session, box.store)
            del web.log[:]
            if s['do'] == 'begin':
                entered = last.get(at, s['id']) if s['again'] else s['id']
                found = IDS[entered]
                m = model.get(at)
                mine = m is not None and entered in (m['start'], m['found'])
                fresh = order(pages[found]) if pages[found] else None
                options = []
                if m is not None and mine and m['rest']:
                    options.append(('next', m['rest'][0]))
                if not (m is not None and mine and m['rest']) or m['unsure']:
                    options.append(('anew', fresh[0] if fresh else None))
                try:
                    request = consumer.begin(entered)
                except DiscoveryFailure as e:
                    expect(('anew', None) in options, 'discovery failure although there is something to try: %s', e)
                    if mine and not m['rest']:
                        del model[at]
                    stats.add('failure')
                    continue
                if s['anonymous'] and not request.endpoint.compatibilityMode():
                    request.setAnonymous(True)
                got = request.endpoint
                how = 'anew' if web.log else 'next'
                want = dict(options)
                expect(how in want, 'discovery %s', 'is repeated' if how == 'anew' else 'is not done')
                v = want[how]
                expect(v is not None, 'a service although discovery finds none')
                expect_eq((got.server_url, list(got.type_uris), got.claimed_id), (server_url(v[0]), types(v[1]), None if v[1] == 'op' else found if how == 'anew' else m['found']), 'service that is tried')
                if how == 'anew':
                    model[at] = {'start': entered, 'found': found, 'rest': fresh[1:], 'unsure': False}
                else:
                    m['rest'] = m['rest'][1:]
                    m['unsure'] = False
                    stats.add('next')
                token[at] = (request, v, model[at]['found'])
                last[at] = entered
            elif s['do'] == 'complete':
                t = token.pop(at, None)
                outcome = s['outcome']
                args, want = {'openid.ns': ref.OPENID2}, outcome
                rt = 'http://rp.example/'
                if outcome == 'garbage':
                    args, want = {'openid.mode': 'nonsense', 'x': 'y'}, 'failure'
                elif outcome in ('cancel', 'error', 'setup_needed'):
                    args['openid.mode'] = outcome
                    want = 'failure' if outcome == 'error' else outcome
                    if outcome == 'cancel' and t and t[1][1] in ('1.1', '1.0'):
                        del args['openid.ns']
                elif t is None:
                    # nothing that could be asserted here
                    args['openid.mode'] = 'id_res'
                    want = outcome = 'failure'
                else:
                    request, v, found = t
                    if v[1] == 'op':
                        found = WHO
                    asked = request.getMessage('http://rp.example/', rt).toPostArgs()
                    args = {'openid.mode': 'id_res', 'openid.identity': found, 'openid.return_to': asked['openid.return_to'], 'openid.assoc_handle': 'h'}
                    for k, w in request.return_to_args.items():
                        args[k] = w
                    if v[1] in ('2', 'op'):
                        args.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': found, 'openid.op_endpoint': server_url(v[0]), 'openid.response_nonce': '2017-07-14T02:40:00Z%d' % len(used(stats))})
                        stats.add('nonce%d' % len(used(stats)))
                    args['openid.signed'] = ','.join(sorted(k[7:] for k in args if k.startswith('openid.') and k not in ('openid.ns', 'openid.mode')))
                    args['openid.sig'] = ref.message_sig('HMAC-SHA1', secret(server_url(v[0])), args)
                    if outcome == 'failure':
                        args['openid.sig'] = 'AAAA'
                got = consumer.complete(args, rt)
                expect_eq(got.status, want, 'outcome')
                if t is None:
                    expect_eq(got.endpoint, None, 'service of a login that was not begun')
                else:
                    expect_eq((got.endpoint.server_url, list(got.endpoint.type_uris)), (server_url(t[1][0]), [T2] if want == 'success' and t[1][1] == 'op' else types(t[1][1])), 'service that was tried last')
                m = model.get(at)
                if want == 'success' or (want == 'cancel' and t is not None and t[1][1] != 'op'):
                    model.pop(at, None)
                    left = [k for k in session if k != 'mine' and isinstance(k, str) and not (model.get((s['user'], 1 - s['prefix'])) or token.get((s['user'], 1 - s['prefix'])))]
                    expect_eq(left, [], 'what is left in the session')
                elif want == 'cancel' and m is not None:
                    # a refusal by a provider that was asked to choose the identity: the same or the next one may follow
                    m['unsure'] = True
                stats.add(want)
                again = consumer.complete({'openid.mode': 'cancel'}, rt)
                expect_eq((again.status, again.endpoint), ('cancel', None), 'second completion of a login')
            elif s['do'] == 'foreign':
                session['mine'] = 'x'
            elif s['do'] == 'cleanup':
                d = Discovery(session, last.get(at, 'http://nobody.example/'), 'second_' if s['prefix'] else Consumer.session_key_prefix)
                m = model.get(at)
                service = d.cleanup()
                if m is not None and d.url in (m['start'], m['found']):
                    expect(service is not None, 'no service to clean up')
                    del model[at]
                else:
                    expect_eq(service, None, 'service cleaned up')
            if 'mine' in session:
                expect_eq(session['mine'], 'x', 'value of the application')
    ctx.label(*(x for x in stats if not x.startswith('nonce')))
    ctx.nt('next' in stats)


def used(stats):
    return [x for x in stats if x.startswith('nonce')]


# ---- the parts on their own
URLS = {'u1': 'y1', 'u2': 'u2', 'y1': 'y1', 'u3': 'y1'}
found = st.lists(st.sampled_from(['s1', 's2', 's3', 's4']), max_size=4)
mstep = st.fixed_dictionaries({'do': st.sampled_from(['next'] * 6 + ['fail', 'cleanup', 'force', 'create', 'destroy', 'iterate', 'one']), 'url': st.sampled_from(sorted(URLS)), 'suffix': st.sampled_from([None, None, None, 'x']), 'found': found, 'known': st.booleans()})
mcase = st.fixed_dictionaries({'steps': st.lists(mstep, min_size=2, max_size=14), 'pickle': st.booleans()})


class Failed(Exception):
    pass


def check_manager(ctx, case):
    session = Session() if case['pickle'] else {}
    session['other'] = 'value'
    model = {}
    stats = set()
    for s in case['steps']:
        d = Discovery(session, s['url'], s['suffix'])
        at = s['suffix']
        m = model.get(at)
        mine = m is not None and s['url'] in (m['start'], m['found'])
        asked = []

        def discover(url):
            asked.append(url)
            if s['do'] == 'fail':
                raise Failed()
            return URLS[url], list(s['found'])

        if s['do'] in ('next', 'fail'):
            if mine and m['rest']:
                expect_eq(d.getNextService(discover), m['rest'][0], 'next service')
                expect_eq(asked, [], 'discovery with services left')
                m['current'] = m['rest'].pop(0)
                stats.add('next')
            else:
                if mine:
                    del model[at]
                if s['do'] == 'fail':
                    expect_raises(Failed, 'failing discovery', d.getNextService, discover)
                else:
                    expect_eq(d.getNextService(discover), (s['found'] + [None])[0], 'first service')
                    if s['found']:
                        model[at] = {'start': s['url'], 'found': URLS[s['url']], 'rest': s['found'][1:], 'current': s['found'][0]}
                expect_eq(asked, [s['url']], 'URLs discovered')
        elif s['do'] in ('cleanup', 'force', 'destroy'):
            force = s['do'] == 'force'
            gone = mine or (force and m is not None)
            if s['do'] == 'destroy':
                d.destroyManager()
            else:
                expect_eq(d.cleanup(force) if force else d.cleanup(), m['current'] if gone else None, 'last service')
            if gone:
                del model[at]
        elif s['do'] == 'create':
            yadis = URLS[s['url']] if s['known'] else None
            if mine and m['rest']:
                expect_raises(KeyError, 'second manager', d.createManager, list(s['found']), yadis)
            else:
                made = d.createManager(list(s['found']), yadis)
                if s['found']:
                    expect_eq((len(made), made.started(), made.current()), (len(s['found']), False, None), 'new manager')
                    model[at] = {'start': s['url'], 'found': yadis, 'rest': list(s['found']), 'current': None}
                else:
                    expect(made is None, 'a manager without services')
        else:
            manager = d.getManager(force=True)
            if m is not None:
                if s['do'] == 'iterate':
                    expect_eq(list(manager), m['rest'], 'services left')
                    m['rest'], m['current'] = [], m['rest'][-1] if m['rest'] else m['current']
                    stats.add('iterated')
                elif m['rest']:
                    expect_eq(next(manager), m['rest'][0], 'service')
                    m['current'] = m['rest'].pop(0)
                else:
                    expect_raises(StopIteration, 'no service left', manager.next)
                    expect_eq(next(manager, 'none'), 'none', 'no service left')
                manager.store(session)
        # what is in the session
        for suffix in (None, 'x'):
            m = model.get(suffix)
            d = Discovery(session, s['url'], suffix)
            manager = d.getManager(force=True)
            expect_eq(manager is not None, m is not None, 'manager for %r' % suffix)
            if m is not None:
                expect_eq((len(manager), bool(manager), manager.current(), manager.started()), (len(m['rest']), bool(m['rest']), m['current'], m['current'] is not None), 'state')
                expect_eq((manager.starting_url, manager.yadis_url), (m['start'], m['found']), 'URLs')
                for u in URLS:
                    expect_eq(manager.forURL(u), u in (m['start'], m['found']), 'forURL(%r)' % u)
                    expect_eq(Discovery(session, u, suffix).getManager() is not None, u in (m['start'], m['found']), 'manager for %r' % u)
        expect_eq(len(session), 1 + len(model), 'size of the session')
        expect_eq(session['other'], 'value', 'value of the application')
    ctx.label(*stats)
    ctx.nt('next' in stats)


FACETS = [Facet('attempts', case, check, quick=5000, rule='a further service is tried without discovery'),
          Facet('manager', mcase, check_manager, quick=3000, rule='a further service is tried without discovery')]
