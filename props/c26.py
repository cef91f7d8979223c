"""Provider authentication policies: requests and answers on the wire."""
import warnings

from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.trip import login
from openid.consumer.consumer import SuccessResponse
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import pape
from openid.message import Message

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from openid.extensions.draft import pape2, pape5

ASSUMPTIONS = ['policies and level types are texts without whitespace, level values have no newline', 'times are ASCII']
PAPE = 'http://specs.openid.net/extensions/pape/1.0'
NONE = 'http://schemas.openid.net/pape/policies/2007/06/none'
POLICIES = ['http://schemas.openid.net/pape/policies/2007/06/' + p for p in ('phishing-resistant', 'multi-factor', 'multi-factor-physical')] + ['http://x.example/policy', 'http://x.example/policy2', 'http://x.example/p,q', 'urn:\xe9', 'None']
NIST = 'http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf'
JISA = 'http://www.jisa.or.jp/spec/auth_level.html'
LEVELS = [NIST, JISA, 'http://x.example/levels', 'http://x.example/levels2', 'http://x.example/levels/\xe9', 'urn:l']
ALIASES = ['nist', 'jisa', 'cust0', 'cust1', 'a', 'b', 'NIST', 'a-b']
AGES = [None, None, 0, 1, 60, 3600, 10 ** 12]
GOOD_TIMES = ['2007-01-01T00:00:00Z', '1999-12-31T23:59:59Z', '9999-12-31T00:00:00Z', '0000-00-00T00:00:00Z']
BAD_TIMES = ['', ' ', '2007-01-01', '2007-01-01T00:00:00', '2007-01-01T00:00:00z', '2007-01-01 00:00:00Z', '2007-01-01T00:00:00+01:00', '2007-01-01T00:00:00.5Z', '07-01-01T00:00:00Z', 'x2007-01-01T00:00:00Z', '2007-01-01T00:00:00ZZ', 'now', '1167609600']
policy = st.sampled_from(POLICIES)
MANY = LEVELS + ['http://x.example/l%d' % i for i in range(16)]
some_levels = st.sampled_from([3, 3, 3, 22]).flatmap(lambda n: st.lists(st.sampled_from(LEVELS), max_size=3) if n == 3 else st.permutations(MANY).flatmap(lambda l: st.integers(8, n).map(lambda k: list(l[:k]))))
alias = st.sampled_from([None] * 6 + ALIASES)
level_value = st.one_of(st.sampled_from(['1', '2', '0', '4', '', ' ', 'high', '1 2', '\xe9', 0, 1, 3, 7]), gen.nonl(gen.xml_text))
request = st.fixed_dictionaries({'policies': st.one_of(st.none(), st.lists(policy, max_size=3, unique=True)), 'age': st.sampled_from(AGES), 'levels': st.one_of(st.none(), some_levels),
                                 'ops': st.lists(st.sampled_from([0, 1]).flatmap(lambda k: st.tuples(st.just('policy'), policy, st.none()) if k else st.tuples(st.just('level'), st.sampled_from(LEVELS), alias)).map(list), max_size=5)})
response = st.fixed_dictionaries({'policies': st.one_of(st.none(), st.lists(policy, max_size=3, unique=True)), 'time': st.sampled_from([None] * 3 + GOOD_TIMES * 2 + BAD_TIMES[:6]), 'levels': st.one_of(st.none(), st.dictionaries(st.sampled_from(LEVELS), level_value, max_size=3), st.tuples(some_levels, st.lists(level_value, min_size=22, max_size=22)).map(lambda t: dict(zip(t[0], t[1])))),
                                  'ops': st.lists(st.sampled_from([0, 1]).flatmap(lambda k: st.tuples(st.just('policy'), st.sampled_from(POLICIES + [NONE]), st.none(), st.none()) if k else st.tuples(st.just('level'), st.sampled_from(LEVELS), level_value, alias)).map(list), max_size=5)})
trip = st.fixed_dictionaries({'request': request, 'response': response, 'supported': st.lists(policy, max_size=5, unique=True), 'answer': st.sampled_from([True] * 6 + [False])})


def conflicts(aliases, uri, a):
    """Whether naming uri with the alias is refused; keeps book otherwise."""
    if a is None:
        return False
    if aliases.get(a, uri) != uri:
        return True
    aliases[a] = uri
    return False


def check_trip(ctx, case):
    clock.set(1500000000)
    q, a = case['request'], case['response']
    r = pape.Request(None if q['policies'] is None else list(q['policies']), q['age'], q['levels'])
    policies = list(q['policies'] or [])
    levels = list(dict.fromkeys(q['levels'] or []))
    book = {'nist': NIST, 'jisa': JISA}
    custom = [u for u in levels if u not in (NIST, JISA)]
    book.update({'cust%d' % i: u for i, u in enumerate(custom)})
    sure = True
    for kind, uri, al in q['ops']:
        if kind == 'policy':
            r.addPolicyURI(uri)
            policies += [uri] if uri not in policies else []
            continue
        if al in ('cust0', 'cust1'):
            sure = False  # which of these generated aliases have been given away is up to the library
        if sure:
            if conflicts(book, uri, al):
                ctx.label('alias taken')
                expect_raises(KeyError, 'alias %r for another level' % al, r.addAuthLevel, uri, al)
                continue
            r.addAuthLevel(uri, al)
        else:
            try:
                r.addAuthLevel(uri, al)
            except KeyError:
                expect(al in ('cust0', 'cust1') or book.get(al, uri) != uri, 'alias refused')
                continue
            conflicts(book, uri, al)
        levels += [uri] if uri not in levels else []
    expect_eq(bool(r), bool(policies or levels or q['age'] is not None), 'whether the request says anything')
    sent = {}

    def ask(auth):
        auth.addExtension(r)

    def answer(asked, out):
        before = asked.message.toPostArgs()
        p = pape.Request.fromOpenIDRequest(asked)
        expect_eq(asked.message.toPostArgs(), before, 'request after reading it')
        expect(p is not None, 'no request')
        expect_eq((p.preferred_auth_policies, p.max_auth_age, p.preferred_auth_level_types), (policies, q['age'], levels), 'request that the provider reads')
        expect_eq(list(p.preferredTypes(case['supported'])), [u for u in case['supported'] if u in policies], 'preferred types')
        d = pape2.Request.fromOpenIDRequest(asked)
        expect_eq((d.preferred_auth_policies, d.max_auth_age, list(d.preferredTypes(case['supported']))), (policies, q['age'], [u for u in case['supported'] if u in policies]), 'request that a provider of draft 2 reads')
        if not case['answer']:
            return
        s = pape.Response(a['policies'] and list(a['policies']), a['time'], a['levels'] and dict(a['levels']))
        got = list(a['policies'] or [])
        vals = {k: str(v) for k, v in (a['levels'] or {}).items()}
        book = {'nist': NIST, 'jisa': JISA}
        for op in a['ops']:
            if op[0] == 'policy':
                if op[1] == NONE:
                    expect_raises(RuntimeError, 'the policy of no policies', s.addPolicyURI, NONE)
                else:
                    s.addPolicyURI(op[1])
                    got += [op[1]] if op[1] not in got else []
                continue
            uri, v, al = op[1:]
            if al in ('cust0', 'cust1'):
                al = None
            if conflicts(book, uri, al):
                expect_raises(KeyError, 'alias %r for another level' % al, s.setAuthLevel, uri, v, al)
            else:
                s.setAuthLevel(uri, v, al)
                vals[uri] = str(v)
        if a['time'] is not None and a['time'] not in GOOD_TIMES:
            ctx.label('bad time')
            expect_raises(ValueError, 'time %r' % a['time'], s.getExtensionArgs)
            return
        sent.update(policies=got, levels=vals)
        out.addExtension(s)

    def read(success):
        s = pape.Response.fromSuccessResponse(success)
        if not sent:
            expect(s is None, 'answer out of nothing')
            return
        expect(s is not None, 'no answer')
        expect_eq((s.auth_policies, s.auth_time, dict(s.auth_levels)), (sent['policies'], a['time'], sent['levels']), 'answer that the relying party reads')
        for u in MANY:
            if u in sent['levels']:
                expect_eq(s.getAuthLevel(u), sent['levels'][u], 'level')
            else:
                expect_raises(KeyError, 'level that was not sent', s.getAuthLevel, u)
        n = sent['levels'].get(NIST)
        if n is None or n in '01234':
            expect_eq(s.nist_auth_level, int(n) if n else None, 'NIST level') if n != '' else None
        expect(pape5.Response is pape.Response, 'draft 5')

    login('2', ask, answer, read)
    ctx.label('answered' if sent else 'not answered', '%d levels' % len(levels))
    ctx.nt(bool(sent and levels and (sent['levels'] or sent['policies'])))


draft2 = st.fixed_dictionaries({'policies': st.lists(policy, max_size=3, unique=True), 'age': st.sampled_from(AGES), 'add': st.lists(policy, max_size=2), 'got': st.lists(policy, max_size=3, unique=True), 'add2': st.lists(policy, max_size=2), 'time': st.sampled_from([None] + GOOD_TIMES + BAD_TIMES[:3]), 'nist': st.sampled_from([None, 0, 1, 2, 3, 4, 5, -1])})


def check_draft2(ctx, case):
    clock.set(1500000000)
    r = pape2.Request(list(case['policies']), case['age'])
    want = list(case['policies'])
    for p in case['add']:
        r.addPolicyURI(p)
        want += [p] if p not in want else []
    expect_eq(bool(r), bool(want or case['age'] is not None), 'whether the request says anything')
    got = list(case['got'])
    good = case['nist'] in (None, 0, 1, 2, 3, 4) and case['time'] in [None] + GOOD_TIMES

    def answer(asked, out):
        for cls in (pape2.Request, pape.Request):
            p = cls.fromOpenIDRequest(asked)
            expect_eq((p.preferred_auth_policies, p.max_auth_age), (want, case['age']), 'request that the provider reads')
        s = pape2.Response(list(case['got']), case['time'], case['nist'])
        for p in case['add2']:
            s.addPolicyURI(p)
            if p not in got:
                got.append(p)
        if good:
            out.addExtension(s)
        else:
            expect_raises(ValueError, 'bad level or time', s.getExtensionArgs)

    def read(success):
        if good:
            s = pape2.Response.fromSuccessResponse(success)
            expect_eq((s.auth_policies, s.auth_time, s.nist_auth_level), (got, case['time'], case['nist']), 'answer that the relying party reads')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = pape.Response.fromSuccessResponse(success)
            expect_eq((s.auth_policies, s.auth_time), (got, case['time']), 'answer that a relying party of draft 5 reads')

    login('2', lambda auth: auth.addExtension(r), answer, read)
    ctx.nt(bool(good and want and got))


plist = st.lists(st.sampled_from(POLICIES * 2 + ['none', NONE]), max_size=4).map(' '.join)
age = st.sampled_from(['0', '1', '3600', '007', '', 'x', '1.5', '1h', '0x10', '--1'])
als = st.sampled_from(ALIASES[:6])
wire = st.fixed_dictionaries({'v': st.sampled_from(['2', '2', '1.1', '1']), 'ns': st.sampled_from([True] * 5 + [False]), 'alias': st.sampled_from(['pape', 'p', 'ext0']), 'strict': st.booleans(),
                              'preferred': st.one_of(st.none(), plist), 'age': st.one_of(st.none(), age), 'types': st.one_of(st.none(), st.lists(als, max_size=3)), 'decl': st.dictionaries(als, st.sampled_from(LEVELS), max_size=3),
                              'policies': st.one_of(plist, plist, plist, st.none()), 'levels': st.dictionaries(als, level_value.map(str), max_size=3), 'time': st.one_of(st.none(), st.sampled_from(GOOD_TIMES), st.sampled_from(GOOD_TIMES), st.sampled_from(BAD_TIMES)), 'unsigned': st.sampled_from([False] * 5 + [True])})


class Holder(object):
    pass


def check_wire(ctx, case):
    v1 = case['v'] != '2'
    default = {'nist': NIST, 'jisa': JISA} if v1 else {}
    decl = {'auth_level.ns.' + k: v for k, v in case['decl'].items()}

    def message(args):
        wired = {'openid.mode': 'x'}
        if case['v'] != '1':
            wired['openid.ns'] = {'2': ref.OPENID2, '1.1': ref.OPENID11}[case['v']]
        wired['openid.ns.' + case['alias']] = PAPE if case['ns'] else 'http://other.example/'
        wired.update(('openid.%s.%s' % (case['alias'], k), v) for k, v in args.items())
        return Message.fromPostArgs(wired)

    # a request
    args = dict(decl)
    bad = False
    want = [], None, []
    if case['preferred'] is not None:
        args['preferred_auth_policies'] = case['preferred']
        want = list(dict.fromkeys(case['preferred'].split())), None, []
    if case['age'] is not None:
        args['max_auth_age'] = case['age']
        if case['age'].isdigit():
            want = want[0], int(case['age']), []
        elif case['age']:
            bad = True
    if case['types'] is not None:
        args['preferred_auth_level_types'] = ' '.join(case['types'])
        for a in case['types']:
            uri = case['decl'].get(a, default.get(a))
            if uri is None:
                bad = True
            elif uri not in want[2]:
                want[2].append(uri)
    p = pape.Request()
    if case['strict'] and bad:
        ctx.label('request refused')
        expect_raises(ValueError, 'malformed request', p.parseExtensionArgs, dict(args), v1, strict=True)
    else:
        p.parseExtensionArgs(dict(args), v1, strict=case['strict'])
        expect_eq((p.preferred_auth_policies, p.max_auth_age, p.preferred_auth_level_types), want, 'request')
        again = pape.Request()
        again.parseExtensionArgs(p.getExtensionArgs(), False, strict=True)
        expect_eq((again.preferred_auth_policies, again.max_auth_age, again.preferred_auth_level_types), want, 'request written and read again')
    h = Holder()
    h.message = message(args)
    p = pape.Request.fromOpenIDRequest(h)
    if not args or not case['ns']:
        expect_eq(p, None, 'request without policies')
    else:
        expect_eq((p.preferred_auth_policies, p.max_auth_age, p.preferred_auth_level_types), want, 'request in a message')
    # an answer
    args = dict(decl)
    bad = not case['policies']
    got = (case['policies'] or '').split()
    if case['policies'] is not None:
        args['auth_policies'] = case['policies']
        if len(got) > 1 and NONE in got or 'none' in got:
            bad = True
    got = [u for u in got if u not in ('none', NONE)]
    time = None
    if case['time'] is not None:
        args['auth_time'] = case['time']
        if case['time'] in GOOD_TIMES:
            time = case['time']
        elif case['time']:
            bad = True
    levels = {}
    for a, v in case['levels'].items():
        args['auth_level.' + a] = v
        uri = case['decl'].get(a, default.get(a))
        if uri is None:
            bad = True
        else:
            levels.setdefault(uri, set()).add(v)

    def judge(s, what):
        expect_eq((s.auth_policies, s.auth_time), (got, time), what)
        expect_eq(sorted(s.auth_levels), sorted(levels), 'levels of ' + what)
        for u in levels:
            expect(s.getAuthLevel(u) in levels[u], 'level %r of %s', s.getAuthLevel(u), u)

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = pape.Response()
        if case['strict'] and bad:
            ctx.label('answer refused')
            expect_raises(ValueError, 'malformed answer', s.parseExtensionArgs, dict(args), v1, strict=True)
        else:
            s.parseExtensionArgs(dict(args), v1, strict=case['strict'])
            judge(s, 'answer')
            again = pape.Response()
            again.parseExtensionArgs(s.getExtensionArgs(), False, strict=True)
            judge(again, 'answer written and read again')
        m = message(args)
        signed = ['openid.%s.%s' % (case['alias'], k) for k in args]
        if case['unsigned'] and signed:
            signed.pop(len(case['decl']) % len(signed))
        e = OpenIDServiceEndpoint()
        e.claimed_id = 'http://user.example/'
        s = pape.Response.fromSuccessResponse(SuccessResponse(e, m, signed))
    if not args or not case['ns'] or case['unsigned']:
        expect_eq(s, None, 'message without signed policies')
    else:
        judge(s, 'answer in a message')
    ctx.nt(bool(args and case['ns']))


FACETS = [Facet('trip', trip, check_trip, quick=6000, rule='levels are requested and an answer with policies or levels is read'), Facet('draft2', draft2, check_draft2, quick=2500, rule='policies are requested and an answer with policies is read'),
          Facet('wire', wire, check_wire, quick=10000, rule='the message has policy arguments')]
