"""Simple registration: requests and answers on the wire."""
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.trip import login
from openid.consumer.consumer import SuccessResponse
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import sreg
from openid.message import Message

ASSUMPTIONS = ['values have no newline (they could not be signed)']
FIELDS = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']
UNKNOWN = ['', 'Email', 'email ', ' email', 'phone', 'required', 'policy_url', 'e-mail', 'nick name', 'email;dob', '\xe9']
NS = ['http://openid.net/extensions/sreg/1.1', 'http://openid.net/sreg/1.0']
URLS = [None, '', 'http://rp.example/policy', 'http://rp.example/?a=b&c=d', 'http://rp.example/\xe9', ' ', 'x,y']
field = st.sampled_from(FIELDS[:4] * 3 + FIELDS + UNKNOWN[:4])
one = st.tuples(st.just('one'), field, st.booleans(), st.sampled_from([False, False, True]))
many = st.tuples(st.just('many'), st.lists(field, max_size=4), st.booleans(), st.sampled_from([False, False, True]))
plain = st.one_of(st.sampled_from(['x', '', ' ', 'a,b', '0', 'None', '1980-01-01', 'F', '\xe9\u20ac', '<&>"']), gen.nonl(gen.xml_text))
data = st.dictionaries(st.sampled_from(FIELDS * 2 + UNKNOWN), st.one_of(plain, plain, plain, st.sampled_from([None, 0, 7, False])), max_size=7)
listed = st.sampled_from([0, 0, 0, 0, 0, 1]).flatmap(lambda k: st.lists(st.sampled_from(FIELDS[:4] + UNKNOWN[:3]), max_size=3) if k else st.lists(st.sampled_from(FIELDS), max_size=3, unique=True))
build = st.fixed_dictionaries({'times': st.sampled_from([1, 1, 1, 2]), 'version': st.sampled_from(['2', '1.1', '1.0']), 'ns': st.sampled_from([0, 0, 1]), 'required': listed, 'optional': listed, 'policy': st.sampled_from(URLS),
                               'ops': st.lists(st.sampled_from([0, 0, 1]).flatmap(lambda k: many if k else one).map(list), max_size=6), 'data': data})


def model_request(required, optional, name, want, strict):
    """New (required, optional), or None if refused."""
    if name not in FIELDS:
        return None
    if strict and (name in required or name in optional):
        return None
    if name in required or (name in optional and not want):
        return required, optional
    optional = [f for f in optional if f != name]
    return (required + [name], optional) if want else (required, optional + [name])


def check_build(ctx, case):
    clock.set(1500000000)
    required, optional = [], []
    bad = False
    for names, want in ((case['required'], True), (case['optional'], False)):
        for n in names:
            new = model_request(required, optional, n, want, True)
            if new is None:
                bad = True
                break
            required, optional = new
    if bad:
        expect_raises(ValueError, 'field asked for twice', sreg.SRegRequest, case['required'], case['optional'], case['policy'], NS[case['ns']])
        return
    r = sreg.SRegRequest(case['required'], case['optional'], case['policy'], NS[case['ns']])
    for kind, names, want, strict in case['ops']:
        refused = False
        for n in [names] if kind == 'one' else names:
            new = model_request(required, optional, n, want, strict)
            if new is None:
                refused = True
                break
            required, optional = new
        if refused:
            expect_raises(ValueError, 'field that can not be requested', r.requestField if kind == 'one' else r.requestFields, names, required=want, strict=strict)
        else:
            (r.requestField if kind == 'one' else r.requestFields)(names, required=want, strict=strict)
    expect_eq((r.required, r.optional), (required, optional), 'fields of the request')
    if required + optional:
        expect_raises(TypeError, 'text instead of a list', r.requestFields, 'email')
    expect_eq((r.allRequestedFields(), r.wereFieldsRequested()), (required + optional, bool(required + optional)), 'requested fields')
    for f in FIELDS:
        expect_eq(f in r, f in required + optional, 'whether %s is in the request' % f)
    values = {k: v for k, v in case['data'].items()}
    answered = {k: str(values[k]) for k in required + optional if values.get(k) is not None}

    def ask(request):
        for _ in range(case['times']):
            request.addExtension(r)

    def answer(request, response):
        before = request.message.toPostArgs()
        p = sreg.SRegRequest.fromOpenIDRequest(request)
        expect_eq(request.message.toPostArgs(), before, 'the request after reading it')
        expect_eq((p.required, p.optional, p.policy_url), (required, optional, case['policy'] or None), 'request that the provider reads')
        out = sreg.SRegResponse.extractResponse(p, dict(values))
        expect_eq(dict(out.items()), answered, 'answer')
        expect_eq((bool(out), sorted(out.keys()), sorted(out)), (bool(answered), sorted(answered), sorted(answered)), 'answer as a dictionary')
        for _ in range(case['times']):
            response.addExtension(out)

    def read(got):
        s = sreg.SRegResponse.fromSuccessResponse(got)
        if not answered:
            expect(not s, 'data although none was given: %r', s and s.data)
            return
        expect(s is not None, 'no data')
        expect_eq(dict(s.items()), answered, 'data that the relying party reads')
        for f in FIELDS:
            expect_eq((s.get(f, 'default'), f in s), (answered.get(f, 'default'), f in answered), f)
            if f in answered:
                expect_eq(s[f], answered[f], f)
            else:
                expect_raises(KeyError, 'missing field', s.__getitem__, f)
        for f in UNKNOWN:
            expect_raises(ValueError, 'unknown field', s.get, f)
            expect_raises(ValueError, 'unknown field', s.__getitem__, f)

    login(case['version'], ask, answer, read)
    ctx.label('v' + case['version'] + (', added twice' if case['times'] == 2 else ''), 'answered %d' % len(answered))
    ctx.nt(len(required + optional) >= 2)


names = st.lists(st.sampled_from(FIELDS[:3] * 4 + FIELDS + UNKNOWN), max_size=5).map(','.join)
args = st.dictionaries(st.sampled_from(['required', 'optional', 'required', 'optional', 'policy_url', 'Required', 'email', 'fields']), st.one_of(names, names, st.sampled_from(['', ',', ',,']), plain), max_size=4)
wire = st.fixed_dictionaries({'version': st.sampled_from(['2', '1.1', '1']), 'ns': st.sampled_from([0, 0, 1, None, 'other']), 'alias': st.sampled_from(['sreg', 'sreg', 'x', 'sr']), 'args': args, 'strict': st.booleans(),
                              'data': st.dictionaries(st.sampled_from(FIELDS + UNKNOWN[4:8]), plain, max_size=5)})


class Holder(object):
    pass


def check_wire(ctx, case):
    args = {k: v for k, v in case['args'].items()}

    def parsed(strict):
        req, opt = [], []
        for name, want in (('required', True), ('optional', False)):
            if args.get(name):
                for f in args[name].split(','):
                    new = model_request(req, opt, f, want, strict)
                    if new is None:
                        if strict:
                            return None
                    else:
                        req, opt = new
        return req, opt

    want = parsed(case['strict'])
    r = sreg.SRegRequest()
    if want is None:
        expect_raises(ValueError, 'strict reading', r.parseExtensionArgs, dict(args), strict=True)
    else:
        r.parseExtensionArgs(dict(args), strict=case['strict'])
        expect_eq((r.required, r.optional, r.policy_url or None), want + (args.get('policy_url') or None,), 'request')
        again = sreg.SRegRequest()
        again.parseExtensionArgs(r.getExtensionArgs(), strict=True)
        expect_eq((again.required, again.optional, again.policy_url), want + (args.get('policy_url') or None,), 'request written and read again')
    # in a message
    v2 = case['version'] == '2'
    wired = {'openid.mode': 'checkid_setup'}
    if case['version'] != '1':
        wired['openid.ns'] = {'2': ref.OPENID2, '1.1': ref.OPENID11}[case['version']]
    alias = case['alias']
    if case['ns'] == 'other':
        wired['openid.ns.' + alias] = 'http://other.example/'
    elif case['ns'] is not None:
        wired['openid.ns.' + alias] = NS[case['ns']]
    here = case['ns'] in (0, 1) or (case['ns'] is None and alias == 'sreg' and not v2)

    def message(a):
        return Message.fromPostArgs(dict(wired, **{'openid.%s.%s' % (alias, k): v for k, v in a.items()}))

    h = Holder()
    h.message = message(args)
    before = h.message.toPostArgs()
    try:
        p = sreg.SRegRequest.fromOpenIDRequest(h)
    except ValueError:
        expect(case['ns'] == 'other' and alias == 'sreg', 'refused')
        p = None
    expect_eq(h.message.toPostArgs(), before, 'message after reading it')
    if p is not None:
        req, opt = parsed(False) if here else ([], [])
        expect_eq((p.required, p.optional, p.policy_url or None), (req, opt, (args.get('policy_url') or None) if here else None), 'request in the message')
        if here and case['ns'] is not None:
            expect_eq(p.ns_uri, NS[case['ns']], 'namespace')
    # the same for answers
    e = OpenIDServiceEndpoint()
    e.claimed_id = 'http://user.example/'
    e.type_uris = ['http://specs.openid.net/auth/2.0/signon', 'http://openid.net/sreg'] + ([NS[case['ns']]] if case['ns'] in (0, 1) else [])
    expect_eq(bool(sreg.supportsSReg(e)), case['ns'] in (0, 1), 'supportsSReg with %r' % e.type_uris)
    m = message(case['data'])
    got = SuccessResponse(e, m, ['openid.%s.%s' % (alias, k) for k in case['data']])
    try:
        s = sreg.SRegResponse.fromSuccessResponse(got)
    except ValueError:
        expect(case['ns'] == 'other' and alias == 'sreg', 'refused')
        return
    known = {k: v for k, v in case['data'].items() if k in FIELDS}
    expect_eq(dict(s.items()) if s else {}, known if here else {}, 'data')
    ctx.nt(bool(here and (want is None or want[0] or want[1])))


FACETS = [Facet('trip', build, check_build, quick=6000, rule='at least two fields are requested'), Facet('wire', wire, check_wire, quick=8000, rule='the message is one of simple registration and names known fields, or is refused in strict mode')]
