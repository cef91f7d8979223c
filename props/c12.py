"""What providers answer to authentication requests."""
import re
from urllib.parse import parse_qsl, urlencode, urlsplit

from props.c21 import Form
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import OP
from openid.server import server as srv
from openid.store import nonce
from openid.store.memstore import MemoryStore
from openid.server.server import Server

ASSUMPTIONS = ['texts have no newline', 'responses sent as HTML forms: text that XML can represent']
SERVER = 'http://op.example/endpoint?x=1'
NOW = 1500000000
RETURN = ['http://rp.example/back', 'http://rp.example/', 'http://rp.example/back?a=b&a=c&d', 'http://rp.example/?openid.mode=x', 'https://rp.example:8443/x?q=%26%20',
          'http://rp.example/?' + 'q' * 3000]
IDENT = ['http://user.example/', 'http://user.example/\xe9', ref.IDSELECT, ref.IDSELECT, '=user', None, 'HTTP://User.Example', 'http://user.example/?a=b#frag', 'http://user.example/Bob']
case = st.fixed_dictionaries({
    'version': st.sampled_from(['2', '2', '1.1', '1']), 'immediate': st.booleans(), 'return_to': st.integers(0, len(RETURN) - 1), 'realm': st.booleans(),
    'identity': st.integers(0, len(IDENT) - 1), 'claimed': st.sampled_from(['same', 'http://claimed.example/', 'http://claimed.example/#f']),
    'handle': st.sampled_from(['none', 'none', 'good', 'good', 'expired', 'unknown', 'private', 'used twice', 'removed']),
    'pair': st.sampled_from([('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'no-encryption')]).map(list),
    'allow': st.booleans(), 'answer_id': st.sampled_from([None, None, 'http://chosen.example/', 'same', 'other', 'equivalent', 'other case', 'other case']),
    'answer_claimed': st.sampled_from([None, None, 'http://delegated.example/']), 'endpoint': st.sampled_from([None, None, 'http://op.example/other']),
    'ext': st.dictionaries(st.sampled_from(['nickname', 'fullname', 'a.b', 'x']), gen.nonl(gen.xml_text), max_size=3), 'big': st.sampled_from([0, 0, 0, 2500]),
    'store': st.sampled_from(KINDS), 'pad': st.just(0)})


# answers whose redirect has about the greatest length that is allowed
edge = case.flatmap(lambda c: st.integers(0, 40).map(lambda n: dict(
    c, version='2', store='memory', return_to=0, identity=0, answer_id=None, answer_claimed=None, claimed='same', handle='none', endpoint=None, realm=True, ext={'x': ''} if c['allow'] else {},
    big=1350 + n if c['allow'] else 0, pad=0 if c['allow'] else (755 + n if c['immediate'] else 1930 + n))))


class Recorder(object):
    """Delegates to a store, remembering what is written."""

    def __init__(self, store):
        self.store, self.stored = store, []

    def storeAssociation(self, url, assoc):
        self.stored.append((url, assoc.handle))
        self.store.storeAssociation(url, assoc)

    def __getattr__(self, name):
        return getattr(self.store, name)


def check(ctx, case):
    clock.set(NOW)
    v1 = case['version'] != '2'
    return_to, identity = RETURN[case['return_to']], IDENT[case['identity']]
    if case['pad']:
        return_to += '?q=' + 'x' * case['pad']
    q = {'openid.mode': 'checkid_immediate' if case['immediate'] else 'checkid_setup', 'openid.return_to': return_to}
    if v1 and identity is None:
        identity = 'http://user.example/'
    if identity is not None:
        q['openid.identity'] = identity
    claimed = None
    if not v1:
        q['openid.ns'] = ref.OPENID2
        if identity is not None:
            claimed = identity if case['claimed'] == 'same' or identity == ref.IDSELECT else case['claimed']
            q['openid.claimed_id'] = claimed
    elif case['version'] == '1.1':
        q['openid.ns'] = ref.OPENID11
    if case['realm']:
        q['openid.trust_root' if v1 else 'openid.realm'] = urlsplit(return_to)._replace(path='/', query='').geturl()
    with Box(case['store']) as box:
        store = Recorder(box.store)
        server = Server(store, SERVER)
        op = OP(store, SERVER, server)
        key = handle = None
        known = False
        kind = case['handle']
        if kind in ('good', 'expired', 'used twice', 'removed'):
            body = op.respond({'openid.mode': 'associate', 'openid.ns': ref.OPENID2, 'openid.assoc_type': case['pair'][0], 'openid.session_type': case['pair'][1]})[1]
            got = ref.parse_kv(body)
            handle, key = got['assoc_handle'], ref.unb64(got['mac_key'])
            if kind == 'expired':
                clock.advance(int(got['expires_in']))
                # some stores still tell about the expired association
                known = box.store.getAssociation(*store.stored[-1]) is not None
            elif kind == 'good':
                clock.advance(int(got['expires_in']) - 1)
            elif kind == 'removed':
                box.store.cleanup()
                # a provider that has lost its associations
                server = Server(MemoryStore(), SERVER)
                op = OP(None, SERVER, server)
        elif kind == 'unknown':
            handle = '{HMAC-SHA1}{5a}{zzzz==}'
        elif kind == 'private':
            first = server.decodeRequest({'openid.mode': 'checkid_setup', 'openid.return_to': 'http://mallory.example/', 'openid.identity': 'http://mallory.example/'})
            handle = op.redirect_args(server.encodeResponse(first.answer(True, server_url=SERVER)))[1]['openid.assoc_handle']
        if handle:
            q['openid.assoc_handle'] = handle
        request = server.decodeRequest(dict(q))
        seen = set()
        for i in range(2 if kind == 'used twice' else 1):
            one(ctx, seen, case, server, op, request, q, v1, identity, claimed, return_to, handle, key if kind in ('good', 'used twice') else None, known)
    ctx.label('handle: ' + kind, 'v' + case['version'])


def one(ctx, seen, case, server, op, request, q, v1, identity, claimed, return_to, handle, key, known):
    answer_id = {'same': identity, 'other': 'http://somebody.else.example/', 'equivalent': identity and re.sub('^(?i:http://user.example)(/?)', r'http://USER.example:80\1', identity),
                 # the path and the query in other case: somebody else
                 'other case': identity and re.sub('(?<=[^:/])/.*', lambda m: m.group().swapcase(), identity)}.get(
        case['answer_id'], case['answer_id'])
    if answer_id == ref.IDSELECT:
        answer_id = 'http://chosen.example/'
    answer_claimed = case['answer_claimed'] if not v1 else None
    kw = {'identity': answer_id, 'claimed_id': answer_claimed}
    if case['endpoint']:
        kw['server_url'] = case['endpoint']
    endpoint = case['endpoint'] or SERVER
    allow = case['allow']
    if v1 and case['answer_claimed']:
        expect_raises(srv.VersionError, 'claimed_id in an OpenID 1 answer', request.answer, allow, claimed_id='http://x/')
    # is this answer possible?
    bad = False
    if allow:
        if identity == ref.IDSELECT:
            bad = not answer_id
        elif identity is None:
            bad = bool(answer_id)
        elif answer_id and answer_id != identity:
            same = case['answer_id'] == 'equivalent' and identity.lower().startswith('http://user.example')
            bad = not same
    if bad:
        expect_raises(ValueError, 'answering %r with %r' % (identity, answer_id), request.answer, True, **kw)
        ctx.label('refused')
        ctx.nt()
        return
    response = request.answer(allow, **kw)
    if case['ext'] and allow:
        response.fields.namespaces.addAlias('http://example.com/ext', 'myext')
        for k, v in case['ext'].items():
            response.fields.setArg('http://example.com/ext', k, v)
        if case['big']:
            response.fields.setArg('http://example.com/ext', 'big', 'B' * case['big'])
    before = response.fields.toPostArgs()
    web = server.encodeResponse(response)
    expect_eq(response.fields.toPostArgs(), before, 'the response object after encoding it')
    base = urlsplit(return_to)
    had = parse_qsl(base.query, keep_blank_values=True)
    if web.code == 302:
        url = urlsplit(web.headers['location'])
        expect_eq((url.scheme, url.netloc, url.path, url.fragment), (base.scheme, base.netloc, base.path, base.fragment), 'where the response goes')
        pairs = parse_qsl(url.query, keep_blank_values=True)
        expect_eq(pairs[:len(had)], had, 'arguments of the return URL')
        pairs = pairs[len(had):]
        ctx.label('redirect')
        if not v1:
            expect(len(web.headers['location']) <= 2047, 'redirect to a URL of %d characters', len(web.headers['location']))
            if len(web.headers['location']) > 2044:
                ctx.label('redirect of nearly the greatest length')
    else:
        expect(web.code == 200 and not v1, 'HTTP status %r', web.code)
        parser = Form()
        parser.feed(web.body)
        expect_eq(parser.attrs.get('action'), return_to, 'action of the form')
        expect_eq(parser.attrs.get('method', '').lower(), 'post', 'method of the form')
        pairs = parser.fields
        length = len(return_to) + 1 + len(urlencode(pairs))
        expect(length > 2047, 'form although the URL would have %d characters', length)
        ctx.label('form')
        if length < 2051:
            ctx.label('form, redirect just too long')
    args = dict(pairs)
    expect_eq(len(args), len(pairs), 'distinct arguments')
    expect_eq([k for k in args if not k.startswith('openid.')], [], 'arguments that the answer does not have')
    if v1:
        expect(args.get('openid.ns') in (None, ref.OPENID10, ref.OPENID11), 'namespace %r', args.get('openid.ns'))
    else:
        expect_eq(args.get('openid.ns'), ref.OPENID2, 'namespace')
    ctx.nt(True)
    if not allow:
        ctx.label('negative')
        # an OpenID 1 answer to an immediate request is signed either way: it asserts nothing
        signing = () if v1 and case['immediate'] else ('sig', 'signed', 'assoc_handle')
        for name in ('identity', 'claimed_id', 'response_nonce') + signing:
            expect('openid.' + name not in args, '%s in a negative answer', name)
        mode = args.get('openid.mode')
        if case['immediate']:
            expect_eq(mode, 'id_res' if v1 else 'setup_needed', 'mode')
            setup = args.get('openid.user_setup_url')
            expect(setup is not None and setup.startswith(endpoint + '&' if '?' in endpoint else endpoint + '?'), 'setup URL %r', setup)
            again = dict(parse_qsl(urlsplit(setup).query, keep_blank_values=True))
            again.pop('x', None)
            wanted = dict(q, **{'openid.mode': 'checkid_setup'})
            wanted.setdefault('openid.trust_root' if v1 else 'openid.realm', return_to)
            if v1:
                again.pop('openid.ns', None)
                wanted.pop('openid.ns', None)
            expect_eq(again, wanted, 'request made by the setup URL')
        else:
            expect_eq(mode, 'cancel', 'mode')
            cancel = urlsplit(request.getCancelURL())
            expect_eq(parse_qsl(cancel.query, keep_blank_values=True)[:len(had)], had, 'arguments of the return URL')
            expect_eq(dict(parse_qsl(cancel.query)[len(parse_qsl(base.query)):]).get('openid.mode'), 'cancel', 'mode in the cancel URL')
        return
    ctx.label('positive')
    expect_eq(args.get('openid.mode'), 'id_res', 'mode')
    expect_eq(args.get('openid.return_to'), return_to, 'return_to')
    expect_eq(args.get('openid.op_endpoint'), endpoint, 'op_endpoint')
    if identity is None:
        expect('openid.identity' not in args and 'openid.claimed_id' not in args, 'identifier in %r', args)
    else:
        wanted = answer_id if identity == ref.IDSELECT else identity
        expect_eq(args.get('openid.identity'), wanted, 'identity')
        if v1:
            expect('openid.claimed_id' not in args, 'claimed_id in an OpenID 1 answer')
        else:
            expect_eq(args.get('openid.claimed_id'), (answer_claimed or answer_id) if identity == ref.IDSELECT else claimed, 'claimed_id')
    stamp = args.get('openid.response_nonce', '')
    expect_eq(nonce.split(stamp)[0], int(clock.time()), 'time of the response nonce')
    expect(stamp not in seen, 'nonce %r given twice', stamp)
    seen.add(stamp)
    for k, v in case['ext'].items():
        expect_eq(args.get('openid.myext.' + k), v, 'extension argument ' + k)
    signed = args['openid.signed'].split(',')
    expect_eq(set(signed), set(k[7:] for k in args if k != 'openid.sig' and k.startswith('openid.')), 'signed fields')
    if key is not None:
        expect_eq(args['openid.assoc_handle'], handle, 'handle')
        expect('openid.invalidate_handle' not in args, 'a valid handle is invalidated')
        expect_eq(args['openid.sig'], ref.message_sig(case['pair'][0], key, args), 'signature')
    else:
        expect(args['openid.assoc_handle'] != handle, 'signed with the handle %r', handle)
        expect_eq(args.get('openid.invalidate_handle'), handle, 'invalidate_handle')
        size = len(ref.unb64(args['openid.sig']))
        expect(size in ref.SIZE.values(), 'signature of %d bytes', size)
        if known:
            expect_eq(size, ref.SIZE[case['pair'][0]], 'size of the signature made instead of an expired one')
            ctx.label('replaced %s' % case['pair'][0])
        check = dict(args, **{'openid.mode': 'check_authentication'})
        got = ref.parse_kv(op.respond(check)[1])
        expect_eq(got.get('is_valid'), 'true', 'verdict of the provider on its own assertion')
        expect_eq(got.get('invalidate_handle'), handle, 'invalidate_handle in the verdict')


noreturn_case = st.fixed_dictionaries({'allow': st.booleans(), 'immediate': st.booleans(), 'identity': st.booleans()})


def check_noreturn(ctx, case):
    with Box('memory') as box:
        server = Server(box.store, SERVER)
        q = {'openid.ns': ref.OPENID2, 'openid.mode': 'checkid_immediate' if case['immediate'] else 'checkid_setup', 'openid.realm': 'http://rp.example/'}
        if case['identity']:
            q.update({'openid.identity': 'http://u.example/', 'openid.claimed_id': 'http://u.example/'})
        request = server.decodeRequest(q)
        expect_raises(srv.NoReturnToError, 'answer without return_to', request.answer, case['allow'])
        expect_raises(srv.NoReturnToError, 'URL without return_to', request.encodeToURL, SERVER)
        expect_raises(srv.NoReturnToError, 'cancel without return_to', request.getCancelURL)
        # a provider that was not told its endpoint
        bare = Server(box.store)
        q = {'openid.mode': 'checkid_immediate' if case['immediate'] else 'checkid_setup', 'openid.identity': 'http://u.example/', 'openid.return_to': 'http://rp.example/'}
        request = bare.decodeRequest(q)
        if case['immediate'] and not case['allow']:
            expect_raises(ValueError, 'refusal of an immediate request without the endpoint', request.answer, False)
        else:
            request.answer(case['allow'])
        request.answer(case['allow'], server_url=SERVER)
        # the realm defaults to the return_to
        made = srv.CheckIDRequest('http://u.example/', 'http://rp.example/back', immediate=case['immediate'], op_endpoint=SERVER, claimed_id='http://u.example/')
        expect_eq(made.trust_root, 'http://rp.example/back', 'realm of a request made without one')
        expect_eq(dict(parse_qsl(urlsplit(made.encodeToURL(SERVER)).query)).get('openid.realm'), 'http://rp.example/back', 'realm in the URL of a request made without one')
    ctx.nt()


FACETS = [
    Facet('answers', case, check, 4000, rule='an answer was made or rightly refused'),
    Facet('length', edge, check, 1600, rule='an answer was made or rightly refused'),
    Facet('no return_to', noreturn_case, check_noreturn, 40, rule='every case'),
]
