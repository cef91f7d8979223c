"""Which responses complete a login: genuine and altered assertions of a model provider."""
import hashlib
import re
from calendar import timegm
from urllib.parse import parse_qsl, urldefrag, urlencode, urlsplit

from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.env import clock
from vf.stores import Box, KINDS
from vf.web import Web, form
from openid import fetchers
from openid.association import Association
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint

ASSUMPTIONS = ['HMAC and the transport to the provider are secure', 'argument names have no comma or colon', 'return_to repeats no argument']
NOW = 1500000000
SKEW = 5 * 3600
GOOD = 'http://op.example/server?x=y'
EVIL = 'http://evil.example/op'
TYPE = {'2': 'http://specs.openid.net/auth/2.0/signon', '1.0': 'http://openid.net/signon/1.0', '1.1': 'http://openid.net/signon/1.1', '1': 'http://openid.net/signon/1.1'}
NS = {'2': ref.OPENID2, '1.0': ref.OPENID10, '1.1': ref.OPENID11}
FIELDS = ['ns', 'mode', 'identity', 'claimed_id', 'return_to', 'op_endpoint', 'response_nonce', 'assoc_handle', 'sig', 'signed', 'ext.a', 'ns.ext', 'invalidate_handle']
SIGNABLE = ['identity', 'claimed_id', 'return_to', 'op_endpoint', 'response_nonce', 'assoc_handle', 'mode', 'ext.a']
# (current URL, return_to location it stands for); the first is where the response arrives
SAME = [('http://rp.example/back', 'http://rp.example/back'), ('HTTP://RP.example:80/back', 'http://rp.example/back'), ('http://rp.example/x/../back', 'http://rp.example/back'), ('http://rp.example/b%61ck', 'http://rp.example/back'),
        ('http://rp.example/', 'http://rp.example'), ('https://rp.example:443/back', 'https://rp.example/back'), ('http://rp.example:8080/back', 'http://rp.example:8080/back'), ('http://rp.example/a;b', 'http://rp.example/a;b'),
        ('http://u:p@rp.example/back', 'http://u:p@rp.example/back'), ('http://rp.example/', 'HTTP://rp.EXAMPLE'), ('http://rp.example/a%2Fb', 'http://rp.example/a%2fb')]
OTHER = [('http://rp.example/back/', 'http://rp.example/back'), ('http://rp.example/Back', 'http://rp.example/back'), ('http://rp.example:8080/back', 'http://rp.example/back'), ('https://rp.example/back', 'http://rp.example/back'),
         ('http://rp2.example/back', 'http://rp.example/back'), ('http://www.rp.example/back', 'http://rp.example/back'), ('http://rp.example/back;admin', 'http://rp.example/back;user'), ('http://u@rp.example/back', 'http://rp.example/back'),
         ('http://rp.example/back;x', 'http://rp.example/back'), ('http://rp.example/a/b', 'http://rp.example/a%2Fb'), ('http://rp.example/', 'http://rp.example/back'), ('http://rp.example/back', 'http://rp.example/'),
         ('http://rp.example.evil.example/back', 'http://rp.example/back'), ('http://rp.example/backdoor', 'http://rp.example/back')]

alter = st.one_of(
    st.tuples(st.just('change'), st.sampled_from(FIELDS), st.sampled_from(['x', '/', ' ', '\n', '#f', 'prefix', 'empty', 'upper'])),
    st.tuples(st.just('drop'), st.sampled_from(FIELDS)),
    st.tuples(st.just('set'), st.sampled_from(FIELDS + ['foo', 'mode2', 'mode2', 'sreg.email', 'ns.sreg', 'user_setup_url', 'error']), st.sampled_from(['x', 'true', 'id_res', '', 'http://other.example/', EVIL, GOOD])),
    st.tuples(st.just('bare'), st.sampled_from(['foo', 'a', 'janrain_nonce', 'openid1_claimed_id', 'openid']), st.sampled_from(['x', '', 'http://victim.example/'])),
    st.tuples(st.just('drop bare'), st.integers(0, 4)),
    st.tuples(st.just('change bare'), st.integers(0, 4), st.sampled_from(['x', 'empty', 'upper', ' ', 'strip', 'int'])),
    st.tuples(st.just('signed'), st.sampled_from(['less', 'less', 'more', 'absent', 'reverse', 'twice', 'space', 'empty', 'prefix', 'upper', 'ns']), st.sampled_from(SIGNABLE)),
    st.tuples(st.just('sig'), st.sampled_from(['flip', 'flip end', 'cut', 'twice', 'space', 'newline', 'lower', 'empty', 'other', 'unpadded', 'case', 'first'])),
    st.tuples(st.just('handle'), st.sampled_from(['second', 'evil', 'unknown', 'private', 'first'])),
    st.tuples(st.just('version'), st.sampled_from(['2', '1', '1.0', '1.1'])),
    st.tuples(st.just('mode'), st.sampled_from(['cancel', 'error', 'setup_needed', 'ID_RES', 'id_res ', 'checkid_setup', 'invalid', '', 'check_authentication'])),
    st.tuples(st.just('endpoint'), st.sampled_from([EVIL, GOOD, 'http://op.example/server', GOOD.upper()])),
    st.tuples(st.just('return_to'), st.sampled_from(['http://rp.example/back', 'http://evil.example/', 'garbage', 'http://rp.example:port/', 'http://[rp/'])),
    st.tuples(st.just('nonce'), st.sampled_from(['old', 'edge', 'beyond', 'future', 'bad', 'no salt', 'none', 'none'])),
    st.tuples(st.just('victim')),
)
resign = st.tuples(st.just('resign'), st.sampled_from(['first', 'first', 'first', 'second', 'evil', 'private', 'empty', 'own', 'own']))
forge = st.one_of(st.tuples(st.just('sig'), st.sampled_from(['flip', 'flip end', 'cut', 'twice', 'space', 'newline', 'lower', 'empty', 'other', 'unpadded', 'case', 'first'])), st.tuples(st.just('change'), st.just('ext.a'), st.sampled_from(['x', ' ', 'prefix', 'empty', 'upper'])),
                  st.tuples(st.just('signed'), st.sampled_from(['absent', 'more', 'reverse', 'twice', 'ns']), st.sampled_from(SIGNABLE)), st.tuples(st.just('signed'), st.just('less'), st.sampled_from(['mode', 'ext.a'])), st.tuples(st.just('handle'), st.sampled_from(['second', 'evil', 'unknown', 'private'])),
                  st.tuples(st.just('nonce'), st.just('edge')), resign)
unsigned = st.tuples(st.tuples(st.just('signed'), st.sampled_from(['less', 'less', 'less', 'upper', 'space', 'prefix']), st.sampled_from(SIGNABLE)), st.tuples(st.just('resign'), st.just('own'))).map(lambda t: [list(x) for x in t])
two = st.tuples(alter, resign).map(lambda t: [list(x) for x in t])
three = st.tuples(alter, alter, resign).map(lambda t: [list(x) for x in t])
forged = st.lists(forge.map(list), min_size=1, max_size=2)
plain = st.lists(alter.map(list), min_size=1, max_size=2)
args_alter = st.tuples(st.just('change bare'), st.integers(0, 4), st.sampled_from(['x', 'empty', 'upper', ' ', 'strip', 'int'])).map(lambda t: [list(t)])
alters = st.sampled_from(['none', 'forged', 'forged', 'forged', 'plain', 'plain', 'args', 'args', 'unsigned', 'two', 'two', 'three']).flatmap(lambda k: {'none': st.just([]), 'forged': forged, 'plain': plain, 'args': args_alter, 'unsigned': unsigned, 'two': two, 'three': three}[k])
rt_key = st.sampled_from(['a', 'b', 'a b', '\xe9', 'foo', 'openid.mode2', 'openid.m.x', 'openid.user', 'openid.foo', 'x[]'])
rt_value = st.one_of(st.sampled_from(['', ' a', 'a ', '1', 'a b', 'a', 'A', '%20', '+']), gen.tricky_text)
rt_args = st.one_of(st.just({}), st.dictionaries(rt_key, rt_value, min_size=1, max_size=3), st.dictionaries(gen.ident, rt_value, min_size=1, max_size=2))
case = st.fixed_dictionaries({
    'version': st.sampled_from(['2', '2', '2', '1', '1.0', '1.1']), 'store': st.sampled_from(KINDS + ['memory', 'memory', None]), 'session': st.sampled_from(['kept', 'kept', 'lost']), 'by': st.sampled_from(['assoc', 'assoc', 'stateless']),
    'types': st.lists(st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256']), min_size=3, max_size=3), 'anonymous': st.sampled_from([False] * 5 + [True]), 'delegate': st.booleans(), 'rt': rt_args,
    'where': st.sampled_from([['same', 0]] * 40 + [['same', i] for i in range(len(SAME))] * 2 + [['other', i] for i in range(len(OTHER))]),
    'current_query': st.booleans(), 'ext': st.sampled_from([None, 'value', '\xe9\u20ac', '']), 'age': st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, 1, 500, 3600, 'end-1', 'end', 'end+1', 'future']),
    'verdict': st.sampled_from(['honest'] * 6 + ['true', 'true', 'false', 'True', 'yes', '1', '', 'missing', 'error', 'error true', '500', '500 true', 'refused', 'garbage', 'nothing', 'wrong ns']),
    'invalidate': st.sampled_from([None, None, None, 'first', 'second', 'evil', 'unknown']), 'alters': alters})


class Key(object):
    def __init__(self, handle, assoc_type, seed, server):
        self.handle = handle
        self.type = assoc_type
        self.secret = hashlib.sha512(seed.encode()).digest()[:ref.SIZE[assoc_type]]
        self.server = server


def sig_of(key, args):
    """The signature of args as the specification defines it, or None if there can not be one."""
    signed = args.get('openid.signed')
    if not signed:
        return None
    pairs = [(f, args.get('openid.' + f, '')) for f in signed.split(',')]
    if any('\n' in k or ':' in k or '\n' in v for k, v in pairs):
        return None
    return ref.b64(ref.sign(key.type, key.secret, pairs))


def nonce_ok(text, now, check_time):
    m = re.match(r'(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ)', text or '', re.A)
    if not m:
        return False
    import time
    try:
        t = timegm(time.strptime(m.group(1), '%Y-%m-%dT%H:%M:%SZ'))
    except ValueError:
        return False
    return not check_time or abs(t - now) <= SKEW


def stamp(t):
    import time
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(t))


def change(value, how):
    if how == 'prefix':
        return 'x' + value
    if how == 'strip':
        return value.strip()
    if how == 'int':
        return '0' + value
    if how == 'empty':
        return ''
    if how == 'upper':
        return value.upper() if value.upper() != value else value.lower()
    return value + how


def check(ctx, case):
    clock.set(NOW)
    version = case['version']
    v2 = version == '2'
    anonymous = case['anonymous'] and v2
    claimed = 'http://user.example/'
    local = 'http://user.op.example/' if case['delegate'] else claimed
    where, i = case['where']
    current, location = (SAME if where == 'same' else OTHER)[i]
    keys = {'first': Key('h-first', case['types'][0], 'first', GOOD), 'second': Key('h-second', case['types'][1], 'second', GOOD), 'evil': Key('h-evil', case['types'][2], 'evil', EVIL),
            'private': Key('h-private', case['types'][2], 'private', GOOD), 'unknown': Key('h-unknown', 'HMAC-SHA1', 'unknown', GOOD), 'empty': Key('h-first', 'HMAC-SHA1', 'x', GOOD)}
    keys['empty'].secret = b''
    endpoint = OpenIDServiceEndpoint()
    endpoint.claimed_id, endpoint.local_id, endpoint.server_url, endpoint.type_uris = claimed, local if case['delegate'] else None, GOOD, [TYPE[version]]

    def xrds(server):
        return {'headers': {'Content-Type': 'application/xrds+xml'}, 'body': ('<x:XRDS xmlns:x="xri://$xrds" xmlns="xri://$xrd*($v*2.0)"><XRD><Service><Type>%s</Type><URI>%s</URI>%s</Service></XRD></x:XRDS>' % (
            TYPE[version], server, ('<LocalID>%s</LocalID>' % local if v2 else '<o:Delegate xmlns:o="http://openid.net/xmlns/1.0">%s</o:Delegate>' % local) if case['delegate'] else '')).encode()}

    asked = []

    def provider(body, headers):
        if body is None:
            return {'status': 404}
        args = form(body)
        if args.get('openid.mode') != 'check_authentication':
            return {'status': 400, 'body': b'error:no\nns:' + ref.OPENID2.encode() + b'\n'}
        verdict = case['verdict']
        k = keys['private']
        valid = args.get('openid.assoc_handle') == k.handle and args.get('openid.sig') is not None and args['openid.sig'] == sig_of(k, args)
        out = 'ns:%s\n' % (NS['2'] if args.get('openid.ns') == NS['2'] else '') if args.get('openid.ns') == NS['2'] else ''
        if verdict == 'wrong ns':
            out = 'ns:http://example.com/\n'
        says = False
        status = 200
        if verdict in ('honest', 'true', 'error true', '500 true', 'wrong ns'):
            says = valid if verdict == 'honest' else True
            out += 'is_valid:%s\n' % ('true' if says else 'false')
            status = {'error true': 400, '500 true': 500}.get(verdict, 200)
        elif verdict in ('false', 'True', 'yes', '1', ''):
            out += 'is_valid:%s\n' % verdict
        elif verdict == 'error':
            out += 'error:no\n'
            status = 400
        elif verdict == '500':
            status = 500
        elif verdict == 'garbage':
            out = '<html>is_valid:true'
        elif verdict == 'nothing':
            out = ''
        if case['invalidate']:
            out += 'invalidate_handle:%s\n' % keys[case['invalidate']].handle
        asked.append((GOOD, args, says and status == 200 and verdict != 'wrong ns'))
        if verdict == 'refused':
            return fetchers.HTTPFetchingError('refused')
        return {'status': status, 'headers': {'Content-Type': 'text/plain'}, 'body': out.encode()}

    def evil(body, headers):
        if body is None:
            return {'status': 404}
        args = form(body)
        asked.append((EVIL, args, True))
        return {'status': 200, 'headers': {'Content-Type': 'text/plain'}, 'body': b'ns:http://specs.openid.net/auth/2.0\nis_valid:true\n'}

    box = Box(case['store']) if case['store'] else None
    store = box.store if box else None
    try:
        with Web({GOOD: provider, EVIL: evil, claimed: xrds(GOOD), 'http://victim.example/': xrds(GOOD), 'http://other.example/': xrds(EVIL)}) as web:
            session = {}
            lifetime = 1000
            if box:
                for n in ('second', 'first', 'evil'):
                    k = keys[n]
                    store.storeAssociation(k.server, Association(k.handle, k.secret, NOW + (n == 'first'), lifetime, k.type))
            request = Consumer(session, store).beginWithoutDiscovery(endpoint)
            wanted_rt = location + ('?' + urlencode(case['rt']) if case['rt'] else '')
            return_to = request.getMessage('http://rp.example/', wanted_rt).toPostArgs()['openid.return_to']
            age = case['age']
            age = lifetime + {'end-1': 0, 'end': 1, 'end+1': 2}[age] if isinstance(age, str) and age != 'future' else -100 if age == 'future' else age
            # the model provider's answer
            key = keys['first' if case['by'] == 'assoc' else 'private']
            args = {'openid.mode': 'id_res', 'openid.return_to': return_to, 'openid.assoc_handle': key.handle}
            args.update(parse_qsl(urlsplit(return_to).query, keep_blank_values=True))
            if version in NS:
                args['openid.ns'] = NS[version]
            if not anonymous:
                args['openid.identity'] = local
            signed = ['mode', 'return_to', 'assoc_handle'] + ([] if anonymous else ['identity'])
            if v2:
                args.update({'openid.op_endpoint': GOOD, 'openid.response_nonce': stamp(NOW + age) + 'salt'})
                signed += ['op_endpoint', 'response_nonce']
                if not anonymous:
                    args['openid.claimed_id'] = claimed
                    signed.append('claimed_id')
            if case['ext'] is not None:
                args.update({'openid.ns.ext': 'http://ext.example/', 'openid.ext.a': case['ext']})
                signed += ['ext.a', 'ns.ext']
            args['openid.signed'] = ','.join(signed)
            args['openid.sig'] = sig_of(key, args)
            genuine = dict(args)
            clock.set(NOW + age)
            now = NOW + age
            tamper(case, args, keys, key, return_to, now)
            want, why, need, server = decide(case, args, keys, session_claimed=claimed if case['session'] == 'kept' else None, now=now, age=age, claimed=claimed, local=local, return_to=return_to, same=where == 'same', lifetime=lifetime, location=location)
            if want is None:
                ctx.label('out of domain')
                return
            del web.log[:], asked[:]
            before = {n: store.getAssociation(keys[n].server, keys[n].handle) is not None for n in ('first', 'second', 'evil')} if box else {}
            url = current
            if case['current_query']:
                url += '?' + urlencode([(k, v) for k, v in args.items() if k != 'openid.sig'])
            response = Consumer(session if case['session'] == 'kept' else {}, store).complete(dict(args), url)
            if asked:
                expect(need in ('asked', 'either') or not want, 'the provider was asked although the association is known')
            confirmed = False
            for u, sent, says in asked:
                expect_eq(u, server, 'provider that was asked to verify')
                expect_eq({k: v for k, v in sent.items() if k.startswith('openid.') and k != 'openid.mode'}, {k: v for k, v in args.items() if k.startswith('openid.') and k != 'openid.mode'}, 'what was sent for verification')
                confirmed = says
            if response.status == 'success':
                expect(want, 'success although %s', why)
                if need == 'asked' or (need == 'either'):
                    expect(asked, 'success without live association and without asking the provider')
                    expect(confirmed, 'success although the provider did not confirm: %s', case['verdict'])
                expect_eq(response.identity_url, args.get('openid.claimed_id') if args.get('openid.ns') == NS['2'] else args.get('openid1_claimed_id', claimed), 'identity of the success')
                expect_eq(set(response.signed_fields), set('openid.' + f for f in args['openid.signed'].split(',')), 'signed fields')
                expect_eq(response.getReturnTo(), args['openid.return_to'], 'return_to')
            else:
                if want and need != 'either' and (need != 'asked' or confirmed):
                    expect(False, 'no success for a good response: %s %s', response.status, getattr(response, 'message', None))
                if args.get('openid.mode') == 'id_res' and not ('openid.user_setup_url' in args):
                    expect_eq(response.status, 'failure', 'status')
            if box:
                for n, was in before.items():
                    gone = was and store.getAssociation(keys[n].server, keys[n].handle) is None
                    if gone:
                        expect(asked and case['invalidate'] == n and keys[n].server == asked[0][0], 'the association %s was removed', n)
                    elif was and asked and case['invalidate'] == n and keys[n].server == asked[0][0] and confirmed:
                        expect(False, 'the association %s is still there although the provider called it invalid', n)
            altered = args != genuine
            ctx.label('%s %s' % ('altered' if altered else 'genuine', response.status), 'v%s' % version, 'by ' + case['by'])
            if want is False:
                ctx.label('why: ' + why)
            ctx.nt(altered or response.status == 'success')
    finally:
        if box:
            box.close()


def tamper(case, args, keys, key, return_to, now):
    for a in case['alters']:
        kind = a[0]
        f = 'openid.' + str(a[1]) if len(a) > 1 else None
        if kind == 'change':
            if f in args:
                args[f] = change(args[f], a[2])
        elif kind == 'drop':
            args.pop(f, None)
        elif kind == 'set':
            args[f] = a[2]
        elif kind == 'bare':
            args[a[1]] = a[2]
        elif kind in ('drop bare', 'change bare'):
            bare = sorted(k for k, _ in parse_qsl(urlsplit(return_to).query, keep_blank_values=True) if k in args)
            if bare:
                b = bare[a[1] % len(bare)]
                if kind == 'drop bare':
                    del args[b]
                else:
                    args[b] = change(args[b], a[2])
        elif kind == 'signed':
            names = args.get('openid.signed', '').split(',')
            if a[1] == 'less':
                names = [n for n in names if n != a[2]]
            elif a[1] == 'more':
                names = names + ['signed', 'foo']
            elif a[1] == 'absent':
                names = names + ['nosuch']
            elif a[1] == 'reverse':
                names = names[::-1]
            elif a[1] == 'twice':
                names = names + [a[2]]
            elif a[1] == 'space':
                names = [' ' + n for n in names]
            elif a[1] == 'empty':
                names = ['']
            elif a[1] == 'prefix':
                names = ['openid.' + n for n in names]
            elif a[1] == 'upper':
                names = [n.upper() if n == a[2] else n for n in names]
            elif 'openid.ns' in args:
                names = names + ['ns']
            args['openid.signed'] = ','.join(names)
        elif kind == 'sig':
            s = args.get('openid.sig') or 'AAAA'
            how = a[1]
            if how == 'other':
                s = sig_of(keys['unknown'], args) or 'x'
            elif how in ('flip', 'flip end'):
                j = 0 if how == 'flip' else max(0, len(s) - 3)
                s = s[:j] + ('A' if s[j] != 'A' else 'B') + s[j + 1:]
            else:
                s = {'cut': s[:-4], 'twice': s + s, 'space': ' ' + s, 'newline': s + '\n', 'lower': s.lower(), 'empty': '', 'unpadded': s.rstrip('='), 'case': s.swapcase(), 'first': s[:1]}[how]
            args['openid.sig'] = s
        elif kind == 'handle':
            args['openid.assoc_handle'] = keys[a[1]].handle
        elif kind == 'version':
            if a[1] == '1':
                args.pop('openid.ns', None)
            else:
                args['openid.ns'] = NS[a[1]]
        elif kind == 'mode':
            args['openid.mode'] = a[1]
        elif kind == 'endpoint':
            args['openid.op_endpoint'] = a[1]
        elif kind == 'return_to':
            args['openid.return_to'] = a[1]
        elif kind == 'nonce':
            for f in ('openid.response_nonce', 'janrain_nonce'):
                if f in args and a[1] == 'none':
                    del args[f]
                    base, _, q = args.get('openid.return_to', '').partition('?')
                    rest = [(k, v) for k, v in parse_qsl(q, keep_blank_values=True) if k != f]
                    args['openid.return_to'] = base + ('?' + urlencode(rest) if rest else '')
                elif f in args:
                    args[f] = {'old': stamp(now - 10 * SKEW) + 'x', 'edge': stamp(now - SKEW) + 'x', 'beyond': stamp(now - SKEW - 1) + 'x', 'future': stamp(now + SKEW + 1) + 'x', 'bad': 'bad', 'no salt': stamp(now)}[a[1]]
                    if f == 'janrain_nonce':
                        base, _, q = args.get('openid.return_to', '').partition('?')
                        args['openid.return_to'] = base + '?' + urlencode([(k, args[f] if k == f else v) for k, v in parse_qsl(q, keep_blank_values=True)])
        elif kind == 'victim':
            for f in ('openid.claimed_id', 'openid.identity', 'openid1_claimed_id'):
                if f in args:
                    args[f] = 'http://victim.example/'
        elif kind == 'resign':
            k = key if a[1] == 'own' else keys[a[1]]
            if a[1] in ('second', 'evil', 'private'):
                args['openid.assoc_handle'] = k.handle
            args['openid.sig'] = sig_of(k, args) or ''


def decide(case, args, keys, session_claimed, now, age, claimed, local, return_to, same, lifetime, location):
    """(may succeed?, why not, what verifies it ('assoc', 'asked', 'either'), provider that must verify)."""
    no = lambda why: (False, why, None, GOOD)  # noqa: E731
    ns = args.get('openid.ns')
    if ns is None:
        v2 = False
    elif ns == ref.OPENID2:
        v2 = True
    elif ns in (ref.OPENID10, ref.OPENID11):
        v2 = False
    else:
        return no('the namespace is not OpenID')
    if args.get('openid.mode') != 'id_res':
        return no('the mode is not id_res')
    if not v2 and 'openid.user_setup_url' in args:
        return no('setup is needed')
    need = ['return_to', 'assoc_handle', 'sig', 'signed'] + (['op_endpoint', 'response_nonce'] if v2 else ['identity'])
    for f in need:
        if 'openid.' + f not in args:
            return no('a required field is missing')
    signed = args['openid.signed'].split(',')
    for f in ['return_to', 'identity'] + (['response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint'] if v2 else []):
        if 'openid.' + f in args and f not in signed:
            return no('a required field is not signed')
    rt = args['openid.return_to']
    if rt != return_to:
        # other return_to values: the same location with other arguments, or a bad one
        if rt.split('?')[0] == return_to.split('?')[0]:
            pass
        elif rt == 'http://rp.example/back' and same and location in (rt, 'HTTP://RP.EXAMPLE/back'):
            pass
        elif rt.lower() == return_to.lower() or '#' in rt or rt.strip() == return_to.strip():
            return (None, None, None, None)
        else:
            same = False
    if not same:
        return no('return_to is another place')
    rt_args = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    for k, v in rt_args:
        if args.get(k) != v:
            return no('an argument of return_to did not arrive')
    for k, v in args.items():
        if not k.startswith('openid.') and (k, v) not in rt_args:
            return no('an argument is not in return_to')
    # who may say so
    server = GOOD
    types = [TYPE[case['version']]]
    if v2:
        op = args['openid.op_endpoint']
        cid, ident = args.get('openid.claimed_id'), args.get('openid.identity')
        if (cid is None) != (ident is None):
            return no('only one of identity and claimed identifier is there')
        if cid is None:
            server = op
            if op not in (GOOD, EVIL) and urldefrag(op)[0] in (GOOD, EVIL):
                return (None, None, None, None)
            if op not in (GOOD, EVIL):
                return no('nobody is at the endpoint')
            if op == EVIL:
                # an answer that names no identity can come from any provider, which is asked itself
                return (None, None, None, None)
        else:
            cid = urldefrag(cid)[0]
            at = {claimed: GOOD, 'http://victim.example/': GOOD, 'http://other.example/': EVIL}.get(cid)
            if at is None:
                return no('nothing was discovered for the claimed identifier')
            want_local = local if case['delegate'] else cid
            if op != at or TYPE['2'] not in types or (ident != want_local and not (not case['delegate'] and ident == args['openid.claimed_id'])):
                return no('discovery contradicts the assertion')
            if ident != want_local:
                return (None, None, None, None)
            server = op
    else:
        cid = args.get('openid1_claimed_id', session_claimed)
        if cid is None:
            return (None, None, None, None)
        at = {claimed: GOOD, 'http://victim.example/': GOOD, 'http://other.example/': EVIL}.get(cid)
        if at is None:
            return no('nothing was discovered for the claimed identifier')
        if types[0] == TYPE['2'] or args['openid.identity'] != (local if case['delegate'] else cid):
            return no('discovery contradicts the assertion')
        server = at
    if server == EVIL:
        return (None, None, None, None)
    # the signature
    mode = 'asked'
    k = next((keys[n] for n in ('first', 'second') if keys[n].handle == args['openid.assoc_handle']), None)
    if case['store'] and k is not None:
        issued = NOW + (k is keys['first'])
        if issued + lifetime - now <= 0:
            mode = 'either'
        else:
            mode = 'assoc'
            if not args['openid.sig'] or args['openid.sig'] != sig_of(k, args):
                return no('the signature is wrong')
    # the nonce
    nonce = args.get('openid.response_nonce') if v2 else args.get('janrain_nonce')
    if nonce and nonce[:20] != nonce[:20].upper():
        # RFC 3339 allows small letters, OpenID does not speak of them
        return (None, None, None, None)
    if not nonce_ok(nonce, now, case['store'] is not None):
        return no('the nonce is bad')
    return (True, None, mode, server)


FACETS = [Facet('assertions', case, check, quick=16000, rule='the response was altered, or accepted')]
