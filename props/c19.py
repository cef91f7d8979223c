"""URL normalisation: URLs are generated as parts, spelled in equivalent ways, and compared by their parts."""
import re

from vf.core import Facet, expect, expect_eq, st
from vf import gen
from openid.urinorm import urinorm

ASSUMPTIONS = ['user information is compared as it is spelled', 'port 0 and IPvFuture literals are outside of the domain', 'sub-delimiters in paths count as equal to their percent-encoded forms, and form encoding of queries is decoded']

OCTETS = [0x41, 0x61, 0x7a, 0x30, 0x2d, 0x2e, 0x5f, 0x7e, 0x20, 0x25, 0x2f, 0x3f, 0x23, 0x26, 0x3d, 0x2b, 0x3b, 0x2c, 0x3a, 0x40, 0x21, 0x24, 0x27, 0x28, 0x2a, 0x22, 0x3c, 0x5b, 0x5c, 0x7c, 0x00, 0x0a, 0x7f, 0xc3, 0xa9,
          0xff, 0x80, 0xe2, 0x82, 0xac]
octet = st.sampled_from(OCTETS)
chunk = st.one_of(st.lists(octet, max_size=4), st.lists(octet, max_size=4), st.sampled_from([[0x61], [0x62, 0x63], [], [0x2e], [0x2e, 0x2e], [0x2e, 0x2e, 0x2e], [0xc3, 0xa9], [0x2e, 0x61]]))
pair = st.tuples(chunk, chunk).map(list)
host = st.sampled_from(['example.com', 'www.example.com', 'a.b', 'localhost', 'xn--bcher-kva.example', '127.0.0.1', '[::1]', '[2001:db8::a]', '*', '*.example.com', 'example.com.', 'x_y.example', 'a~b.example', "it's.example"])
url = st.fixed_dictionaries({'scheme': st.sampled_from(['http', 'https']), 'host': host, 'port': st.sampled_from([None, None, None, 80, 443, 8080, 1, 65535, 8000]),
                             'user': st.sampled_from([None, None, None, None, 'user', 'user:pw', 'u%20v', '', 'a:', ':']),
                             'path': st.lists(chunk, max_size=4), 'query': st.one_of(st.none(), st.none(), st.lists(pair, min_size=1, max_size=3)), 'fragment': st.one_of(st.none(), st.none(), chunk)})
spell = st.fixed_dictionaries({'scheme_case': st.integers(0, 3), 'host_case': st.integers(0, 15), 'host_pct': st.integers(0, 15), 'idn': st.booleans(), 'port': st.sampled_from(['min', 'show', 'empty', 'zeros']),
                               'pct': st.lists(st.integers(0, 3), min_size=1, max_size=6), 'dots': st.lists(st.tuples(st.integers(0, 4), st.integers(0, 5)), max_size=2), 'no_path': st.booleans(), 'plus': st.booleans(),
                               'no_eq': st.booleans()})
LEGAL_PATH = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@")
UNRESERVED = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~")
DOTS = ['.', 'x/..', '%2e', 'x/%2E.', 'x/y/../..', './.']


class Pct(object):
    """Spells octets; how depends on a list of small numbers used in turn."""

    def __init__(self, choices):
        self.choices, self.i = choices, 0

    def text(self, octets, literal, plus=False):
        out = ''
        for o in octets:
            c = self.choices[self.i % len(self.choices)]
            self.i += 1
            if plus and o == 0x20:
                out += '+'
            elif o in literal and c != 3 and not (c == 2 and o in UNRESERVED):
                out += chr(o)
            else:
                out += ('%%%02X' if c % 2 else '%%%02x') % o
        return out


def is_dots(c):
    return c == [0x2e] or c == [0x2e, 0x2e]


def text_of(u, sp):
    pct = Pct(sp['pct'])
    scheme = {0: u['scheme'], 1: u['scheme'].upper(), 2: u['scheme'].title(), 3: u['scheme'][:-1] + u['scheme'][-1].upper()}[sp['scheme_case']]
    h = u['host']
    if sp['idn']:
        h = h.replace('xn--bcher-kva', 'b\xfccher')
    if not h.startswith('['):
        h = ''.join(('%%%02X' % ord(c)) if (sp['host_pct'] >> i & 1) and i < 4 and ord(c) < 128 else c for i, c in enumerate(h)) if sp['host_pct'] > 3 else h
    if sp['host_case'] & 1:
        h = h.upper() if '%' not in h else h
    default = {'http': 80, 'https': 443}[u['scheme']]
    p = u['port']
    if p is None or p == default:
        h += {'min': '', 'show': ':%d' % default, 'empty': ':', 'zeros': ':0%d' % default}[sp['port']]
    else:
        h += (':0%d' if sp['port'] == 'zeros' else ':%d') % p
    if u['user'] is not None:
        h = u['user'] + '@' + h
    segs = [pct.text(c, LEGAL_PATH) for c in u['path']]
    for at, k in sp['dots']:
        if segs:
            segs.insert(at % len(segs), DOTS[k])
    path = ''.join('/' + s for s in segs)
    if not segs and not sp['no_path']:
        path = '/'
    out = '%s://%s%s' % (scheme, h, path)
    if u['query'] is not None:
        qs = []
        for k, v in u['query']:
            legal = (LEGAL_PATH | set(b'/?')) - set(b'&=+')
            k, v = pct.text(k, legal, sp['plus']), pct.text(v, legal | {0x3d}, sp['plus'])
            qs.append(k if not v and sp['no_eq'] and k else k + '=' + v)
        out += '?' + '&'.join(qs)
    if u['fragment'] is not None:
        out += '#' + pct.text(u['fragment'], LEGAL_PATH | set(b'/?'))
    return out


def parts_of(u):
    """What a URL means."""
    out, slash = [], False
    for c in u['path']:
        slash = False
        if c == [0x2e]:
            slash = True
        elif c == [0x2e, 0x2e]:
            if out:
                out.pop()
            slash = True
        else:
            out.append(bytes(c))
    if slash or not out:
        out.append(b'')
    port = u['port']
    if port == {'http': 80, 'https': 443}[u['scheme']]:
        port = None
    return {'scheme': u['scheme'], 'host': u['host'], 'port': port, 'user': u['user'], 'path': out,
            'query': [(bytes(k), bytes(v)) for k, v in u['query'] or []], 'fragment': bytes(u['fragment'] or [])}


URL = re.compile(r'(https?)://(?:([^@/]*)@)?(\[[0-9a-f:.]+\]|[^:/?#\[\]@]*)(?::([1-9][0-9]*))?(/[^?#]*)(?:\?([^#]*))?(?:#(.*))?\Z', re.S)


def unpct(s, plus=False):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '%':
            expect(re.match('%[0-9A-F]{2}', s[i:i + 3]) is not None, 'percent-encoding in %r is not in upper case', s)
            o = int(s[i + 1:i + 3], 16)
            expect(o not in UNRESERVED, 'unreserved character is percent-encoded in %r', s)
            out.append(o)
            i += 3
        else:
            out.append(0x20 if plus and s[i] == '+' else ord(s[i]))
            i += 1
    return bytes(out)


def read(n):
    """The parts of a normalised URL, read back with an independent parser."""
    expect(isinstance(n, str) and all(33 <= ord(c) < 127 and c not in '"<>\\^`{|}' for c in n), 'characters in %r', n)
    m = URL.match(n)
    expect(m is not None, 'not a normalised URL: %r', n)
    scheme, user, h, p, path, q, frag = m.groups()
    expect(p is None or int(p) != {'http': 80, 'https': 443}[scheme], 'default port in %r', n)
    expect(h == h.lower(), 'host in %r', n)
    segs = path[1:].split('/')
    expect('.' not in segs and '..' not in segs, 'dot segments in %r', n)
    qs = []
    if q:
        for item in q.split('&'):
            k, _, v = item.partition('=')
            qs.append((unpct(k, True), unpct(v, True)))
    return {'scheme': scheme, 'host': h, 'port': int(p) if p else None, 'user': user, 'path': [unpct(s) for s in segs], 'query': qs, 'fragment': unpct(frag or '')}


case = st.fixed_dictionaries({'a': url, 'sa': spell, 'sb': spell, 'b': url, 'mix': st.lists(st.sampled_from(['scheme', 'host', 'port', 'path', 'query', 'fragment', 'user']), max_size=2)})


def norm(u):
    try:
        return urinorm(u)
    except ValueError as e:
        expect(False, 'valid URL %r refused: %s', u, e)


def check(ctx, case):
    a = case['a']
    b = dict(a)
    for k in case['mix']:
        b[k] = case['b'][k]
    ta, ta2, tb = text_of(a, case['sa']), text_of(a, case['sb']), text_of(b, case['sb'])
    na, na2, nb = norm(ta), norm(ta2), norm(tb)
    wanted = parts_of(a)
    got = read(na)
    for k in wanted:
        expect_eq(got[k], wanted[k], '%s of %r, normalised to %r' % (k, ta, na))
    expect_eq(urinorm(na), na, 'normalised again')
    expect_eq(na2, na, 'normal form of %r, which is equivalent to %r' % (ta2, ta))
    if parts_of(b) != wanted:
        expect(na != nb, '%r and %r have the same normal form %r', ta, tb, na)
        ctx.label('different')
    else:
        expect_eq(nb, na, 'normal form of %r, which is equivalent to %r' % (tb, ta))
        ctx.label('equivalent')
    ctx.nt(ta != na or ta2 != na)


junk = st.one_of(
    gen.tricky_text, gen.tricky_text.map(lambda s: 'http://' + s), gen.tricky_text.map(lambda s: 'http://example.com' + s), gen.tricky_text.map(lambda s: 'http://example.com/' + s),
    gen.tricky_text.map(lambda s: 'http://example.com/?' + s), gen.tricky_text.map(lambda s: 'http://' + s + '.example/'), gen.tricky_text.map(lambda s: 'http://example.com:' + s), gen.tricky_text.map(lambda s: 'http://' + s + '@example.com/'),
    gen.any_text.map(lambda s: 'https://example.com/' + s), gen.any_text,
    st.sampled_from(['', 'http:', 'http://', 'http:///', 'http:///path', 'ftp://example.com/', 'mailto:a@b', '//example.com/', 'example.com', '/path', 'http:example.com', 'http://[', 'http://[::1', 'http://]/', 'http://[zz]/', 'http://ex ample.com/',
                     'http://example.com:abc/', 'http://example.com:99999/', 'http://example.com:-1/', 'http://a%2Fb/', 'http://a%40b/', 'http://a%3A80/', 'http://%/', 'http://%zz/', 'http://example.com/%', 'http://example.com/%zz', 'http://a..b/',
                     'http://' + 'a' * 64 + '.com/', 'http://\u2603.example/', 'http://\xdf.example/', 'http://example.com/\xe9', 'http://example.com/?\xe9=\xe8', 'http://example.com/#\xe9', 'http://:80/', 'http://@/', 'http://:@example.com',
                     'javascript:alert(1)', 'http://example.com\\evil', 'http://example.com/a b', 'http://xn--/', 'http://xn--\xe9/']))


def check_junk(ctx, text):
    try:
        n = urinorm(text)
    except ValueError:
        ctx.label('refused')
        return
    ctx.label('normalised')
    ctx.nt()
    expect(isinstance(n, str), 'result %r', n)
    expect(all(33 <= ord(c) < 127 for c in n), 'characters in %r', n)
    expect(n.startswith(('http://', 'https://')), 'scheme of %r', n)
    expect_eq(urinorm(n), n, 'normalised again')


FACETS = [Facet('parts', case, check, 20000, rule='at least one spelling differs from its normal form'), Facet('junk', junk, check_junk, 10000, rule='accepted as a URL')]
