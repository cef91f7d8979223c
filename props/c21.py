"""Messages and namespaces."""
import html.parser
from urllib.parse import parse_qsl, urlsplit

from vf.core import Facet, Violation, expect, expect_eq, expect_raises, st
from vf import gen, ref
from openid import message as m
from openid.extensions import sreg, ax, pape  # noqa: F401  (register their aliases)
from openid.oidutil import appendArgs
from openid.message import (BARE_NS, OPENID_NS, InvalidNamespace, InvalidOpenIDNamespace, Message, NamespaceMap)

ASSUMPTIONS = ['text without surrogates', 'HTML forms: text that XML can represent',
               'the deprecated namespace "sreg" (not a URI) is left out']

NSES = [None, ref.OPENID10, ref.OPENID11, ref.OPENID2, ref.OPENID2]
ALIASES = ['foo', 'bar', 'sreg', 'ax', 'pape', 'ext0', 'ext1', 'x-1', '\xe9', 'Foo', 'nsx', 'p', 'sig2', 'open']
URIS = ['http://example.com/ext/1', 'http://example.com/ext/2', m.SREG_URI, ax.FetchRequest.ns_uri, pape.ns_uri, 'urn:x:\xe9',
        'http://specs.openid.net/extensions/oauth/1.0', 'a:', 'http://openid.net/extensions/sreg/1.1', 'HTTP://EXAMPLE.COM/ext/1']
OPKEYS = ['mode', 'identity', 'return_to', 'claimed_id', 'sig', 'signed', 'error', 'realm', 'other', '', 'Mode', 'expires_in',
          'assoc_handle', 'user_setup_url']
EXTKEYS = ['mode', 'nickname', 'type.email', 'value.email.1', 'ns', 'ns.x', '', 'a.b.c', 'policy_url', 'Nickname', '.']
BAREKEYS = ['nonce', 'janrain_nonce', 'openid', 'openidx.a', 'Openid.mode', 'x.openid.mode', 'sreg.nickname', '', ' ', 'openid1_claimed_id',
            'ns.foo', 'mode', '.openid']
# Names that the OpenID specifications use, which can not be the alias of an extension.
FIELDS = ['ns', 'mode', 'error', 'return_to', 'contact', 'reference', 'signed', 'assoc_type', 'session_type', 'dh_modulus', 'dh_gen', 'dh_consumer_public', 'claimed_id', 'identity', 'realm',
          'invalidate_handle', 'op_endpoint', 'response_nonce', 'sig', 'assoc_handle', 'trust_root', 'openid']

value = st.one_of(gen.tricky_text, gen.ident, gen.any_text)
message_case = st.fixed_dictionaries({
    'ns': st.sampled_from(NSES),
    'exts': st.dictionaries(st.one_of(st.sampled_from(ALIASES), gen.ident), st.sampled_from(URIS), max_size=3),
    'op': st.dictionaries(st.sampled_from(OPKEYS), value, max_size=4),
    'dotted': st.dictionaries(st.sampled_from(['zzz.k', 'unk.a.b', 'zzz.', 'sreg.nickname', 'ax.mode', 'pape.x', 'sreg.a.b', 'Sreg.nickname', 'AX.mode', 'FOO.k', 'Foo.k', 'foo.k', 'BAR.', 'P.x', 'X-1.a', 'Nsx.b', 'EXT0.k', '\xc9.k']), value, max_size=3),
    'ext': st.lists(st.tuples(st.integers(0, 5), st.one_of(st.sampled_from(EXTKEYS), gen.tricky_text), value).map(list), max_size=5),
    'bare': st.dictionaries(st.sampled_from(BAREKEYS), value, max_size=3),
    'base': st.sampled_from(['http://op.example/', 'http://op.example/?a=b&a=c', 'https://op.example/x?y', 'http://op.example/?q=%26#frag',
                             'http://op.example#f']),
})


def is1(ns):
    return ns != ref.OPENID2


def build(case):
    """post args plus what they mean: {(namespace, key): value}; None when the namespaces are inconsistent."""
    args, meaning = {}, {}
    openid_ns = case['ns'] or ref.OPENID10
    if case['ns']:
        args['openid.ns'] = case['ns']
    exts = {a: u for a, u in case['exts'].items() if a not in FIELDS and a}
    for alias, uri in exts.items():
        args['openid.ns.' + alias] = uri
    ok = len(set(exts.values())) == len(exts) and openid_ns not in exts.values()
    for k, v in case['op'].items():
        args['openid.' + k] = v
        meaning[('op', k)] = v
    names = sorted(exts)
    for i, k, v in case['ext']:
        if names:
            alias = names[i % len(names)]
            args['openid.%s.%s' % (alias, k)] = v
            meaning[(exts[alias], k)] = v
    for k, v in case['dotted'].items():
        alias, rest = k.split('.', 1)
        if alias in exts:
            continue
        args['openid.' + k] = v
        uri = m.registered_aliases.get(alias) if is1(case['ns']) else None
        if uri is None:
            meaning[('op', k)] = v
        else:
            if uri in exts.values():
                ok = False
            meaning[(uri, rest)] = v
    for k, v in case['bare'].items():
        args[k] = v
        meaning[('bare', k)] = v
    return args, meaning, exts, ok


def ns_of(tag):
    return {'op': OPENID_NS, 'bare': BARE_NS}.get(tag, tag)


class Form(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.fields, self.attrs, self.bad = [], None, []

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if tag == 'form':
            self.attrs = attrs
        elif tag == 'input':
            # browsers send every input that has a name
            if attrs.get('type') == 'hidden' or 'name' in attrs:
                self.fields.append((attrs['name'], attrs.get('value')))
            elif attrs.get('type') != 'submit':
                self.bad.append(attrs)
        else:
            self.bad.append((tag, attrs))


def xml_ok(s):
    # the HTML attribute serialization keeps these characters
    return all(c in '\t\n' or (ord(c) >= 32 and not 0x7f <= ord(c) <= 0x9f and c not in '\ufffe\uffff' and
                               (ord(c) & 0xfffe) != 0xfffe and not 0xfdd0 <= ord(c) <= 0xfdef) for c in s)


def check_codecs(ctx, case):
    args, meaning, exts, ok = build(case)
    try:
        msg = Message.fromPostArgs(dict(args))
    except KeyError as e:
        expect(isinstance(e, InvalidNamespace), 'wrong exception %r', e)
        expect(not ok, 'consistent message rejected: %r (%s)', args, e)
        ctx.label('inconsistent')
        return
    expect(ok, 'inconsistent namespaces accepted: %r', args)
    ctx.nt(bool(exts) or bool(case['bare']))
    ctx.label('ns=%s' % case['ns'], 'exts=%d' % len(exts), 'bare' if case['bare'] else 'no bare')
    verify(msg, args, meaning, exts, case['ns'])

    # messages are equal when their arguments are
    again, other = Message.fromPostArgs(dict(reversed(list(args.items())))), Message.fromPostArgs(dict(args))
    expect(msg == again and not msg != again, 'a message with the same arguments is not equal')
    tag, key = sorted(meaning)[0] if meaning and case['base'].endswith('/') else ('op', 'zzz')
    if (tag, key) in meaning and case['op']:
        other.delArg(ns_of(tag), key)
    else:
        other.setArg(ns_of(tag), key, meaning.get((tag, key), '') + '!')
    expect(msg != other and not msg == other and other != msg, 'a message with another %r is equal', (tag, key))
    verify(msg, args, meaning, exts, case['ns'])

    # every other representation carries the same arguments
    verify(msg.copy(), args, meaning, exts, case['ns'])
    expect_eq(parse_qsl(msg.toURLEncoded(), keep_blank_values=True, strict_parsing=bool(args)), sorted(args.items()),
              'form encoded arguments')
    base = case['base']
    url = msg.toURL(base)
    parts, bparts = urlsplit(url), urlsplit(base)
    expect_eq((parts.scheme, parts.netloc, parts.path, parts.fragment),
              (bparts.scheme, bparts.netloc, bparts.path, bparts.fragment), 'URL apart from its query')
    got = parse_qsl(parts.query, keep_blank_values=True)
    had = parse_qsl(bparts.query, keep_blank_values=True)
    expect_eq(got[:len(had)], had, 'arguments that the URL had')
    expect_eq(sorted(got[len(had):]), sorted(args.items()), 'arguments in the URL')

    if case['bare']:
        for f in (msg.toArgs, msg.toKVForm):
            try:
                f()
            except ValueError:
                pass
            else:
                raise Violation('%s dropped arguments outside of the openid namespace' % f.__name__)
    else:
        openid_args = {k[7:]: v for k, v in args.items()}
        expect_eq(msg.toArgs(), openid_args, 'toArgs')
        verify(Message.fromOpenIDArgs(dict(openid_args)), args, meaning, exts, case['ns'])
        representable = not any('\n' in k + v or ':' in k for k, v in openid_args.items())
        try:
            kv = msg.toKVForm()
        except ValueError:
            expect(not representable, 'KV form refused %r', openid_args)
        else:
            expect(representable, 'KV form of unrepresentable arguments %r', openid_args)
            expect_eq(kv.encode('utf-8'), ref.kv(sorted(openid_args.items())), 'KV form')
            if not any(k.strip() != k or v.strip() != v for k, v in openid_args.items()):
                verify(Message.fromKVForm(kv), args, meaning, exts, case['ns'])
                ctx.label('kv round trip')

    if all(xml_ok(k) and xml_ok(v) for k, v in args.items()):
        check_form(msg.toFormMarkup(base), base, args)
        ctx.label('form')


def check_form(markup, base, args):
    form = Form()
    form.feed(markup)
    form.close()
    expect_eq(form.bad, [], 'unexpected elements in the form')
    expect_eq(form.attrs['action'], base, 'form action')
    expect_eq(form.attrs['method'].lower(), 'post', 'form method')
    expect_eq(form.attrs['accept-charset'], 'UTF-8', 'form charset')
    expect_eq(form.attrs['enctype'], 'application/x-www-form-urlencoded', 'form encoding')
    expect_eq(sorted(form.fields), sorted(args.items()), 'form fields')


def verify(msg, args, meaning, exts, ns):
    expect_eq(msg.toPostArgs(), args, 'post args round trip')
    expect_eq(msg.isOpenID1(), is1(ns), 'isOpenID1')
    expect_eq(msg.isOpenID2(), not is1(ns), 'isOpenID2')
    expect_eq(msg.getOpenIDNamespace(), ns or ref.OPENID10, 'OpenID namespace')
    by_ns = {'op': {}, 'bare': {}}
    for u in exts.values():
        by_ns[u] = {}
    for (tag, k), v in meaning.items():
        by_ns.setdefault(tag, {})[k] = v
        expect_eq(msg.getArg(ns_of(tag), k), v, 'argument %r' % ((tag, k),))
        expect(msg.hasKey(ns_of(tag), k), 'hasKey %r', (tag, k))
        name = msg.getKey(ns_of(tag), k)
        expect_eq(args.get(name), v, 'getKey %r' % ((tag, k),))
        if tag != 'bare':
            expect_eq(msg.getAliasedArg(name[7:]), v, 'aliased argument %r' % name)
    for tag, d in by_ns.items():
        expect_eq(msg.getArgs(ns_of(tag)), d, 'arguments of %r' % tag)
        expect(not msg.hasKey(ns_of(tag), 'not-there'), 'hasKey of a missing key')
        expect_eq(msg.getArg(ns_of(tag), 'not-there', 'dflt'), 'dflt', 'default value')
    for alias, u in exts.items():
        expect_eq(msg.getAliasedArg('ns.' + alias), u, 'namespace of %r' % alias)
        expect_eq(msg.namespaces.getAlias(u), alias, 'alias of %r' % u)


# ---- building messages
op_strategy = st.one_of(
    st.tuples(st.just('set'), st.integers(0, 9), st.sampled_from(['mode', 'k1', 'k2', 'a.b', 'nickname']), value),
    st.tuples(st.just('set'), st.integers(0, 9), st.sampled_from(['mode', 'k1', 'k2', 'a.b', 'nickname']), value),
    st.tuples(st.just('del'), st.integers(0, 9), st.sampled_from(['mode', 'k1', 'k2', 'a.b', 'nickname'])),
    st.tuples(st.just('alias'), st.integers(0, 7), st.sampled_from(ALIASES[:7] + ['mode', 'a.b', 'openid'] + FIELDS[::3])),
    st.tuples(st.just('update'), st.integers(0, 9), st.dictionaries(st.sampled_from(['k1', 'k2', 'k3']), value, max_size=3)),
    st.tuples(st.just('copy')),
).map(list)
builder_case = st.fixed_dictionaries({'ns': st.sampled_from([ref.OPENID10, ref.OPENID11, ref.OPENID2]),
                                      'ops': st.lists(op_strategy, max_size=12)})


def check_builder(ctx, case):
    msg = Message(case['ns'])
    targets = ['op', 'bare'] + URIS[:8]
    model, aliases = {}, {}       # {(tag, key): value}, {alias: uri}
    known = {}                    # uri -> alias
    frozen = []
    for op in case['ops']:
        if op[0] == 'copy':
            frozen.append((msg, dict(model), msg.toPostArgs()))
            msg = msg.copy()
            continue
        if op[0] == 'alias':
            uri, alias = URIS[op[1]], op[2]
            good = (alias not in FIELDS and '.' not in alias and
                    aliases.get(alias, uri) == uri and known.get(uri, alias) == alias)
            try:
                got = msg.namespaces.addAlias(uri, alias)
            except KeyError:
                expect(not good, 'alias %r for %r refused', alias, uri)
            else:
                expect(good, 'alias %r for %r accepted', alias, uri)
                expect_eq(got, alias, 'alias added')
                aliases[alias], known[uri] = uri, alias
            continue
        tag = targets[op[1]]
        if op[0] == 'set':
            key = op[2] if tag != 'op' else op[2].replace('.', '_')
            msg.setArg(ns_of(tag), key, op[3])
            model[(tag, key)] = op[3]
        elif op[0] == 'update':
            msg.updateArgs(ns_of(tag), op[2])
            for k, v in op[2].items():
                model[(tag, k)] = v
        elif op[0] == 'del':
            key = op[2] if tag != 'op' else op[2].replace('.', '_')
            try:
                msg.delArg(ns_of(tag), key)
            except KeyError:
                expect((tag, key) not in model, 'delete of %r', (tag, key))
            else:
                expect((tag, key) in model, 'delete of missing %r', (tag, key))
                del model[(tag, key)]
        if tag not in ('op', 'bare') and tag not in known and msg.namespaces.isDefined(tag):
            alias = msg.namespaces.getAlias(tag)
            expect(alias not in aliases, 'generated alias %r is in use', alias)
            aliases[alias], known[tag] = tag, alias
    ctx.nt(len(model) > 1 and bool(known))
    ctx.label('exts=%d' % len(known), 'copies=%d' % min(2, len(frozen)))
    compare(msg, model, 'built message')
    back = Message.fromPostArgs(msg.toPostArgs())
    compare(back, model, 'sent and received message')
    expect_eq(back.isOpenID2(), case['ns'] == ref.OPENID2, 'version of the received message')
    for old, old_model, old_args in frozen:
        compare(old, old_model, 'copied message')
        expect_eq(old.toPostArgs(), old_args, 'message after its copy changed')


def compare(msg, model, what):
    for tag in ['op', 'bare'] + URIS[:8]:
        expect_eq(msg.getArgs(ns_of(tag)), {k: v for (t, k), v in model.items() if t == tag}, '%s, arguments of %r' % (what, tag))


# ---- what is not a message
bad_ns = st.fixed_dictionaries({
    'ns': st.one_of(st.sampled_from(['', ' ', 'http://specs.openid.net/auth/2.0/', 'http://openid.net/signon/1.2', 'HTTP://specs.openid.net/auth/2.0',
                                     ref.OPENID2, ref.OPENID10, ref.OPENID11, 'http://specs.openid.net/auth/2.0 ', ref.OPENID2 + '/signon']), gen.tricky_text),
    'op': st.dictionaries(st.sampled_from(OPKEYS), value, max_size=2),
    'alias': st.one_of(st.none(), st.sampled_from(['foo', 'Mode', 'a.b', 'sreg', 'modes', 'x', 'ext0', 'ax', 'foo.', '.foo', '\xe9'] + FIELDS)),
})


def check_invalid(ctx, case):
    args = {'openid.' + k: v for k, v in case['op'].items()}
    args['openid.ns'] = case['ns']
    if case['alias'] is not None:
        args['openid.ns.' + case['alias']] = 'http://example.com/ext'
    ns_ok = case['ns'] in (ref.OPENID2, ref.OPENID10, ref.OPENID11)
    alias_ok = case['alias'] is None or not (case['alias'] in FIELDS or '.' in case['alias'])
    for parse, a in ((Message.fromPostArgs, args), (Message.fromOpenIDArgs, {k[7:]: v for k, v in args.items()})):
        try:
            msg = parse(dict(a))
        except InvalidOpenIDNamespace:
            expect(not ns_ok, 'OpenID namespace %r refused', case['ns'])
        except InvalidNamespace:
            expect(ns_ok and not alias_ok, 'alias %r refused', case['alias'])
        else:
            expect(ns_ok and alias_ok, 'accepted %r', args)
            expect_eq(msg.toPostArgs(), args, 'round trip')
    for i, k in enumerate(sorted(args)):
        expect_raises(TypeError, 'a query with two values of %r' % k, Message.fromPostArgs, dict(args, **{k: [args[k], 'second'] if i % 2 else [args[k]]}))
    # arguments in the order given, and sorted when there is none
    pairs = [(k, v) for k, v in case['op'].items()] + [(k, v + '2') for k, v in reversed(list(case['op'].items()))]
    for base in ('http://op.example/', 'http://op.example/?a=b', 'http://op.example/?a=b#c?d', 'op?', ''):
        had = base.partition('#')[0].partition('?')[2]
        for given, wanted in ((pairs, pairs), (tuple(pairs), pairs), (iter(pairs), pairs), (case['op'], sorted(case['op'].items()))):
            url, _, fragment = appendArgs(base, given).partition('#')
            expect_eq(fragment, base.partition('#')[2], 'fragment')
            expect_eq(url.partition('?')[0], base.partition('#')[0].partition('?')[0], 'URL before the query')
            query = url.partition('?')[2]
            expect(query.startswith(had), 'query %r lost %r', query, had)
            expect_eq(parse_qsl(query[len(had):], keep_blank_values=True), wanted, 'arguments appended to %r' % base)
    ctx.nt(not (ns_ok and alias_ok))
    ctx.label('ns ok' if ns_ok else 'ns bad', 'alias ok' if alias_ok else 'alias bad')


# ---- namespace maps
nsmap_case = st.lists(st.one_of(
    st.tuples(st.just('add'), st.integers(0, 7)),
    st.tuples(st.just('addAlias'), st.integers(0, 7), st.sampled_from(['ext0', 'ext1', 'ext2', 'foo', 'ext3', 'mode', 'x.y'])),
).map(list), max_size=14)


def check_nsmap(ctx, case):
    nm = NamespaceMap()
    by_uri, by_alias = {}, {}
    for op in case:
        uri = URIS[op[1]]
        if op[0] == 'add':
            alias = nm.add(uri)
            if uri in by_uri:
                expect_eq(alias, by_uri[uri], 'alias of a known namespace')
            else:
                expect(alias not in by_alias, 'alias %r given to two namespaces', alias)
        else:
            alias = op[2]
            good = by_uri.get(uri, alias) == alias and by_alias.get(alias, uri) == uri and alias not in ('mode', 'x.y')
            try:
                nm.addAlias(uri, alias)
            except KeyError:
                expect(not good, 'refused %r for %r', alias, uri)
                continue
            expect(good, 'accepted %r for %r', alias, uri)
        by_uri[uri], by_alias[alias] = alias, uri
    for uri in URIS:
        expect_eq(nm.getAlias(uri), by_uri.get(uri), 'alias of %r' % uri)
        expect_eq(uri in nm, uri in by_uri, 'definition of %r' % uri)
    for alias in list(by_alias) + ['ext9', 'mode']:
        expect_eq(nm.getNamespaceURI(alias), by_alias.get(alias), 'namespace of %r' % alias)
    expect_eq(dict(nm.items()), by_uri, 'items')
    expect_eq(dict(nm.iteritems()), by_uri, 'iteritems')
    expect_eq(sorted(nm.iterNamespaceURIs()), sorted(by_uri), 'namespaces')
    expect_eq(sorted(nm.iterAliases()), sorted(by_alias), 'aliases')
    ctx.nt(len(by_uri) > 1)
    ctx.label('uris=%d' % len(by_uri))


FACETS = [
    Facet('codecs', message_case, check_codecs, 4000, rule='consistent message with an extension namespace or bare arguments'),
    Facet('builder', builder_case, check_builder, 3000, rule='several arguments and at least one extension namespace'),
    Facet('invalid', bad_ns, check_invalid, 2500, rule='invalid OpenID namespace or alias'),
    Facet('nsmap', nsmap_case, check_nsmap, 2500, rule='two or more namespaces'),
]
