"""Attribute exchange: requests and answers on the wire."""
from vf.core import Facet, expect, expect_eq, expect_raises, st
from vf import gen, ref
from vf.env import clock
from vf.trip import login
from openid.consumer.consumer import SuccessResponse
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.extensions import ax
from openid.message import Message, NamespaceMap

ASSUMPTIONS = ['values and types have no newline (they could not be signed)', 'no alias of the form extN is chosen together with generated aliases']
AX = 'http://openid.net/srv/ax/1.0'
TYPES = ['http://axschema.org/contact/email', 'http://axschema.org/namePerson', 'http://x.example/a,b', 'http://x.example/?q=1&r=2#f', 'urn:x', 'email', 'http://x.example/\xe9', 'http://axschema.org/contact/Email', ' ']
ALIASES = ['email', 'name', 'Email', 'a', 'b', 'x_y', 'a-b', '1', 'type', 'count', 'value', 'required', 'unlimited', 'email1', 'alias\xe9', 'q' * 33]
BAD_ALIASES = ['a,b', ',', 'a.b', '.', 'email.1']
RESERVED = ['mode', 'ns', 'signed', 'identity', 'openid', 'realm']
value = st.one_of(st.sampled_from(['x', '', ' ', 'a,b', '0', 'None', '\xe9\u20ac', '<&>"', 'unlimited', 'http://x.example/']), gen.nonl(gen.xml_text))
few = st.lists(st.one_of(value, value, value, st.sampled_from([0, 7, -1])), max_size=4)
many = st.sampled_from([11, 33, 101, 257, 1100]).map(lambda n: list(range(n)))
values = st.sampled_from([few] * 30 + [many]).flatmap(lambda v: v)
attr = st.fixed_dictionaries({'type': st.sampled_from(TYPES), 'alias': st.sampled_from([None] * 40 + ALIASES * 2 + BAD_ALIASES[:2] + RESERVED[:1]), 'count': st.sampled_from([1, 1, 2, 3, 4, 10, 'unlimited', 'unlimited', 'unlimited', 10 ** 20]), 'required': st.booleans()})
UPDATES = [None] * 8 + ['', 'http://rp.example/update', 'http://rp.example/', 'http://rp.example/a?b=c&d'] * 2 + ['http://other.example/update', 'https://rp.example/update', 'http://rp.example:8080/', 'http://rp.example.evil.example/', 'ftp://rp.example/']
fetch = st.fixed_dictionaries({'attrs': st.one_of(st.lists(attr, max_size=6), st.lists(attr, min_size=2, max_size=8)), 'update': st.sampled_from(UPDATES), 'given': st.sampled_from([True, True, False]), 'own_update': st.sampled_from([None, 'http://rp.example/own']),
                               'answers': st.lists(st.tuples(st.integers(0, 7), values, st.booleans()).map(list), max_size=6), 'extra': st.sampled_from([None] * 15 + ['http://axschema.org/other'])})
INSIDE = ['http://rp.example/update', 'http://rp.example/', 'http://rp.example/a?b=c&d']


def describe(attrs):
    return sorted((a.type_uri, a.alias, a.count, bool(a.required), a.wantsUnlimitedValues()) for a in attrs)


def check_fetch(ctx, case):
    clock.set(1500000000)
    request = ax.FetchRequest(case['update'])
    model = {}
    for a in case['attrs']:
        if a['alias'] in BAD_ALIASES:
            expect_raises(ax.AXError, 'alias %r' % a['alias'], ax.AttrInfo, a['type'], a['count'], a['required'], a['alias'])
            continue
        info = ax.AttrInfo(a['type'], a['count'], a['required'], a['alias'])
        if a['type'] in model:
            expect_raises(KeyError, 'type requested twice', request.add, info)
        else:
            request.add(info)
            model[a['type']] = a
    expect_eq((sorted(request), sorted(request.getRequiredAttrs())), (sorted(model), sorted(t for t in model if model[t]['required'])), 'types of the request')
    for t in TYPES:
        expect_eq(t in request, t in model, 'whether %s is requested' % t)
    chosen = [a['alias'] for a in model.values() if a['alias'] is not None]
    if len(set(chosen)) < len(chosen) or any(c in RESERVED for c in chosen):
        ctx.label('unusable aliases')
        expect_raises(KeyError, 'request with unusable aliases %r' % chosen, request.getExtensionArgs)
        return
    data = {}
    answered = []

    def ask(r):
        r.addExtension(request)

    def answer(asked, response):
        if case['update'] and case['update'] not in INSIDE:
            ctx.label('update URL refused')
            expect_raises(ax.AXError, 'update URL %r' % case['update'], ax.FetchRequest.fromOpenIDRequest, asked)
            return
        before = asked.message.toPostArgs()
        p = ax.FetchRequest.fromOpenIDRequest(asked)
        expect_eq(asked.message.toPostArgs(), before, 'the request after reading it')
        expect(p is not None, 'no request')
        expect_eq(sorted((i.type_uri, i.count, bool(i.required), i.wantsUnlimitedValues()) for i in p.iterAttrs()), sorted((t, a['count'], a['required'], a['count'] == 'unlimited') for t, a in model.items()), 'request that the provider reads')
        expect_eq((p.update_url or None, sorted(p), sorted(p.getRequiredAttrs())), (case['update'] or None, sorted(model), sorted(request.getRequiredAttrs())), 'update URL and types')
        aliases = {i.type_uri: i.alias for i in p.iterAttrs()}
        expect_eq(len(set(aliases.values())), len(aliases), 'number of aliases')
        for t, a in model.items():
            expect(a['alias'] is None or aliases[t] == a['alias'], 'alias of %s is %r', t, aliases[t])
        expect(ax.StoreRequest().mode != p.mode, 'mode')
        expect_raises(ax.AXError, 'fetch request read as a store request', ax.StoreRequest.fromOpenIDRequest, asked)
        out = ax.FetchResponse(p, case['own_update']) if case['given'] else ax.FetchResponse(update_url=case['own_update'])
        types = sorted(model)
        for i, vs, add in case['answers']:
            if types:
                t = types[i % len(types)]
                if add:
                    for v in vs:
                        out.addValue(t, v)
                        data.setdefault(t, []).append(str(v))
                else:
                    out.setValues(t, vs)
                    data[t] = [str(v) for v in vs]
        if case['extra']:
            out.addValue(case['extra'], 'x')
            data[case['extra']] = ['x']
        expect_eq(dict(out.data), data, 'values put in')
        if case['given'] and case['extra']:
            ctx.label('not requested')
            expect_raises((KeyError, ax.AXError), 'answer that was not asked for', out.getExtensionArgs)
            return
        over = [t for t, vs in data.items() if case['given'] and model[t]['count'] != 'unlimited' and len(vs) > model[t]['count']]
        if over:
            ctx.label('too many values')
            expect_raises(ax.AXError, 'too many values for %r' % over, out.getExtensionArgs)
            return
        args = out.getExtensionArgs()
        if case['given']:
            for t in model:
                expect_eq(args.get('type.' + aliases[t]), t, 'type under the alias of the request')
        expect_eq(out.getExtensionArgs(), args, 'the same answer written again')
        response.addExtension(out)
        answered.append(True)

    def read(got):
        s = ax.FetchResponse.fromSuccessResponse(got)
        if not answered:
            expect(s is None, 'answer out of nothing: %r', s)
            return
        want = {t: [] for t in model} if case['given'] else {}
        want.update(data)
        expect(s is not None, 'no answer')
        expect_eq({t: list(vs) for t, vs in s.data.items()}, want, 'values that the relying party reads')
        expect_eq(s.update_url or None, ((case['update'] or None) if case['given'] else None) or case['own_update'], 'update URL')
        for t in TYPES + ['http://none.example/']:
            if t not in want:
                expect_raises(KeyError, 'missing type', s.get, t)
                expect_raises(KeyError, 'missing type', s.count, t)
                expect_eq((s.getSingle(t), s.getSingle(t, 'd')), (None, 'd'), 'single value')
                continue
            expect_eq((s.get(t), s.count(t)), (want[t], len(want[t])), 'values of ' + t)
            if len(want[t]) > 1:
                expect_raises(ax.AXError, 'single value of many', s.getSingle, t)
            else:
                expect_eq(s.getSingle(t, 'd'), (want[t] + ['d'])[0], 'single value')
        expect_raises(ax.AXError, 'fetch response read as a store response', ax.StoreResponse.fromSuccessResponse, got)

    login('2', ask, answer, read)
    ctx.label('%d types' % len(model), 'answered' if answered else 'not answered')
    if answered and data and max(map(len, data.values())) > 10:
        ctx.label('many values')
    ctx.nt(bool(answered and len(model) >= 2 and any(data.values())))


store = st.fixed_dictionaries({'values': st.lists(st.tuples(st.sampled_from(TYPES), values, st.booleans()).map(list), max_size=6), 'aliases': st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(TYPES), st.sampled_from(ALIASES)).map(list), max_size=4, unique_by=(lambda p: p[0], lambda p: p[1]))),
                               'ok': st.booleans(), 'error': st.one_of(st.none(), value), 'answer': st.sampled_from([True, True, True, False])})


def check_store(ctx, case):
    clock.set(1500000000)
    aliases = None
    if case['aliases'] is not None:
        aliases = NamespaceMap()
        for t, a in case['aliases']:
            aliases.addAlias(t, a)
    request = ax.StoreRequest(aliases)
    data = {}
    for t, vs, add in case['values']:
        if add:
            for v in vs:
                request.addValue(t, v)
                data.setdefault(t, []).append(str(v))
        else:
            request.setValues(t, vs)
            data[t] = [str(v) for v in vs]
    args = request.getExtensionArgs()
    for t, a in case['aliases'] or []:
        if t in data:
            expect_eq(args.get('type.' + a), t, 'type under the chosen alias')

    def ask(r):
        r.addExtension(request)

    def answer(asked, response):
        p = ax.StoreRequest.fromOpenIDRequest(asked)
        expect(p is not None, 'no request')
        expect_eq({t: list(vs) for t, vs in p.data.items()}, data, 'values that the provider reads')
        expect_raises(ax.AXError, 'store request read as a fetch request', ax.FetchRequest.fromOpenIDRequest, asked)
        if case['ok'] and case['error'] is not None:
            expect_raises(ax.AXError, 'success with an error message', ax.StoreResponse, True, case['error'])
            return
        if case['answer']:
            response.addExtension(ax.StoreResponse(case['ok'], case['error']))

    def read(got):
        s = ax.StoreResponse.fromSuccessResponse(got)
        if not case['answer'] or (case['ok'] and case['error'] is not None):
            expect(s is None, 'answer out of nothing')
            expect(ax.FetchResponse.fromSuccessResponse(got) is None, 'answer out of nothing')
            return
        expect(s is not None, 'no answer')
        expect_eq((bool(s.succeeded()), s.error_message or None), (case['ok'], case['error'] or None), 'outcome')
        expect_raises(ax.AXError, 'store response read as a fetch response', ax.FetchResponse.fromSuccessResponse, got)

    login('2', ask, answer, read)
    ctx.label('%d types' % len(data))
    ctx.nt(bool(data and max(len(v) for v in data.values())))


# arguments as they might arrive: sound ones with a few defects
alias = st.sampled_from(ALIASES[:9])
sound = st.fixed_dictionaries({'type': st.just(0), 'count': st.sampled_from([None, None, '1', '2', 'unlimited', '10', '']), 'where': st.sampled_from(['required', 'if_available', 'both']), 'values': st.lists(value, max_size=3), 'single': value, 'skip': st.none(), 'off': st.just(0)})
DEFECTS = [('alias', 'a,b'), ('alias', 'a.b'), ('type', 1), ('where', 'none'), ('off', 1), ('off', -1), ('skip', 1), ('skip', 2), ('single', None)] + [('count', c) for c in ('0', '-1', 'x', '1.5', 'Unlimited')]
defects = st.lists(st.tuples(st.integers(0, 3), st.sampled_from(DEFECTS)), min_size=1, max_size=2)
entries = st.tuples(st.dictionaries(alias, sound, max_size=4), st.sampled_from([0, 0, 1, 1, 1]).flatmap(lambda k: defects if k else st.just([])))


def spoil(pair):
    """Distinct types, except where a defect says otherwise."""
    sound, defects = pair
    out = [[a, dict(sound[a], type=TYPES[i])] for i, a in enumerate(sound)]
    for i, (k, v) in defects:
        if out:
            e = out[i % len(out)]
            if k == 'alias':
                e[0] = v
            elif k == 'type':
                e[1]['type'] = TYPES[0]
            else:
                e[1][k] = v
    return dict(out)


entries = entries.map(spoil)
wire = st.fixed_dictionaries({'ns': st.sampled_from(['2', '2', '1.1', '1', None]), 'alias': st.sampled_from(['ax', 'x', 'ext1']), 'mode': st.sampled_from(['fetch_request'] * 8 + ['fetch_response'] * 6 + ['store_request'] * 4 + [None, '', 'Fetch_Request', 'fetch']), 'entries': entries,
                              'stray': st.sampled_from([None] * 8 + ['zz', 'email', '']), 'junk': st.dictionaries(st.sampled_from(['count.zz', 'value.zz', 'value.zz.1', 'other', 'update_urls', 'types', 'value.email.9']), value, max_size=2), 'counted': st.booleans(),
                              'update': st.sampled_from([None] * 4 + ['http://rp.example/u', 'http://other.example/', '']), 'realm': st.sampled_from(['http://rp.example/', 'http://rp.example/', 'http://*.example/', 'https://rp.example/', None]), 'return_to': st.sampled_from(['http://rp.example/', None])})


class Holder(object):
    pass


def check_wire(ctx, case):
    args = dict(case['junk'])
    mode = case['mode']
    if mode is not None:
        args['mode'] = mode
    if case['update'] is not None:
        args['update_url'] = case['update']
    lists = {'required': [], 'if_available': []}
    kv = mode in ('fetch_response', 'store_request')
    problems = set()
    want = {}
    for a, e in case['entries'].items():
        args['type.' + a] = e['type']
        for w in lists:
            if e['where'] in (w, 'both'):
                lists[w].append(a)
        if ',' in a:
            problems.add('alias')
        if '.' in a:
            problems.add('alias')
        if e['type'] in want:
            problems.add('twice')
        if kv:
            if e['count'] in (None, '', '10', 'unlimited') and case['counted'] or (e['count'] == '' and not case['counted']):
                args['count.' + a] = str(len(e['values']) + e['off'])
                for i, v in enumerate(e['values']):
                    if e['skip'] != i + 1:
                        args['value.%s.%d' % (a, i + 1)] = v
                wanted = len(e['values']) + e['off']
                if any('value.%s.%d' % (a, i) not in args for i in range(1, wanted + 1)):
                    problems.add('missing value')
                want[e['type']] = e['values'][:max(wanted, 0)]
            elif e['count'] in ('x', '1.5', 'Unlimited'):
                args['count.' + a] = e['count']
                problems.add('count')
                want[e['type']] = None
            else:
                if e['single'] is None:
                    problems.add('missing value')
                else:
                    args['value.' + a] = e['single']
                want[e['type']] = [e['single']] if e['single'] else []
        else:
            if e['count'] is not None:
                args['count.' + a] = e['count']
            if e['count'] in ('0', '-1', 'x', '1.5', 'Unlimited'):
                problems.add('request count')
            if e['where'] == 'none':
                problems.add('in no list')
            if ',' in a and e['where'] != 'none':
                problems.add('stray')
            c = e['count']
            want[e['type']] = (a, 1 if not c else c if c == 'unlimited' else int(c) if c.lstrip('-').isdigit() else None, e['where'] in ('required', 'both'))
    if not kv:
        if case['stray'] is not None:
            lists['if_available'].append(case['stray'])
            if case['stray'] not in case['entries'] and lists['if_available'] != ['']:
                problems.add('stray')
            if case['stray'] in case['entries'] and case['entries'][case['stray']]['where'] == 'none':
                listed = [a for w in lists for a in lists[w]]
                if not any(e['where'] == 'none' and a not in listed for a, e in case['entries'].items()):
                    problems.discard('in no list')
        for w in lists:
            if lists[w]:
                args[w] = ','.join(lists[w])
    ERR = {'alias': (KeyError, ValueError), 'twice': KeyError, 'count': ValueError, 'missing value': KeyError, 'request count': ax.AXError, 'in no list': ax.AXError, 'stray': KeyError}
    cls = {'fetch_response': ax.FetchResponse, 'store_request': ax.StoreRequest}.get(mode, ax.FetchRequest)
    for other in (ax.FetchRequest, ax.FetchResponse, ax.StoreRequest, ax.StoreResponse):
        if not mode:
            expect_raises(ax.NotAXMessage, 'message without a mode', other().parseExtensionArgs, dict(args))
        elif mode != other.mode:
            e = expect_raises(ax.AXError, 'message of another mode', other().parseExtensionArgs, dict(args))
            expect(not isinstance(e, ax.NotAXMessage), 'not taken for an AX message')
    if mode == cls.mode:
        errors = ERR[list(problems)[0]] if len(problems) == 1 else (KeyError, ValueError)
        p = cls()
        if problems:
            ctx.label(*problems)
            expect_raises(errors, 'arguments with problems %r' % sorted(problems), p.parseExtensionArgs, dict(args))
        else:
            p.parseExtensionArgs(dict(args))
            if kv:
                expect_eq({t: list(v) for t, v in p.data.items()}, want, 'values')
            else:
                expect_eq({t: (p.requested_attributes[t].alias, p.requested_attributes[t].count, bool(p.requested_attributes[t].required)) for t in p}, want, 'requested attributes')
                again = ax.FetchRequest()
                again.parseExtensionArgs(p.getExtensionArgs())
                expect_eq(describe(again.iterAttrs()), describe(p.iterAttrs()), 'request written and read again')
            if cls is not ax.StoreRequest:
                expect_eq(p.update_url or None, case['update'] or None, 'update URL')
    # and in a message
    wired = {'openid.mode': 'id_res' if cls is ax.FetchResponse else 'checkid_setup'}
    version = case['ns'] or '2'
    if version != '1':
        wired['openid.ns'] = {'2': ref.OPENID2, '1.1': ref.OPENID11}[version]
    if case['realm']:
        wired['openid.realm'] = case['realm']
    if case['return_to']:
        wired['openid.return_to'] = case['return_to']
    wired['openid.ns.' + case['alias']] = AX if case['ns'] else 'http://other.example/'
    names = ['openid.%s.%s' % (case['alias'], k) for k in args]
    wired.update(zip(names, args.values()))
    m = Message.fromPostArgs(wired)
    here = bool(case['ns'] and mode)
    if cls is ax.FetchResponse:
        e = OpenIDServiceEndpoint()
        e.claimed_id = 'http://user.example/'
        found = lambda: cls.fromSuccessResponse(SuccessResponse(e, m, names))  # noqa: E731
        expect_eq(cls.fromSuccessResponse(SuccessResponse(e, m, names[1:])), None, 'answer that is not wholly signed') if len(names) > 1 else None
    else:
        h = Holder()
        h.message = m
        found = lambda: cls.fromOpenIDRequest(h)  # noqa: E731
    realm = case['realm'] or case['return_to']
    refused = cls is ax.FetchRequest and case['update'] and (not realm or not (case['update'].startswith(realm) or realm == 'http://*.example/'))
    if not here:
        expect_eq(found(), None, 'message without attribute exchange')
    elif problems or mode != cls.mode:
        expect_raises((KeyError, ValueError), 'message with problems %r' % sorted(problems), found)
    elif refused:
        ctx.label('update URL refused')
        expect_raises(ax.AXError, 'update URL %r, realm %r' % (case['update'], realm), found)
    else:
        p = found()
        expect(p is not None, 'not found in the message')
        expect_eq(sorted(p.data if kv else p), sorted(want), 'types in the message')
    ctx.label(str(mode), 'accepted' if mode == cls.mode and not problems else 'refused')
    ctx.nt(bool(here and want))


FACETS = [Facet('fetch', fetch, check_fetch, quick=5000, rule='an answer with values to a request for two or more types is read'), Facet('store', store, check_store, quick=3000, rule='a value is stored'),
          Facet('wire', wire, check_wire, quick=9000, rule='the message is one of attribute exchange and has types')]
