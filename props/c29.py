"""Accept headers: entries are rendered and matched on the entries."""
from vf.core import Facet, expect, expect_eq, expect_raises, st
from openid.yadis import accept

ASSUMPTIONS = ['quality values are between 0 and 1 or not numbers', 'types are written in lower case']
MAINS = ['text', 'application', 'image', 'a']
SUBS = ['html', 'plain', 'xrds+xml', 'xhtml+xml', 'x', 'html5']
main_sub = st.tuples(st.sampled_from(MAINS), st.sampled_from(SUBS)).map(list)
pattern = st.sampled_from([0, 0, 0, 0, 1, 1, 2]).flatmap(lambda k: [main_sub, st.tuples(st.sampled_from(MAINS), st.just('*')).map(list), st.just(['*', '*'])][k])
quality = st.sampled_from([None, None, '1', '1.0', '0', '0.0', '0.000', '0.1', '0.5', '0.50', '0.3', '0.001', '0.999', '.5', '1.', 'x', '', '0x', 'high', '0.5.1', '0..5', '1/2'])
entry = st.fixed_dictionaries({'type': pattern, 'q': quality, 'before': st.sampled_from([[], [], [], ['level=1'], ['charset=utf-8'], ['x'], ['qq=0.1'], ['']]), 'after': st.sampled_from([[], [], [], ['ext=1'], ['q2=0'], ['mxb=100000'], ['token']]), 'gap': st.sampled_from([';', '; ', ' ; ', ' ;', ';\t']), 'lead': st.sampled_from(['', ' ', '  ', '\t']), 'trail': st.sampled_from(['', ' '])})
noise = st.sampled_from(['', ' ', 'junk', '*', 'text', ';q=1', 'q=0.5', 'html;q=0.9'])
item = st.sampled_from([0] * 7 + [1]).flatmap(lambda k: noise if k else entry)
case = st.fixed_dictionaries({'items': st.lists(item, max_size=7), 'have': st.lists(main_sub, max_size=7, unique_by=tuple)})


def number(q):
    try:
        return float(q)
    except (TypeError, ValueError):
        return 1.0


def render(e):
    if isinstance(e, str):
        return e
    parts = ['/'.join(e['type'])] + e['before'] + (['q=' + e['q']] if e['q'] is not None else []) + e['after']
    return e['lead'] + e['gap'].join(parts) + e['trail']


def check(ctx, case):
    entries = [e for e in case['items'] if not isinstance(e, str)]
    header = ','.join(render(e) for e in case['items'])
    wanted = []
    for n, (main, sub) in enumerate(case['have']):
        best = None
        for pat in ([main, sub], [main, '*'], ['*', '*']):
            qs = [number(e['q']) for e in entries if e['type'] == pat]
            if qs:
                best = max(qs)
                break
        if not entries:
            best = 1.0
        if best:
            wanted.append((-best, n, '%s/%s' % (main, sub), best))
    wanted.sort()
    have = ['/'.join(t) for t in case['have']]
    expect_eq(list(accept.getAcceptable(header, have)), [w[2] for w in wanted], 'acceptable types')
    parsed = accept.parseAcceptHeader(header)
    expect_eq(sorted(parsed), sorted((e['type'][0], e['type'][1], number(e['q'])) for e in entries), 'parsed header')
    expect(all(a[2] >= b[2] for a, b in zip(parsed, parsed[1:])), 'entries are not in descending quality: %r', parsed)
    expect_eq([tuple(m) for m in accept.matchTypes(parsed, have)], [(w[2], w[3]) for w in wanted], 'matched types')
    expect_eq([tuple(m) for m in accept.matchTypes(list(reversed(parsed)), have)], [(w[2], w[3]) for w in wanted], 'matched types, whatever the order of the entries')
    ctx.label('%d acceptable' % len(wanted))
    ctx.nt(len(wanted) >= 2 or (len(case['have']) > len(wanted) > 0))


element = st.tuples(st.one_of(main_sub, st.tuples(st.sampled_from(MAINS), st.just('*')).map(list), st.just(['*', '*'])), st.sampled_from([None, 1, 2, 3, 5, 7, 9, 10])).map(list)
gen_case = st.fixed_dictionaries({'elements': st.lists(element, max_size=6, unique_by=lambda e: tuple(e[0])), 'bad': st.sampled_from([None, None, None, 0, -1, 1.1, 2, 'x', 1e9]), 'at': st.integers(0, 6)})


def check_gen(ctx, case):
    elements = ['/'.join(t) if q is None else ('/'.join(t), q / 10.0) for t, q in case['elements']]
    want = sorted((t[0], t[1], 1.0 if q is None else q / 10.0) for t, q in case['elements'])
    header = accept.generateAcceptHeader(*elements)
    expect_eq(sorted(accept.parseAcceptHeader(header)), want, 'header read back')
    if case['bad'] is not None:
        elements.insert(case['at'], ('text/x', case['bad']))
        expect_raises(ValueError, 'preference %r' % case['bad'], accept.generateAcceptHeader, *elements)
    ctx.nt(len(want) >= 2)


FACETS = [Facet('match', case, check, quick=20000, rule='two types are acceptable, or some are and some are not'), Facet('generate', gen_case, check_gen, quick=5000, rule='two or more types')]
