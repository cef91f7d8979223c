"""Key-value form."""
from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from openid import kvform
from openid.kvform import KVFormError

ASSUMPTIONS = ['text without surrogates']

clean = gen.nonl(st.one_of(gen.tricky_text, gen.any_text)).map(lambda s: s.strip())
clean_key = clean.map(lambda s: s.replace(':', '').strip()).filter(bool)
pairs = st.lists(st.tuples(clean_key, clean).map(list), max_size=6)


def check_roundtrip(ctx, case):
    seq = [tuple(p) for p in case]
    text = kvform.seqToKV(seq)
    expect_eq(text.encode('utf-8'), ref.kv(seq), 'encoded form')
    expect_eq(kvform.seqToKV(seq, strict=True), text, 'strict encoding')
    expect_eq([tuple(p) for p in kvform.kvToSeq(text)], seq, 'decode(encode(pairs))')
    expect_eq([tuple(p) for p in kvform.kvToSeq(text, strict=True)], seq, 'strict decode(encode(pairs))')
    d = dict(seq)
    dtext = kvform.dictToKV(d)
    expect_eq(dtext.encode('utf-8'), ref.kv(sorted(d.items())), 'dictionary form')
    expect_eq(kvform.kvToDict(dtext), d, 'dictionary round trip')
    ctx.nt(len(seq) > 0)
    ctx.label('pairs=%d' % len(seq))
    if any(':' in v for _, v in seq):
        ctx.label('colon in value')
    if any(ord(c) > 127 for k, v in seq for c in k + v):
        ctx.label('non-ascii')


any_pairs = st.lists(st.tuples(st.one_of(gen.tricky_text, gen.ident), st.one_of(gen.tricky_text, gen.ident)).map(list),
                     max_size=5)


def check_encode(ctx, case):
    seq = [tuple(p) for p in case]
    bad = any('\n' in k or ':' in k or '\n' in v for k, v in seq)
    ragged = any(k.strip() != k or v.strip() != v for k, v in seq)
    ctx.nt(bad or ragged)
    ctx.label('bad' if bad else 'ragged' if ragged else 'clean')
    try:
        text = kvform.seqToKV(seq)
    except KVFormError:
        expect(bad, 'encodable pairs rejected: %r', seq)
        return
    expect(not bad, 'pairs that can not be represented were encoded: %r -> %r', seq, text)
    expect_eq(text.encode('utf-8'), ref.kv(seq), 'encoded form')
    expect_eq([tuple(p) for p in kvform.kvToSeq(text)], [(k.strip(), v.strip()) for k, v in seq], 'decoded pairs')
    try:
        kvform.seqToKV(seq, strict=True)
    except KVFormError:
        expect(ragged, 'strict encoding rejected clean pairs %r', seq)
    else:
        expect(not ragged, 'strict encoding accepted surrounding whitespace %r', seq)


line = st.one_of(
    st.tuples(gen.nonl(gen.tricky_text), gen.nonl(gen.tricky_text)).map(lambda t: t[0] + ':' + t[1]),
    gen.nonl(gen.tricky_text), st.tuples(gen.ident, gen.ident).map(lambda t: t[0] + ':' + t[1]),
    st.sampled_from(['', ' ', '\r', ':', ' : ', 'a:b\r', ' a:b', 'a: b', 'a:b:c', '::']))
doc = st.tuples(st.lists(line, max_size=6).map('\n'.join), st.sampled_from(['', '\n', '\n', '\n\n'])).map(''.join)


def check_decode(ctx, text):
    wanted, irregular = [], False
    lines = text.split('\n')
    if lines[-1]:
        irregular = True
    else:
        lines.pop()
    for ln in lines:
        if not ln.strip():
            continue
        if ':' not in ln:
            irregular = True
            continue
        k, v = ln.split(':', 1)
        if k.strip() != k or v.strip() != v or not k.strip():
            irregular = True
        wanted.append((k.strip(), v.strip()))
    got = [tuple(p) for p in kvform.kvToSeq(text)]
    expect_eq(got, wanted, 'decoded pairs of %r' % text)
    expect_eq([tuple(p) for p in kvform.kvToSeq(kvform.seqToKV(got))], got, 'decoding is stable for %r' % text)
    expect_eq(kvform.kvToDict(text), dict(wanted), 'decoded dictionary')
    try:
        strict = [tuple(p) for p in kvform.kvToSeq(text, strict=True)]
    except KVFormError:
        expect(irregular, 'strict decoding rejected a regular document %r', text)
    else:
        expect(not irregular, 'strict decoding accepted %r', text)
        expect_eq(strict, wanted, 'strictly decoded pairs')
    ctx.nt(bool(wanted))
    ctx.label('irregular' if irregular else 'regular', 'pairs=%d' % min(3, len(wanted)))


FACETS = [
    Facet('roundtrip', pairs, check_roundtrip, 6000, rule='at least one pair'),
    Facet('encode', any_pairs, check_encode, 6000, rule='some key or value has a newline, a colon in a key or edge blanks'),
    Facet('decode', doc, check_decode, 8000, rule='the document has at least one pair'),
]
