"""Shared generators. They all produce plain JSON values."""
from hypothesis import strategies as st

# any text without surrogates (they can not be encoded and are outside of every domain)
any_text = st.text(st.characters(exclude_categories=('Cs',)), max_size=20)
WS = [' ', '\t', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2003', '\u3000', '\x1f']
TRICKY = ['', '.', ':', '\n', ',', '=', '&', '%', '+', '#', '?', '/', '\\', '"', "'", '<', '>', ';', '\0', '%20', '%00',
          'openid.', 'ns', 'ns.', '\xe9', '\u017e', '\u20ac', '\U0001f600', '\ufeff', '\u0130', '\xdf'] + WS
tricky_piece = st.one_of(st.sampled_from(TRICKY), st.sampled_from(['a', 'B', 'key', 'value', '0', '1', 'http://x.y/']),
                         st.text(st.characters(exclude_categories=('Cs',)), max_size=3))
tricky_text = st.lists(tricky_piece, max_size=6).map(''.join)
ident = st.text('abcdefghijklmnopqrstuvwxyzABC0123456789_-', min_size=1, max_size=8)
xml_char = st.characters(exclude_categories=('Cs', 'Cc'), exclude_characters='\ufffe\uffff')
xml_text = st.one_of(st.text(xml_char, max_size=12),
                     st.lists(st.sampled_from(['<', '>', '&', '"', "'", '&amp;', ' ', 'a', '\xe9', '\U0001f600', '=',
                                               '\t', '\n']), max_size=6).map(''.join))


def nonl(strategy):
    return strategy.map(lambda s: s.replace('\n', ''))


handle = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=20)
hexbytes = lambda lo, hi: st.binary(min_size=lo, max_size=hi).map(lambda b: b.hex())  # noqa: E731


def history(op, max_size=40):
    """Sequences of operations: mostly long ones."""
    return st.one_of(st.lists(op, min_size=1, max_size=max_size), st.lists(op, min_size=min(14, max_size), max_size=max_size),
                     st.lists(op, min_size=min(22, max_size), max_size=max_size))


def bare(text):
    return text.replace('\n', '').strip()


ALIKE = [lambda s: s, lambda s: s + '/', lambda s: s.rstrip('/'), lambda s: s.upper(), lambda s: s.lower(), lambda s: s + ' ', lambda s: s + '#f',
         lambda s: s + '?', lambda s: s.replace('://', '_//', 1), lambda s: s.replace('http:', 'https:', 1), lambda s: s[:-1], lambda s: s[1:],
         lambda s: s.replace('.example', '.example:80', 1), lambda s: s + '%20', lambda s: s + '\x00', lambda s: s + 'a', lambda s: s.replace('http://', '', 1),
         lambda s: s.replace('/', '_'), lambda s: s.replace('-', '/'), lambda s: s.swapcase(), lambda s: s + '.', lambda s: s.replace('%', '%25'), lambda s: s + '=',
         lambda s: s.rstrip('='), lambda s: '-' + s, lambda s: s + s[-1:]]


def texts_alike(examples, n):
    """n texts: unrelated ones, or one and texts that are almost the same."""
    one = st.one_of(st.sampled_from(examples), tricky_text)
    return st.one_of(
        st.lists(one, min_size=n, max_size=n),
        st.builds(lambda base, how: [base] + [ALIKE[i](base) for i in how], one, st.lists(st.integers(0, len(ALIKE) - 1), min_size=n - 1, max_size=n - 1)),
        st.builds(lambda base, how: [base] + [ALIKE[i](base) for i in how], st.sampled_from(examples), st.lists(st.integers(0, len(ALIKE) - 1), min_size=n - 1, max_size=n - 1)))
