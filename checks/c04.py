"""C04: comments and macros never alter the code around them."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, gsig, wsig
from vlib import gens, ref

ANYCHAR = st.characters(codec='utf-8', exclude_characters='\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029', exclude_categories=('Cs', 'Cc'))
WORDY = 'GMXYZFSTNO012 .-'


def text(excluded, extra):
    """comment text without the excluded characters"""
    return gens.long_text(st.one_of(
        st.text(alphabet=[c for c in WORDY + extra if c not in excluded], max_size=10),
        st.text(alphabet=ANYCHAR, max_size=12).map(lambda s: ''.join(c for c in s if c not in excluded)),
        st.text(alphabet=[c for c in extra * 3 + 'X1 ' if c not in excluded], max_size=6),
    ))


bracket = text(')', '(;%"')
semicolon = text('%', '(;)"')
macro = st.one_of(st.just(''), gens.long_text(st.text(alphabet='abcXYZ 12;(', max_size=8)), st.text(alphabet='abcXYZ 12;(', max_size=8), st.text(alphabet='abc%', max_size=4))

case = st.tuples(
    gens.soup,
    st.lists(st.tuples(st.integers(0, 12), bracket, st.sampled_from(['', ' '])).map(list), max_size=3),
    st.one_of(st.none(), semicolon), st.one_of(st.none(), macro), st.booleans(), gens.layout,
).map(list)


def run(c, ctx):
    (soup, brackets, semi, macro, tight, lay) = c
    words = gens.soup_valid(soup, misplaced=True)
    plain = ' '.join(gens.fmt_word(l, v) for (l, v) in words)
    parts = [gens.fmt_word(l, v, gens._mix(lay, i) if lay else 0) for (i, (l, v)) in enumerate(words)]
    texts = []
    at = sorted((pos % (len(parts) + 1), i, t, gap) for (i, (pos, t, gap)) in enumerate(brackets))
    out = []
    for i in range(len(parts) + 1):
        for (pos, _, t, gap) in at:
            if pos == i:
                out.append(gap + '(' + t + ')')
                texts.append(t)
        if i < len(parts):
            out.append(('' if tight else ' ') + parts[i])
    s = ''.join(out)
    if semi is not None:
        s += ';' + semi
        texts.append(semi)
        ctx.label('semicolon')
    if macro is not None:
        s += '%' + macro
        ctx.label('macro')
    if brackets:
        ctx.label('brackets')
    if brackets and semi is not None:
        ctx.label('both kinds')
    ctx.trivial = not (brackets or semi is not None or macro is not None) or not words
    a, b = Line(plain), Line(s)
    ctx.eq([gsig(g) for g in b.block.gcodes], [gsig(g) for g in a.block.gcodes], "codes of %r and %r" % (s, plain))
    ctx.eq([wsig(w) for w in b.block.modal_params], [wsig(w) for w in a.block.modal_params], "modal parameters of %r and %r" % (s, plain))
    ctx.check(b.gcodes == a.gcodes, "codes of %r do not equal those of %r", s, plain)
    if macro is None:
        ctx.check(not b.macro, "%r has a macro: %r", s, b.macro)
    else:
        ctx.eq((b.macro or '').rstrip(), ('%' + macro).rstrip(), "macro of %r" % s)
    if not texts:
        ctx.check(b.comment is None, "%r has a comment: %r", s, b.comment)
    else:
        ctx.check(b.comment is not None, "%r lost its comment", s)
        got = b.comment.text
        pos = 0
        for t in texts:
            t = t.strip()
            i = got.find(t, pos)
            ctx.check(i >= 0, "comment of %r is %r, without %r (in order)", s, got, t)
            pos = i + len(t)
        # nothing but the comments' text (and what joins them)
        rest = got
        for t in texts:
            rest = rest.replace(t.strip(), '', 1) if t.strip() else rest
        n = sum(len(t) for t in texts) + 2 * (len(texts) - 1)
        ctx.check(len(got) <= n, "comment of %r is %r: more than its comments' text", s, got)
        if len(texts) == 1 and semi is None:
            ctx.eq(got, texts[0], "comment of %r" % s)
    if not macro and semi is None and texts == []:
        ctx.eq(b.comment, None, "comment")
    # the comment printed on its own holds the same text
    if b.comment is not None and '%' not in str(b.comment):
        again = Line(str(b.comment))
        ctx.check(again.comment is not None and again.comment.text.strip() == b.comment.text.strip(), "comment %r of %r reads back as %r", str(b.comment), s, again.comment)
        ctx.check(not again.block.words and not again.macro, "comment %r of %r reads back as code", str(b.comment), s)


PROPERTY = Property(
    'C04', "A random valid line with bracket comments between its words, a semicolon comment and a macro, of text holding "
    "any characters, words and delimiters of other comments. Non-trivial: has words, and a comment or macro.",
    [Test('comments', case, run, quick=12000)],
    ["text of a macro following a semicolon comment with '(' holds no ')'"],
)
