"""C03: layout, letter case and leading zeros never change what a line means."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Block, Word, W, G, gsig, wsig, ref_gsig, ref_value
from vlib import gens, ref

sep = st.sampled_from(['', '', ' ', '  ', '\t', ' \t ', ' ', '', ' ', '\x0b', '\x0c ', ' \t\t\x0b ', ' ' * 25])
# how one word is written: [lower case, white space after the letter, number form, white space before]
style = st.tuples(st.booleans(), st.sampled_from(['', '', '', ' ', '\t', '   ', '', '', '', ' ', '\x0b', ' \x0c', ' ' * 30]), st.one_of(st.integers(0, 7), st.integers(8, 31)), sep).map(list)


def number(letter, value, form):
    s = ref.fmt(value)
    if letter == 'T':
        return s  # leading zeros of a tool's name are significant
    neg = s.startswith('-')
    s = s.lstrip('-')
    if form & 1:
        s = '0' * (1 + form // 2 % 3 + (18 if form & 16 else 0)) + s
    if form & 2 and letter not in 'NL':
        s += ('00' if '.' in s else '.0') + ('0' * 14 if form & 8 else '')
    elif form & 4 and letter not in 'NLGM':
        s = s[1:] if s.startswith('0.') and not (form & 1) else s if '.' in s else s + '.'
    return ('-' if neg else '') + s


def write(words, styles, tail):
    out = ''
    for (i, (l, v)) in enumerate(words):
        (low, gap, form, before) = styles[i % len(styles)] if styles else (False, '', 0, ' ')
        out += before + (l.lower() if low else l) + gap + number(l, v, form)
    return out + tail


def sig(block):
    return ([gsig(g) for g in block.gcodes], [wsig(w) for w in block.modal_params])


def run(c, ctx):
    (soup, styles, tail) = c
    words = gens.soup_valid(soup, misplaced=True)
    if any(l == 'T' for (l, _) in words):
        ctx.label('tool')
    plain = ' '.join(l + ref.fmt(v) for (l, v) in words)
    other = write(words, styles, tail)
    ctx.trivial = plain == other.strip() or not words
    if any(s[0] for s in styles):
        ctx.label('lower case')
    if any(s[1] for s in styles):
        ctx.label('inner space')
    if any(s[2] for s in styles):
        ctx.label('zeros')
    a = Line(plain)
    b = Line(other)
    (items, modal) = ref.assign(words)
    want = ([ref_gsig(it) for it in items], [(l, ref_value(l, v)) for (l, v) in modal])
    ctx.eq(sig(a.block), want, "meaning of %r" % plain)
    ctx.eq(sig(b.block), want, "meaning of %r" % other)
    ctx.check(a.block.gcodes == b.block.gcodes and a.block.modal_params == b.block.modal_params, "%r and %r do not compare equal", plain, other)
    ctx.eq(sig(Block(other)), want, "meaning of block %r" % other)
    ctx.eq([wsig(w) for w in W.text2words(other.strip())], [(l, ref_value(l, v)) for (l, v) in words], "words of %r" % other)
    ctx.eq(str(a), str(b), "print of %r and %r" % (plain, other))
    if not modal:
        ctx.check(G.text2gcodes(other) == a.block.gcodes, "text2gcodes(%r)", other)
    for (i, (l, v)) in enumerate(words):
        # words written one by one, given to the constructor
        (low, gap, form, _) = styles[i % len(styles)] if styles else (False, '', 0, '')
        ll = l.lower() if low else l
        ctx.check(Word(ll, number(l, v, form)) == b.block.words[i] and Word(ll + number(l, v, form)) == b.block.words[i],
                  "Word(%r) is not %r", ll + number(l, v, form), b.block.words[i])
    if len(words) == 1:
        ctx.check(W.str2word(other) == a.block.words[0], "str2word(%r)", other)


PROPERTY = Property(
    'C03', "The words of a random valid line, written twice: plainly, and with random letter case, white space before, after "
    "and inside words, leading zeros, trailing zeros, '.5' and '5.' forms. Non-trivial: the two texts differ.",
    [Test('layout', st.tuples(gens.soup, st.lists(style, max_size=8), st.sampled_from(['', ' ', '\n', '  \t', '\r\n'])).map(list), run, quick=12000)],
)
