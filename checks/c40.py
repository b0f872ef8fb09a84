"""C40: all ways of reading text agree."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, Line, W, G, gsig, wsig, ref_gsig, ref_value, GCodeWordStrError
from vlib import gens, ref
from pygcode.gcodes import text2gcodes, words2gcodes
from pygcode.words import text2words, str2word, words2dict

ENDS = ['', '\n', '\r\n', ' \n', '\t', '  ']


def tsig(w):
    return (w.letter, type(w.value), w.value, str(w))


def run(c, ctx):
    (soup, lay, start, end, valid) = c
    words = gens.soup_valid(soup, misplaced=True) if valid else gens.soup_words(soup)
    plain = gens.join_words(words, lay).rstrip('\n')
    text = ['', ' ', '\t ', ''][start] + plain + ENDS[end]
    (items, rest) = ref.assign(words)
    bad = ref.conflicts(items)
    ctx.trivial = len(words) < 2
    ctx.label('conflict' if bad else 'fully formed' if not rest else 'with modal parameters')
    want = [(l, ref_value(l, v)) for (l, v) in words]

    # words
    got = list(text2words(text))
    ctx.eq([wsig(w) for w in got], want, "words of %r" % text)
    sig = [tsig(w) for w in got]
    for (w, (l, v)) in zip(got, words):
        t = gens.fmt_word(l, v)
        if l in 'GM' and ref.code_of(l, v) is None:
            pass
        one = Word(t)
        ctx.eq(tsig(one), tsig(w), "Word(%r)" % t)
        ctx.eq(tsig(Word(l, t[1:])), tsig(w), "Word(%r, %r)" % (l, t[1:]))
        ctx.eq(tsig(Word(t.lower())), tsig(w), "Word(%r)" % t.lower())
        ctx.eq(tsig(str2word(t)), tsig(w), "str2word(%r)" % t)
        ctx.eq(tsig(str2word(' ' + t.lower() + '\n')), tsig(w), "str2word of %r with space" % t)
        ctx.check(w == t and not (w != t) and w == one, "%r is not equal to text %r", w, t)
        kept = str2word(str(w))
        ctx.check(kept.letter == w.letter, "word of %r", str(w))
    if len(words) > 1:
        try:
            r = str2word(text)
        except GCodeWordStrError:
            pass
        else:
            ctx.fail("str2word(%r) gives %r" % (text, r))
    elif not words:
        ctx.eq(str2word(text), None, "str2word(%r)" % text)

    # as a dict
    letters = [l for (l, _) in words]
    if len(set(letters)) == len(letters):
        ctx.eq(words2dict(got), dict(want), "words2dict of %r" % text)
    for lim in (['X', 'Y', 'G'], 'FSXP', [], set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')):
        d = words2dict(got, limit_word_letters=lim)
        ctx.eq(sorted(d), sorted(set(l for l in letters if l in lim)), "letters of words2dict of %r, limited to %r" % (text, lim))
        for (l, v) in d.items():
            ctx.check((l, v) in want, "words2dict of %r has %s: %r", text, l, v)

    # codes
    full = sorted(ref_gsig(it) for it in items)
    modal = [(l, ref_value(l, v)) for (l, v) in rest]
    if bad == 'param':
        return    # refused: see C07
    (gcodes, unused) = words2gcodes(got)
    ctx.eq([gsig(g) for g in gcodes], [ref_gsig(it) for it in items], "codes of the words of %r" % text)
    ctx.eq([wsig(w) for w in unused], modal, "unused words of %r" % text)
    for g in gcodes:
        ctx.check(G.word_gcode_class(g.word) is type(g), "class of %r is %r", g, G.word_gcode_class(g.word))
        ctx.check(G.word_gcode_class(g.word, exhaustive=True) is type(g), "class (exhaustive) of %r", g)
    try:
        tg = text2gcodes(text)
    except GCodeWordStrError:
        ctx.check(rest, "text2gcodes(%r) is refused", text)
    else:
        ctx.check(not rest, "text2gcodes(%r) is not refused, with %r unused", text, modal)
        ctx.eq([gsig(g) for g in tg], [ref_gsig(it) for it in items], "text2gcodes(%r)" % text)
        ctx.eq([str(g) for g in tg], [str(g) for g in gcodes], "text of text2gcodes(%r)" % text)

    # blocks and lines
    made = [('Block unverified', Block(text, verify=False)), ('Block, dialect given', Block(text, 'linuxcnc', verify=False))]
    if not bad:
        made += [('Block', Block(text)), ('Line', Line(text).block), ('Line with a comment', Line(plain + ' (G1 X1)').block),
                 ('Line with a semicolon comment', Line(plain + ' ;G1 X1').block), ('Line with a macro', Line(plain + ' %G1 X1%').block)]
        line = Line(text)
        ctx.eq(line.text, text, "text of Line(%r)" % text)
        ctx.eq((line.comment, line.macro), (None, None), "comment and macro of Line(%r)" % text)
        ctx.eq([gsig(g) for g in line.gcodes], [ref_gsig(it) for it in items], "gcodes of Line(%r)" % text)
        ctx.check(line.gcodes is line.block.gcodes, "gcodes of Line(%r) are not its block's", text)
        ctx.eq(str(line), str(line.block), "print of Line(%r)" % text)
    for (name, b) in made:
        what = "%s of %r" % (name, text)
        ctx.eq([tsig(w) for w in b.words], sig, "words of " + what)
        ctx.eq([gsig(g) for g in b.gcodes], [ref_gsig(it) for it in items], "codes of " + what)
        ctx.eq([wsig(w) for w in b.modal_params], modal, "modal parameters of " + what)
        ctx.eq(len(b), len(items) + bool(rest), "length of " + what)
        ctx.eq(bool(b), bool(words), "truth of " + what)
        for l in ref.LETTERS:
            first = next((s for s in want if s[0] == l), None)
            w = getattr(b, l)
            ctx.eq(w and wsig(w), first, "%s in %s" % (l, what))
        for name in ('x', 'foo', 'XY', '_words'):
            try:
                v = getattr(b, name)
            except AttributeError:
                pass
            else:
                ctx.fail("%s of %s is %r" % (name, what, v))
        ctx.eq([tsig(w) for w in text2words(b.text)], sig, "words of the text %r of %s" % (b.text, what))
        ctx.eq(str(b), ' '.join(str(x) for x in list(b.gcodes) + list(b.modal_params)), "print of " + what)


PROPERTY = Property(
    'C40', "Sequences of any words in any layout, with space and line ends around them, read by Word, str2word, text2words, words2dict, "
    "words2gcodes, text2gcodes, Block and Line, and looked up in the block: compared with the reference and with each other. Non-trivial: two or more words.",
    [Test('read', st.tuples(gens.soup, gens.layout, st.integers(0, 3), st.integers(0, len(ENDS) - 1), st.booleans()).map(list), run, quick=4000)],
    ["'O' words (the rest of the line is their value) are not part of these texts", "lines giving a parameter twice are only compared as words"],
)
