"""C05: every word of a line ends up in exactly one place."""
from collections import Counter
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, G, Word, gsig, wsig, ref_gsig, ref_value
from vlib import gens, ref


def check(ctx, words, text, block):
    (items, modal) = ref.assign(words)
    want_words = [(l, ref_value(l, v)) for (l, v) in words]
    ctx.eq([wsig(w) for w in block.words], want_words, "words of %r" % text)
    placed = Counter()
    for g in block.gcodes:
        placed[(g.word.letter, g.word.value)] += 1
        for (l, w) in g.params.items():
            ctx.eq(w.letter, l, "key of parameter %s of %s" % (w, g.word))
            placed[wsig(w)] += 1
    for w in block.modal_params:
        placed[wsig(w)] += 1
    ctx.eq(placed, Counter(want_words), "placement of the words of %r" % text)
    ctx.eq([gsig(g) for g in block.gcodes], [ref_gsig(it) for it in items], "codes of %r" % text)
    ctx.eq([wsig(w) for w in block.modal_params], [(l, ref_value(l, v)) for (l, v) in modal], "modal parameters of %r" % text)
    ctx.eq(len(block), len(items) + bool(modal), "len of block %r" % text)
    ctx.eq(bool(block), bool(words), "bool of block %r" % text)
    for l in 'GMXFST':
        w = getattr(block, l)
        first = [x for x in want_words if x[0] == l][:1]
        ctx.eq([wsig(w)] if w is not None else [], first, "first %s word of %r" % (l, text))
    if items and any(it.params for it in items):
        ctx.label('params')
    if modal:
        ctx.label('modal')
    if len(items) > 1:
        ctx.label('several codes')


def run(c, ctx):
    (soup, lay, prog) = c
    words = gens.soup_words(soup)
    if ref.conflicts(ref.assign(words)[0]) == 'param':
        words = gens.soup_valid(soup, misplaced=True)
        ctx.label('reduced')
    if prog is not None:
        words = words + [('O', prog)]
        ctx.label('O')
    ctx.trivial = len(words) < 2
    text = gens.join_words(words, lay)
    check(ctx, words, text, Block(text, verify=False))
    if ref.conflicts(ref.assign(words)[0]) is None:
        check(ctx, words, text, Block(text))
        check(ctx, words, text, Line(text).block)
    (gcodes, rest) = G.words2gcodes([Word(l, str(v) if l in 'TO' else v) for (l, v) in words])
    (items, modal) = ref.assign(words)
    ctx.eq(([gsig(g) for g in gcodes], [wsig(w) for w in rest]),
           ([ref_gsig(it) for it in items], [(l, ref_value(l, v)) for (l, v) in modal]), "words2gcodes of %r" % text)


PROPERTY = Property(
    'C05', "Lines of any words in any order: all supported codes, unsupported ones, every letter, optionally a program name; "
    "compared with an independent code table and assignment rule. Non-trivial: at least two words.",
    [Test('assign', st.tuples(st.one_of(gens.soup, gens.soup, gens.soup, gens.soup_long), gens.layout, st.one_of(st.none(), st.none(), st.text('abcXYG019', min_size=1, max_size=5))).map(list), run, quick=10000)],
)
