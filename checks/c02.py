"""C02: a printed line reads back as the same line."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, gsig, wsig, near
from vlib import gens


def flat(line):
    """([(letter, value, {param: value})], [(letter, value)], comment text, macro)"""
    return ([gsig(g) for g in line.block.gcodes], [wsig(w) for w in line.block.modal_params],
            line.comment.text if line.comment else None, line.macro)


def same(ctx, a, b, what):
    ctx.eq(len(b[0]), len(a[0]), what + ": number of codes")
    for (x, y) in zip(a[0], b[0]):
        ctx.eq(y[0], x[0], what + ": code letter")
        ctx.check(near(x[1], y[1]), "%s: code value %r became %r", what, x[1], y[1])
        ctx.eq([l for (l, _) in y[2]], [l for (l, _) in x[2]], what + ": parameters of %s%s" % (x[0], x[1]))
        for ((l, v), (_, u)) in zip(x[2], y[2]):
            ctx.check(near(v, u), "%s: %s%s parameter %s: %r became %r", what, x[0], x[1], l, v, u)
    ctx.eq(sorted(l for (l, _) in b[1]), sorted(l for (l, _) in a[1]), what + ": modal parameters")
    for ((l, v), (k, u)) in zip(sorted(a[1]), sorted(b[1])):
        ctx.check(l == k and near(v, u), "%s: modal parameter %s%r became %s%r", what, l, v, k, u)
    ctx.eq(b[2], a[2], what + ": comment")
    ctx.eq((b[3] or '').rstrip(), (a[3] or '').rstrip(), what + ": macro")


def check_text(text, ctx):
    l1 = Line(text)
    s1 = str(l1)
    l2 = Line(s1)
    same(ctx, flat(l1), flat(l2), "%r -> %r" % (text, s1))
    if l1.comment:
        ctx.eq(type(l2.comment).__name__, type(l1.comment).__name__, "kind of comment of %r" % text)
    ctx.eq(str(l2), s1, "second print of %r" % text)
    ctx.eq(l1.text, text, "text of the line")
    return l1


def run_soup(c, ctx):
    (soup, lay, comm) = c
    words = gens.soup_valid(soup)
    (text, texts, macro, semi) = gens.decorate(words, lay, comm)
    ctx.trivial = len(words) < 2
    l1 = check_text(text, ctx)
    ctx.label('comment' if texts else 'no comment', 'macro' if macro else 'no macro')
    if l1.block.modal_params:
        ctx.label('modal')
    if any(g.params for g in l1.block.gcodes):
        ctx.label('params')
    ctx.eq(len(l1.block.words), len(words), "words of %r" % text)


def run_program(c, ctx):
    b = gens.build(c)
    ctx.trivial = not any(len(x.words) > 1 for x in b.lines)
    for x in b.lines:
        check_text(x.text, ctx)


PROPERTY = Property(
    'C02', "Lines of any supported codes with any accepted parameters, modal parameters, comments and a macro (soup), and "
    "lines of whole programs. Non-trivial: at least two words on a line.",
    [
        Test('soup', st.tuples(gens.soup, gens.layout, gens.comments).map(list), run_soup, quick=10000),
        Test('program', gens.program(gens.ALL_EXTRAS + gens.RARE_MODES + gens.ENDS, max_lines=4), run_program, quick=2000),
    ],
    ["parameters are written after the code they belong to"],
)
