"""C27: splitting codes at a code loses and reorders nothing."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, G, gsig, subclasses
from vlib import gens, ref
from .c12 import check_order


def classes_of(g):
    return [k for k in type(g).__mro__ if issubclass(k, G.GCode)]


OTHERS = [G.GCodeArcMove, G.GCodeCannedCycle, G.GCodeMotion, G.GCodeCoolant, G.GCodeSpindle, G.GCodePlaneSelect, G.GCodeDistanceMode,
          G.GCodeFeedRate, G.GCodeToolChange, G.GCodeProgramControl, G.GCodeRapidMove]


FAMILIES = [G.GCodeNURBS, G.GCodeMotion, G.GCodeArcMove, G.GCodeCannedCycle, G.GCode, G.GCodeNonModal, G.GCodeOtherModal, G.GCodeSpindle]


def run(c, ctx):
    (soups, pick, up, how, rot) = c[:5]
    family = c[5] if len(c) > 5 else None
    codes = []
    for s in soups:
        codes += Block(gens.join_words(gens.soup_valid(s, modal=False)), verify=False).gcodes
    if codes:
        rot %= len(codes)
        codes = codes[rot:] + codes[:rot]
    if codes and pick >= 0:
        mro = classes_of(codes[pick % len(codes)])
        cls = mro[min(up, len(mro) - 1)]
    else:
        cls = OTHERS[up % len(OTHERS)]
    if family:
        # codes of a class, and of classes derived from it
        base = FAMILIES[family[0] % len(FAMILIES)]
        (cls, kinds) = (base, [k for k in subclasses(base) if k.word_key or k.default_word])
        codes[len(codes) // 2:len(codes) // 2] = [kinds[i % len(kinds)]() for i in family[1]]
    if len(c) > 6:
        # a code that is in the list more than once
        for i in c[6]:
            if codes:
                codes.insert(i // 10 % (len(codes) + 1), codes[i % 10 % len(codes)])
    given = list(codes)
    before = [gsig(g) for g in codes]
    n = len([g for g in codes if isinstance(g, cls)])
    what = "splitting %r at %s (%s)" % (codes, cls.__name__, ['default', 'sort_list=True', 'sort_list=False'][how])
    if how == 0:
        res = G.split_gcodes(codes, cls)
    else:
        res = G.split_gcodes(codes, cls, sort_list=(how == 1))
    ctx.eq(len(res), 3, "parts of " + what)
    (a, b, d) = [list(x) for x in res]
    ctx.check(len(codes) == len(given) and all(x is y for (x, y) in zip(codes, given)), "the list was changed by " + what)
    ctx.eq([gsig(g) for g in codes], before, "the codes, after " + what)
    joined = a + b + d
    ctx.eq(sorted(map(id, joined)), sorted(map(id, codes)), "codes in the parts of " + what)
    if how == 2:
        ctx.check(all(x is y for (x, y) in zip(joined, codes)), "%s: not in the given order: %r", what, joined)
    else:
        check_order(ctx, [gsig(g) for g in joined], what)
        for (x, y) in zip(joined, sorted(codes)):
            ctx.check(x is y or gsig(x)[:2] != gsig(y)[:2] or x == y, "%s: not in the order of sorted(): %r", what, joined)
    ctx.check(not any(isinstance(g, cls) for g in a), "%s: instance in the first part %r", what, a)
    if n:
        ctx.check(len(b) == 1 and isinstance(b[0], cls), "%s: the middle is %r", what, b)
    else:
        ctx.check(not b and not d, "%s: no instance, but parts %r %r", what, b, d)
    ctx.label('%s instances' % min(n, 3), ['default', 'sorted', 'unsorted'][how])
    ctx.trivial = len(codes) < 2


PROPERTY = Property(
    'C27', "Lists of random codes (from one or several lines, so with several of a group), split at a class of one of them, a base class of it, or "
    "another class; sorted or not. Non-trivial: two or more codes.",
    [Test('split', st.tuples(st.lists(gens.soup, min_size=1, max_size=3), st.integers(-1, 20), st.integers(0, 4), st.integers(0, 2), st.integers(0, 9), st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 7), st.lists(st.integers(0, 30), min_size=1, max_size=4)).map(list)), st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 99), min_size=1, max_size=2))).map(list), run, quick=6000)],
)
