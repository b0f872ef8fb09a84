"""C07: a line is refused exactly when its codes conflict."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, GCodeParameterError
from vlib import gens, ref

GROUPED = {}
for (_k, _c) in ref.CODES.items():
    GROUPED.setdefault(_c.group, []).append(_k)
GROUP_NAMES = sorted(g for g in GROUPED if g)

# [kind, group or code, pick, pick]: two codes of one group, a repeated code, a repeated parameter
clash = st.tuples(st.sampled_from(['none', 'group', 'repeat', 'param', 'letter']), st.integers(0, 200), st.integers(0, 40), st.integers(0, 40), st.integers(0, 8)).map(list)


def refused(text, **kw):
    try:
        Block(text, **kw)
    except GCodeParameterError:
        return 'param'
    except AssertionError as e:
        if 'cannot be in the same block' not in str(e):
            raise
        return 'codes'
    return None


def run(c, ctx):
    (soup, (kind, a, b, d, pos), lay) = c
    groups = gens.soup_groups(soup)
    new = []
    if kind == 'group':
        ws = GROUPED[GROUP_NAMES[a % len(GROUP_NAMES)]]
        new = [[ws[b % len(ws)]], [ws[d % len(ws)]]]
    elif kind == 'repeat':
        w = sorted(ref.CODES)[a % len(ref.CODES)]
        new = [[w], [w]]
    elif kind == 'letter':
        l = 'FSTN'[a % 4]
        new = [[(l, gens.soup_value(l, b * 1000))], [(l, gens.soup_value(l, d * 1000))]]
    elif kind == 'param':
        with_params = sorted(k for (k, v) in ref.CODES.items() if v.params)
        w = with_params[a % len(with_params)]
        letters = sorted(ref.CODES[w].params)
        l = letters[b % len(letters)]
        new = [[w, (l, gens.soup_value(l, 1000)), (l, gens.soup_value(l, d * 1000))]]
    pos = pos % (len(groups) + 1)
    groups[pos:pos] = new[:1]
    groups += new[1:]
    words = [w for g in groups for w in g]
    text = gens.join_words(words, lay)
    (items, _) = ref.assign(words)
    why = ref.conflicts(items)
    ctx.label(why or 'accepted')
    ctx.trivial = len(items) < 2
    got = refused(text)
    ctx.check((got is None) == (why is None), "%r is %s, but its codes %s", text, 'refused' if got else 'accepted', 'conflict (%s)' % why if why else 'do not conflict')
    if why == 'param':
        ctx.eq(got, 'param', "kind of refusal of %r" % text)
    got = refused(text, verify=False)
    ctx.eq(got, 'param' if why == 'param' else None, "refusal of %r without verification" % text)
    try:
        Line(text)
        ctx.check(why is None, "line %r is accepted", text)
    except (GCodeParameterError, AssertionError):
        ctx.check(why is not None, "line %r is refused", text)


PROPERTY = Property(
    'C07', "Lines of random codes and parameters, with two codes of one modal group, a repeated code, letter or parameter "
    "planted in most; the verdict is compared with an independent modal group table. Non-trivial: at least two codes.",
    [Test('conflict', st.tuples(gens.soup, clash, gens.layout).map(list), run, quick=12000)],
)
