"""C20: linearised arcs join up and end exactly at the arc end."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import G
from vlib import arcs, gens

# other axes the arc names: axis, where it is (None: the machine has no such axis), where (or how far) it goes
OTHERS = st.lists(st.tuples(st.sampled_from('ABCUVW'), st.one_of(st.none(), gens.small, gens.small), gens.small).map(list), min_size=1, max_size=3)


def label(ctx, a):
    c = a.c
    ctx.label(c['plane'], 'G3' if c['ccw'] else 'G2', 'G91' if a.inc else 'G90', {'c': 'centre form', 'r': 'radius form'}[a.form],
              'helix' if a.n0 != a.n1 else 'flat', 'full' if a.full else ['minor', 'major'][a.sweep > 3.1415927], 'method %s' % c['method'], '%d turns' % c.get('turns', 0))
    if a.form == 'c' and c['abscentre']:
        ctx.label('absolute centre')


def run(c, ctx):
    a = arcs.Arc(c)
    if not a.well_conditioned():
        ctx.trivial = True
        ctx.label('ill-conditioned')
        return
    label(ctx, a)
    what = "%s %r from %r (%s)" % (a.name, a.words, a.start, c['method'])
    (g, start) = (a.gcode(), a.position())
    before = str(g), dict((l, w.value) for (l, w) in g.params.items())
    codes = list(arcs.TR.linearize_arc(g, start, **a.kwargs()))
    ctx.eq((str(g), dict((l, w.value) for (l, w) in g.params.items())), before, "the arc, after " + what)
    ctx.eq(start.values, a.start, "the start position, after " + what)
    ctx.check(codes, "no moves for " + what)
    for x in codes:
        ctx.check(type(x) is G.GCodeLinearMove and str(x.word) == 'G01', "%r is not a straight feed move: %s", x, what)
        ctx.check(set(x.params) <= set('XYZ'), "%r has other words: %s", x, what)
    verts = arcs.execute(codes, a.start, a.inc)
    for k in 'XYZ':
        ctx.check(abs(verts[-1][k] - a.end[k]) <= (0.5 * 10 ** -c['places'] if a.inc else 0) + 1e-6,
                  "%s ends at %r, expected %r", what, verts[-1], a.end)
    if a.inc:
        for x in codes:
            for (l, w) in x.params.items():
                ctx.check(abs(w.value - round(w.value, c['places'])) < 1e-12, "%r is not rounded to %d places: %s", x, c['places'], what)
    arcs.check_helix(ctx, a, verts, 10 ** -c['places'] if a.inc else 0, what)
    ctx.label('%s moves' % (len(codes) if len(codes) < 4 else '4+'))


def run_others(c, ctx):
    """axes other than X, Y and Z move along, in proportion to the angle"""
    (c, others) = c
    a = arcs.Arc(c)
    if not a.well_conditioned():
        ctx.trivial = True
        return
    label(ctx, a)
    others = dict((k, (None if s is None else s / 1000.0, e / 1000.0)) for (k, s, e) in others)
    known = dict((k, s) for (k, (s, e)) in others.items() if s is not None)
    ctx.label('%d axes' % len(others), '%d known' % len(known))
    words = dict((k, e if a.inc or k not in known else e + known[k]) for (k, (s, e)) in others.items())
    start = arcs.Position(axes='XYZ' + ''.join(sorted(known)), unit=a.position().unit, **dict(a.start, **known))
    g = type(a.gcode())(**dict(a.words, **words))
    kw = a.kwargs()
    codes = list(arcs.TR.linearize_arc(g, start, **kw))
    plain = a.linearize()
    what = "%r from %r" % (g, start)
    ctx.eq([dict((l, w.value) for (l, w) in x.params.items() if l in 'XYZ') for x in codes],
           [dict((l, w.value) for (l, w) in x.params.items()) for x in plain], "X, Y and Z of the moves, with and without the other axes of " + what)
    first = dict((k, 0.0 if a.inc else known.get(k, words[k])) for k in words)
    verts = arcs.execute(codes, dict(a.start, **first), a.inc)
    half = 0.5 * 10 ** -c['places'] if a.inc else 0
    halves = c['method'] != 'i'     # (the first and last piece turn half as much as the others)
    n = len(codes) - halves
    for (i, v) in enumerate(verts[1:]):
        part = 1.0 if i == len(codes) - 1 else (i + (0.5 if halves else 1.0)) / n
        for k in words:
            want = first[k] + (words[k] - (0 if a.inc else first[k])) * part
            ctx.check(abs(v[k] - want) <= half + 1e-6, "%s: after move %d of %d %s is at %r, expected %r", what, i + 1, len(codes), k, v[k], want)


PROPERTY = Property(
    'C20', "Random arcs: plane, direction, centre or radius form, distance modes, helix, omitted words, radius 0.02 to 3000, tolerance 0.001 to 200, "
    "words at full precision or rounded; moves executed by a separate accumulator; other axes must progress with the angle. Non-trivial: the arc is well-conditioned "
    "(chord over 2% of the radius, or a full circle).",
    [Test('arc', arcs.arc_case, run, quick=10000), Test('others', st.tuples(arcs.arc_case, OTHERS).map(list), run_others, quick=1500)],
    ["incremental moves may end half of the last printed place off the end (that is the rounding the caller asks for)"],
)
