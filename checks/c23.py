"""C23: impossible arcs are refused, never approximated; valid ones are not refused."""
import math
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import TR, Position, GCodeParameterError
from vlib import arcs, gens

WAYS = ['no destination', 'no centre', 'both', 'zero R', 'zero radius', 'short R', 'R to start', 'none', 'bad turns']
STATE = ('zero radius', 'short R', 'R to start')    # that depends on where the arc starts


def refused(ctx, arc, words, what):
    g = (arcs.G.GCodeArcMoveCCW if arc.c['ccw'] else arcs.G.GCodeArcMoveCW)(**words)
    if what not in STATE:
        # refused without regard to the machine, too
        try:
            g.assert_params()
        except GCodeParameterError:
            pass
        else:
            ctx.fail("%s: parameters of %s %r are not refused" % (what, arc.name, words))
    it = TR.linearize_arc(g, arc.position(), **arc.kwargs())
    try:
        first = next(it)
    except GCodeParameterError:
        return
    except StopIteration:
        ctx.fail("%s: %s %r gives nothing, and is not refused" % (what, arc.name, words))
    ctx.fail("%s: %s %r from %r is not refused (first move %s)" % (what, arc.name, words, arc.start, first))


def run_impossible(c, ctx):
    (ac, way, x, extra) = c
    a = arcs.Arc(dict(ac, digits=None))
    way = WAYS[way]
    ctx.label(way, ac['plane'], 'G91' if ac['inc'] else 'G90')
    (P, Q, N) = a.axes
    w = dict(a.words)
    ijk = [l for l in 'IJK' if l in w]
    if way == 'no destination':
        w = dict((k, v) for (k, v) in w.items() if k not in 'XYZ')
        if extra & 1:
            w['A'] = x
        if extra & 2:
            w['P'] = 1
    elif way in ('no centre', 'none'):
        w = dict((k, v) for (k, v) in w.items() if k in 'XYZ')
        if way == 'none':
            w = {}
    elif way == 'both':
        w['R'] = w.get('R', (x / 1000.0) or 1.0)
        if not ijk:
            w[['I', 'J', 'K'][extra % 3]] = a.r if extra & 4 else 0.0
    elif way == 'zero R':
        for k in ijk:
            del w[k]
        w['R'] = -0.0 if extra & 1 else 0
    elif way == 'zero radius':
        # the centre is where the arc starts and ends
        w = dict((k, (0.0 if ac['inc'] else a.start[k])) for k in (P, Q) if k == P or not extra & 1)
        if extra & 2:
            w[N] = x / 1000.0
        for k in (P, Q):
            w[arcs.CENTRE[k]] = a.start[k] if ac['abscentre'] else 0.0
    elif way == 'short R':
        # a chord longer than the diameter
        h = a.chord / 2
        if h < 1e-4:
            ctx.trivial = True
            return
        for k in ijk:
            del w[k]
        f = 1 - 10 ** -(1 + (abs(x) % 50) / 10.0)
        w['R'] = h * f * (-1 if extra & 1 else 1)
    elif way == 'R to start':
        w = dict((k, (0.0 if ac['inc'] else a.start[k])) for k in (P, Q) if k == P or not extra & 1)
        if extra & 2:
            w[N] = x / 1000.0   # along the normal only
        w['R'] = a.r * (-1 if extra & 4 else 1)
    elif way == 'bad turns':
        w['P'] = [0, -1, 0.5, 1.5, -2.5, 0.999, 2.001, -3][extra]
    refused(ctx, a, w, way)


def run_valid(c, ctx):
    a = arcs.Arc(c)
    if not a.well_conditioned():
        ctx.trivial = True
        return
    ctx.label(a.form, c['plane'], 'full' if a.full else 'part')
    (arcs.G.GCodeArcMoveCCW if c['ccw'] else arcs.G.GCodeArcMoveCW)(**a.words).assert_params()
    try:
        codes = a.linearize()
    except GCodeParameterError as e:
        ctx.fail("%s %r from %r is refused: %s" % (a.name, a.words, a.start, e))
    ctx.check(codes, "no moves")


def run_semicircle(c, ctx):
    """R is (the nearest double to) half the distance between two points written with three decimals"""
    (ac, d, places) = c
    a = arcs.Arc(dict(ac, digits=None, kind=1))
    (P, Q, N) = a.axes
    (dp, dq) = (d[0] / 1000.0, d[1] / 1000.0)
    if math.hypot(dp, dq) < 0.001:
        ctx.trivial = True
        return
    w = dict((k, v if ac['inc'] else round(a.start[k] + v, 3)) for (k, v) in ((P, dp), (Q, dq)))
    if ac['inc']:
        chord = math.hypot(dp, dq)
    else:
        chord = math.hypot(w[P] - a.start[P], w[Q] - a.start[Q])
    sign = -1 if ac['omit'] & 1 else 1
    w['R'] = sign * chord / 2
    g = (arcs.G.GCodeArcMoveCCW if ac['ccw'] else arcs.G.GCodeArcMoveCW)(**w)
    try:
        codes = list(TR.linearize_arc(g, a.position(), **a.kwargs()))
    except GCodeParameterError as e:
        ctx.fail("exact semicircle %s %r from %r is refused: %s" % (a.name, w, a.start, e))
    ctx.check(codes, "no moves")
    v = arcs.execute(codes, a.start, ac['inc'])
    for k in 'XYZ':
        want = a.start[k] + w[k] if (ac['inc'] and k in w) else w.get(k, a.start[k])
        ctx.check(abs(v[-1][k] - want) <= 10 ** -ac['places'], "semicircle %r ends at %r", w, v[-1])


PROPERTY = Property(
    'C23', "Arcs made impossible in each way the property lists (random plane, modes, values), valid arcs, and semicircles whose R is "
    "the exact half chord. Non-trivial: every impossible arc; valid arcs that are well-conditioned.",
    [Test('impossible', st.tuples(arcs.arc_case, st.integers(0, len(WAYS) - 1), gens.small, st.integers(0, 7)).map(list), run_impossible, quick=6000),
     Test('valid', arcs.arc_case, run_valid, quick=4000),
     Test('semicircle', st.tuples(arcs.arc_case, st.tuples(gens.small, gens.small).map(list), st.just(3)).map(list), run_semicircle, quick=4000)],
    ["R counts as too small if it is short of half the chord by more than one part in 10^7"],
)
