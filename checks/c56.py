"""C56: arcs are divided evenly, and into what the method (one of a user's own included) says."""
import math
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import TR, Position
from vlib import arcs
from .c20 import label

TWO_PI = 2 * math.pi


def spy(base):
    class Spy(base):
        seen = []

        def __init__(self, *args, **kwargs):
            self.seen.append(self)
            super(Spy, self).__init__(*args, **kwargs)
    Spy.seen = []
    return Spy


def own(wedge, inner, outer, phase):
    class Own(TR.ArcLinearizeMethod):
        chord_phase_offset = phase

        def get_max_wedge_angle(self):
            return wedge

        def get_inner_radius(self):
            return self.arc_radius * inner

        def get_outer_radius(self):
            return self.arc_radius * outer
    return Own


def pieces(ctx, a, verts, radius, phase, n, what):
    """:param radius: of the vertices between the ends; :param n: number of wedges"""
    pts = [a.planar(v) for v in verts]
    ctx.eq(len(pts) - 1, n + (1 if phase else 0), "number of moves, for %d wedges (%s): %s" % (n, 'offset' if phase else 'not offset', what))
    tol = a.slack + 1e-7 * (radius + a.r)
    cuts = [(i + (0.5 if phase else 1)) / n for i in range(n - (0 if phase else 1))]
    for (f, p) in zip(cuts, pts[1:-1]):
        ang = a.a0 + a.dirn * f * a.sweep
        (x, y) = (a.C[0] + radius * math.cos(ang), a.C[1] + radius * math.sin(ang))
        ctx.check(math.hypot(x - p[0], y - p[1]) <= tol * (2 + radius / a.r), "%s: at %r of the arc the vertex is %r, expected %r", what, f, p, (x, y))
        h = a.n0 + f * (a.n1 - a.n0)
        ctx.check(abs(h - p[2]) <= 1e-6 * (1 + abs(h)) + abs(a.n1 - a.n0) * 1e-6, "%s: at %r of the arc the vertex is %r, expected height %r", what, f, p, h)


def run_own(c, ctx):
    (ac, w, k, phase) = c
    a = arcs.Arc(dict(ac, digits=None, inc=False))
    if not a.well_conditioned():
        ctx.trivial = True
        return
    wedge = math.radians(w / 10.0)
    label(ctx, a)
    ctx.label('offset' if phase else 'not offset')
    n = a.sweep / wedge
    if abs(n - round(n)) < 1e-4 * n:     # as many or one more
        ctx.trivial = True
        return
    n = int(math.ceil(n))
    what = "%s %r from %r in wedges of %r degrees, vertices at %r of the radius" % (a.name, a.words, a.start, w / 10.0, k / 100.0)
    kw = dict(a.kwargs(), method_class=own(wedge, 0.5, k / 100.0, phase))
    verts = arcs.execute(list(TR.linearize_arc(a.gcode(), a.position(), **kw)), a.start, False)
    pieces(ctx, a, verts, a.r * k / 100.0, phase, n, what)
    for x in 'XYZ':
        ctx.check(abs(verts[-1][x] - a.end[x]) <= 1e-6, "%s ends at %r, expected %r", what, verts[-1], a.end)


def run_given(c, ctx):
    a = arcs.Arc(dict(c, digits=None, inc=False))
    if not a.well_conditioned():
        ctx.trivial = True
        return
    label(ctx, a)
    method = c['method'] or 'm'
    base = arcs.METHODS[method]
    S = spy(base)
    what = "%s %r from %r (%s, tolerance %r)" % (a.name, a.words, a.start, c['method'], c['err'] / 1000.0)
    verts = arcs.execute(list(TR.linearize_arc(a.gcode(), a.position(), **dict(a.kwargs(), method_class=S))), a.start, False)
    ctx.check(verts == arcs.execute(a.linearize(), a.start, False), "%s: a class derived from the method gives other moves", what)
    ctx.eq(len(S.seen), 1, "methods made: %s" % what)
    m = S.seen[0]
    phase = method != 'i'
    n = len(verts) - 1 - (1 if phase else 0)
    ctx.eq(m.wedge_count, n, "wedges said to be used: %s" % what)
    ctx.check(abs(m.wedge_angle - (a.sweep / n) * -a.dirn) <= 1e-6 + a.slack / a.r, "%s: wedge angle is said to be %r, turned is %r", what, m.wedge_angle, a.sweep / n * -a.dirn)
    ctx.check(abs(m.wedge_angle) <= m.max_wedge_angle * (1 + 1e-9), "%s: wedge angle %r over %r", what, m.wedge_angle, m.max_wedge_angle)
    want = arcs.max_wedge(method, a.r, c['err'] / 1000.0)
    ctx.check(abs(m.max_wedge_angle - want) <= 1e-5 * want + a.slack / a.r, "%s: largest wedge angle is %r, expected %r", what, m.max_wedge_angle, want)
    pieces(ctx, a, verts, m.outer_radius, phase, n, what)
    # whole chords are tangents of the inner radius
    if m.outer_radius < 1e6:
        inner = m.outer_radius * math.cos(a.sweep / n / 2)
        ctx.check(abs(m.inner_radius - abs(inner)) <= 1e-6 * (1 + a.r) + a.slack, "%s: inner radius is said to be %r, chords are %r off the centre", what, m.inner_radius, inner)
    ctx.label('%s wedges' % (n if n < 4 else '4+'))


PROPERTY = Property(
    'C56', "Random arcs (as for C20, G90, full precision) through methods made up for the test (angle of a wedge, radius of the vertices, offset or "
    "not) and through classes derived from the three methods given; every vertex is calculated from the arc and what the method says. "
    "Non-trivial: the arc is well-conditioned, and the number of wedges isn't on the border.",
    [Test('own', st.tuples(arcs.arc_case, st.integers(15, 1799), st.integers(60, 160), st.booleans()).map(list), run_own, quick=5000),
     Test('given', arcs.arc_case, run_given, quick=6000)],
    [],
)
