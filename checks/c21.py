"""C21: linearised arcs follow the arc: within tolerance, right way, all of it."""
from vlib.runner import Test, Property
from vlib import arcs
from .c20 import label


def run(c, ctx):
    a = arcs.Arc(c)
    if not a.well_conditioned():
        ctx.trivial = True
        ctx.label('ill-conditioned')
        return
    label(ctx, a)
    what = "%s %r from %r (%s)" % (a.name, a.words, a.start, c['method'])
    verts = arcs.execute(a.linearize(), a.start, a.inc)
    tol = c['err'] / 1000.0
    rounding = 10 ** -c['places'] if a.inc else 0
    arcs.check_follows(ctx, a, verts, tol, tol, rounding, what)
    arcs.check_helix(ctx, a, verts, rounding, what)


PROPERTY = Property(
    'C21', "Random arcs (as for C20); each segment's nearest and farthest point from the true centre, the angle each turns, and their sum are "
    "computed independently. Non-trivial: the arc is well-conditioned (chord over 2% of the radius, or a full circle).",
    [Test('arc', arcs.arc_case, run, quick=10000)],
    ["where the words are rounded, the true arc has the mean of both radii, and the mismatch is allowed for",
     "under G91 every vertex may be off by the rounding of one move"],
)
