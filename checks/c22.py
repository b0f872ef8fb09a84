"""C22: inside, outside and mid linearisation stay on their promised side, with no more segments than needed."""
import math
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import arcs
from .c20 import label


def run(c, ctx):
    a = arcs.Arc(c)
    if not a.well_conditioned():
        ctx.trivial = True
        ctx.label('ill-conditioned')
        return
    label(ctx, a)
    method = c['method'] or 'm'
    what = "%s %r from %r (%s, tolerance %r)" % (a.name, a.words, a.start, c['method'], c['err'] / 1000.0)
    codes = a.linearize()
    verts = arcs.execute(codes, a.start, a.inc)
    rounding = 10 ** -c['places'] if a.inc else 0
    err = min(c['err'] / 1000.0, a.r)
    (tin, tout) = {'i': (err, 0), 'o': (0, err), 'm': (err / 2, err / 2)}[method]
    arcs.check_follows(ctx, a, verts, tin, tout, rounding, what)
    if method == 'i':
        for v in verts:
            p = a.planar(v)
            d = math.hypot(p[0] - a.C[0], p[1] - a.C[1])
            ctx.check(abs(d - a.r) <= a.slack + rounding * 1.5, "%s: vertex %r is %.6f from the centre, radius %.6f", what, v, d, a.r)
    need = a.sweep / arcs.max_wedge(method, a.r, c['err'] / 1000.0)
    slack = 1e-6 + 2 * (a.slack / a.r) * need * 4
    most = math.ceil(need + slack) + (0 if method == 'i' else 1)
    ctx.check(len(codes) <= most, "%s: %d moves, %d are enough", what, len(codes), most)
    ctx.label('%s moves' % (len(codes) if len(codes) < 6 else '6+'))


PROPERTY = Property(
    'C22', "Random arcs (as for C20) with each method; vertices and segments against the method's side, and the number of segments against the "
    "largest angle the method's geometry allows. Non-trivial: the arc is well-conditioned.",
    [Test('arc', arcs.arc_case, run, quick=10000)],
    ["a tolerance over the radius counts as the radius"],
)
