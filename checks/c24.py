"""C24: expanded canned cycles drill the same hole safely."""
from vlib.runner import Test, Property
from vlib.sut import G, gsig
from vlib import holes


def run(c, ctx):
    h = holes.Hole(c)
    ctx.label(h.name, 'G91' if h.inc else 'G90', '%s given' % c['ret'], 'L%d' % h.L,
              'from above R' if h.start['Z'] > h.R else 'from below R' if h.start['Z'] < h.R else 'from R')
    what = "%s from %r (%s)" % (h.text(), dict((k, float(v)) for (k, v) in h.start.items()), h.ret)
    kw = {}
    if c['ret'] is None:
        kw['retract_mode'] = None
    if c['mask'] == 3 and not h.inc:
        kw['dist_mode'] = None
    if c['mask'] == 2:
        kw['plane'] = None
    codes = h.expand(**kw)
    for g in codes:
        ctx.check(type(g) in (G.GCodeRapidMove, G.GCodeLinearMove, G.GCodeDwell), "%r is not a plain move or dwell: %s", g, what)
    steps = holes.path(codes, h.start, h.inc)
    start = dict((k, float(v)) for (k, v) in h.start.items())
    n = holes.consume(ctx, steps, h, start, 1e-6, what)
    cur = [start] + [p for (name, p) in steps if name != 'G4']
    for (name, p) in steps[n:]:
        ctx.check(name != 'G4' and all(abs(p[k] - cur[-1].get(k, 0)) <= 1e-6 for k in p), "%s: more moves than the hole needs: %r", what, steps[n:])
    end = cur[-1]
    ctx.check(abs(end['Z'] - float(h.final)) <= 1e-6, "%s ends at %r", what, end)


PROPERTY = Property(
    'C24', "Random cycles (all six codes, random place, level, depth, Q, P, L, start above or below R, G90/G91, G98/G99/default) judged move "
    "by move against the rules of the hole. Non-trivial: all of them.",
    [Test('hole', holes.case, run, quick=6000)],
    ["the XY plane (others are refused)", "under G98 the start is not below the bottom of the hole", "no more than 600 pecks"],
)
