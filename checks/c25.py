"""C25: canned cycle expansion agrees with the machine and across distance modes."""
from vlib.runner import Test, Property
from vlib.sut import machine_class
from vlib import holes
from vlib.ref import fmt

CLASSES = dict(((a, u), machine_class(a, default_mode='G0 G17 G90 %s G94' % u)) for a in ('XYZ', 'XYZABC', 'XYZUVW', 'XYZABCUVW') for u in ('G20', 'G21'))


def run_machine(c, ctx):
    h = holes.Hole(c)
    what = "%s from %r (%s %s)" % (h.text(), dict((k, float(v)) for (k, v) in h.start.items()), 'G91' if h.inc else 'G90', h.ret)
    ctx.label(h.name, 'G91' if h.inc else 'G90', h.ret, 'L%d' % h.L)

    def machine():
        m = CLASSES[h.axes, 'G20' if h.inch else 'G21']()
        m.process_str('G0 ' + ' '.join(k + fmt(v) for (k, v) in h.start.items()))
        m.process_str('G91' if h.inc else 'G90')
        m.process_str(h.ret)
        return m
    (a, b, d) = (machine(), machine(), machine())
    a.process_gcodes(h.gcode())
    codes = h.expand()
    b.process_gcodes(*[]) if not codes else None
    for g in codes:
        b.process_gcodes(g)
    d.process_str(h.text())
    for k in h.axes:
        (va, vb, vd) = (getattr(m.pos, k) for m in (a, b, d))
        ctx.check(abs(va - vb) <= 1e-6, "%s: the machine ends at %r, the expansion at %r", what, a.pos, b.pos)
        ctx.check(abs(vd - vb) <= 1e-6, "%s: the machine (text) ends at %r, the expansion at %r", what, d.pos, b.pos)
    # and it agrees with a plain executor
    steps = [p for (n, p) in holes.path(codes, h.start, h.inc) if n != 'G4']
    end = steps[-1] if steps else dict((k, float(v)) for (k, v) in h.start.items())     # (no move at all: nothing to do)
    for k in h.axes:
        ctx.check(abs(end[k] - getattr(a.pos, k)) <= 1e-6, "%s: the expansion ends at %r, the machine at %r", what, end, a.pos)


def clean(steps, start):
    out = []
    cur = dict((k, float(v)) for (k, v) in start.items())
    for (n, p) in steps:
        if n == 'G4':
            out.append((n, p))
        elif any(abs(p[k] - cur[k]) > 1e-7 for k in cur):
            out.append((n, p))
            cur = p
    return out


def run_modes(c, ctx):
    c = dict(c, l=min(c['l'], 1))
    (ha, hi) = (holes.Hole(c, inc=False), holes.Hole(c, inc=True))
    ctx.label(ha.name, ha.ret, 'X omitted' if c['x'] is None else 'X', 'Y omitted' if c['y'] is None else 'Y')
    pa = clean(holes.path(ha.expand(), ha.start, False), ha.start)
    pi = clean(holes.path(hi.expand(), hi.start, True), hi.start)
    what = "%s (G90) and %s (G91) from %r (%s)" % (ha.text(), hi.text(), ha.start, ha.ret)
    ctx.check(len(pa) == len(pi), "%s: %d and %d moves:\n%r\n%r", what, len(pa), len(pi), pa, pi)
    for ((na, a), (ni, b)) in zip(pa, pi):
        ctx.check(na == ni, "%s: %s %r against %s %r", what, na, a, ni, b)
        if na == 'G4':
            ctx.eq(a, b, "dwell of " + what)
        else:
            for k in a:
                ctx.check(abs(a[k] - b.get(k, 0)) <= 1e-6, "%s: to %r and to %r", what, a, b)


def run_flat(c, ctx):
    """a hole of no depth isn't drilling upward: it's the moves without the drilling"""
    run_machine(dict(c, depth=0), ctx)
    run_modes(dict(c, depth=0), ctx)


PROPERTY = Property(
    'C25', "Random cycles: the machine's position after the cycle against the position after its expansion (two executors), and the expansions of "
    "the same hole written under G90 and under G91. Non-trivial: all of them.",
    [Test('machine', holes.case, run_machine, quick=4000), Test('modes', holes.case, run_modes, quick=4000),
     Test('flat', holes.case, run_flat, quick=600)],
    ["the XY plane (others are refused)", "L is 1 when comparing G90 with G91 (repeats mean different holes)"],
)
