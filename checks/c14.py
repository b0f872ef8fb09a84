"""C14: the recorded motion range is the exact bounding box of positions reached."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, check_pos
from decimal import Decimal
from vlib import gens
from .c10 import step

NAMES = ['G17', 'G18', 'G19', 'G90', 'G91', 'G91', 'G98', 'G99', 'G99', 'F', 'G54', 'G55', 'M3', 'M5', 'G28', 'G92', 'T', 'G10']
AXES = ['XYZ', 'XYZ', 'XYZABC', 'XYZABCUVW', 'XYZ in'] + gens.FEW_AXES
CLASSES = dict((a, gens.machine_of(a)) for a in set(AXES))
shift = st.lists(st.integers(-50000, 50000), min_size=3, max_size=3)


def run(c, ctx):
    (kind, prog, shifted) = c
    axes = kind.split()[0]
    b = gens.build(prog, axes=gens.program_axes(kind))
    m = CLASSES[kind]()
    lo = dict((a, 0.0) for a in axes)
    hi = dict(lo)
    off = dict((a, 0.0) for a in axes)
    # one offset for all systems, so that the program's work positions are the same as without
    if shifted:
        off.update((a, v / 1000.) for (a, v) in zip('XYZ', shifted) if a in axes)
        for i in range(1, 10):
            m.state.coord_systems[i].offset.update(**dict((a, v * (25.4 if kind != axes else 1.)) for (a, v) in off.items()))
        for a in axes:
            m.abs_pos.update(**{a: off[a]})
        m.abs_range_min = copy(m.abs_pos)
        m.abs_range_max = copy(m.abs_pos)
        lo, hi = dict(off), dict(off)
        ctx.label('offset')
    grew = False
    for (i, x) in enumerate(b.lines):
        m.process_block(Line(x.text).block)
        for a in axes:
            v = float(x.after.pos[a]) + off[a]
            if v < lo[a] or v > hi[a]:
                grew = True
            lo[a], hi[a] = min(lo[a], v), max(hi[a], v)
        what = "after line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        check_pos(ctx, m.abs_range_min, lo, "minimum " + what, 1e-6)
        check_pos(ctx, m.abs_range_max, hi, "maximum " + what, 1e-6)
        ctx.eq(sorted(m.abs_range_max.values), sorted(axes), "axes of the range " + what)
    ctx.label(kind)
    ctx.trivial = not grew


def progs(axes):
    lin = gens.linear(gens.program_axes(axes))
    return st.tuples(st.just(axes), gens.program(NAMES, [lin, lin, gens.arc, gens.canned, gens.cancel, gens.bare, gens.other], with_comments=False), st.one_of(st.none(), shift)).map(list)


def run_fine(c, ctx):
    """moves by values of any size and precision"""
    (axes, rel, steps) = c
    m = CLASSES[axes]()
    letters = axes.split()[0]
    at = dict((a, Decimal(0)) for a in letters)
    (lo, hi) = (dict(at), dict(at))
    big = Decimal(1)
    for (i, (code, ws)) in enumerate(steps):
        words = [(letters[k % len(letters)], t) for (k, t) in ws]
        words = [w for (j, w) in enumerate(words) if w[0] not in [l for (l, _) in words[:j]]]
        if code in ('G90', 'G91'):
            rel = code == 'G91'
        code = 'G91' if rel and not i else code
        m.process_str(' '.join(([code] if code else []) + (['G1'] if code in ('G90', 'G91') else []) + [l + t for (l, t) in words]))
        for (l, t) in words:
            at[l] = at[l] + Decimal(t) if rel else Decimal(t)
            big = max(big, abs(at[l]))
        what = "after line %d of %r" % (i + 1, steps)
        for a in letters:
            (lo[a], hi[a]) = (min(lo[a], at[a]), max(hi[a], at[a]))
            ctx.check(abs(Decimal(getattr(m.abs_range_min, a)) - lo[a]) <= big * Decimal('1e-14'), "minimum of %s is %r, not %s %s", a, getattr(m.abs_range_min, a), lo[a], what)
            ctx.check(abs(Decimal(getattr(m.abs_range_max, a)) - hi[a]) <= big * Decimal('1e-14'), "maximum of %s is %r, not %s %s", a, getattr(m.abs_range_max, a), hi[a], what)
    ctx.trivial = not any(ws for (_, ws) in steps)


def run_direct(c, ctx):
    """moves made directly, in any mode"""
    (axes, ops) = c
    m = CLASSES[axes]()
    letters = axes.split()[0]
    (at, lo, hi) = [dict((a, Decimal(0)) for a in letters) for _ in range(3)]
    rel = False
    for (i, (kind, k, ws)) in enumerate(ops):
        to = dict((letters[j % len(letters)], Decimal(v) / 1000) for (j, v) in ws)
        if kind == 0:
            line = ['G80', 'G90', 'G91', 'M5', 'G1', 'G18'][k % 6]
            m.process_str(line)
            rel = (line == 'G91') or (rel and line != 'G90')
            to = {}
        elif kind == 1:
            m.pos = m.Position(**dict((a, float(to.get(a, at[a]))) for a in letters))
        else:
            m.move_to(**dict([('rapid', True)] * (k % 2), **dict((a, float(v)) for (a, v) in to.items())))
            if rel:
                to = dict((a, at[a] + v) for (a, v) in to.items())
        at.update(to)
        what = "after %d of %r on %s" % (i + 1, ops, axes)
        for a in letters:
            (lo[a], hi[a]) = (min(lo[a], at[a]), max(hi[a], at[a]))
        check_pos(ctx, m.abs_range_min, dict((a, float(v)) for (a, v) in lo.items()), "minimum " + what, 1e-6)
        check_pos(ctx, m.abs_range_max, dict((a, float(v)) for (a, v) in hi.items()), "maximum " + what, 1e-6)
    ctx.trivial = not any(ws for (kind, _, ws) in ops if kind)


PROPERTY = Property(
    'C14', "Programs as for C10, optionally with offset coordinate systems; corners of the range compared after every line with the "
    "minimum and maximum of the reference positions; and moves by values of up to 12 decimals or 10 digits; and moves made directly, with and without a motion mode. Non-trivial: the range grows.",
    [Test('program', st.one_of(*[progs(a) for a in AXES]), run, quick=4000),
     Test('fine', st.tuples(st.sampled_from(AXES), st.booleans(), st.lists(step, min_size=1, max_size=12)).map(list), run_fine, quick=1500),
     Test('direct', st.tuples(st.sampled_from(AXES), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 11), st.lists(st.tuples(st.integers(0, 8), gens.small).map(list), max_size=3)).map(list),
                                                              min_size=1, max_size=10)).map(list), run_direct, quick=1000)],
)
