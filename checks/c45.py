"""C45: moving a machine directly is the same as processing the equivalent move."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Machine, machine_class, Position, G, M, MachineInvalidAxis, mode_sig
from vlib import gens, ref
from .c15 import snap

AXES = ['XYZ', 'XYZ', 'XYZABC', 'XY', 'XYZABCUVW', 'XZ']
MODES = {'mm': None, 'inch': 'G0 G17 G90 G20 G54', 'none': ''}
UNIT = {'mm': M.UNIT_METRIC, 'inch': M.UNIT_IMPERIAL, 'none': M.UNIT_METRIC}
CLASSES = {}
mask = st.integers(1, 511)
vals = st.lists(gens.coord, min_size=9, max_size=9)
op = st.one_of(
    st.tuples(st.just('move'), st.integers(0, 3), mask, vals),
    st.tuples(st.just('move'), st.integers(0, 3), mask, vals),
    st.tuples(st.just('pos'), st.integers(0, 1), mask, vals),
    st.tuples(st.just('dist'), st.integers(0, 1)),
    st.tuples(st.just('select'), st.integers(0, 8)),
    st.tuples(st.just('offset'), st.integers(0, 8), mask, vals),
    st.tuples(st.just('foreign'), st.integers(0, 3), mask, vals),
    st.tuples(st.just('words'), st.integers(0, 1), vals),
).map(list)


def near(a, b):
    return abs(a - b) <= 1e-7 + 1e-9 * abs(b)


def same(ctx, a, b, what):
    """two machines that should be the same, apart from rounding, and the motion mode"""
    (sa, sb) = (snap(a), snap(b))
    for k in ('unit', 'system', 'axes'):
        ctx.eq(sa[k], sb[k], "%s: %s" % (what, k))
    for k in ('pos', 'abs', 'min', 'max', 'offset'):
        ctx.eq(sorted(sa[k]), sorted(sb[k]), "%s: axes of %s" % (what, k))
        for (l, v) in sa[k].items():
            ctx.check(near(v, sb[k][l]), "%s: %s %s is %r, expected %r", what, k, l, v, sb[k][l])


def run(c, ctx):
    (axes, unit, ops) = c
    if (axes, unit) not in CLASSES:
        CLASSES[axes, unit] = machine_class(axes, MODES[unit])
    (m, w) = (CLASSES[axes, unit](), CLASSES[axes, unit]())    # moved directly, and by words
    factor = gens.Decimal('25.4') if unit == 'inch' else 1 / gens.Decimal('25.4')
    inc = False
    seen = set()

    def pick(mask, vs):
        return dict((a, gens.milli(v)) for (i, (a, v)) in enumerate(zip(axes, vs)) if mask & (1 << i))

    def text(d):
        return ' '.join(k + ref.fmt(v) for (k, v) in sorted(d.items()))

    ctx.eq([m.abs_pos.unit, m.pos.unit, m.abs_range_min.unit, m.abs_range_max.unit, m.Position().unit], [UNIT[unit]] * 5, "units of a new machine with mode %r" % MODES[unit])
    ctx.eq([sorted(x.axes) for x in (m.abs_pos, m.pos, m.abs_range_min, m.abs_range_max, m.Position(), m.state.offset)], [sorted(axes)] * 6, "axes of a new machine")
    for (n, o) in enumerate(ops):
        what = "op %d %r of %r, machine %s %s" % (n, o, ops, axes, unit)
        kind = o[0]
        seen.add(kind)
        if kind == 'move':
            d = pick(o[2], o[3])
            f = dict((k, float(v)) for (k, v) in d.items())
            before = mode_sig(m.mode)
            given = dict(f)
            was = (m.pos, copy(m.abs_pos))
            ranges = (copy(m.abs_range_min), copy(m.abs_range_max))
            m.move_to(**dict(f, **({'rapid': True} if o[1] % 2 else {})))
            ctx.eq(mode_sig(m.mode), before, "mode after move_to, " + what)
            ctx.eq(f, given, "coordinates given, " + what)
            for k in axes:
                step = 0 if k not in f else f[k] if inc else f[k] - getattr(was[0], k)
                for (name, x, y) in (('work', was[0], m.pos), ('absolute', was[1], m.abs_pos)):
                    ctx.check(near(getattr(y, k), getattr(x, k) + step), "%s: %s %s is %r after the move, %r before", what, name, k, getattr(y, k), getattr(x, k))
                for (name, fn, r0, r1) in (('minimum', min, ranges[0], m.abs_range_min), ('maximum', max, ranges[1], m.abs_range_max)):
                    v = fn(getattr(r0, k), getattr(m.abs_pos, k))
                    ctx.check(near(getattr(r1, k), v), "%s: %s of %s is %r after the move, expected %r", what, name, k, getattr(r1, k), v)
            if o[1] < 2:
                w.process_str('G%d %s' % (o[1], text(d)))
            else:
                w.process_gcodes([G.GCodeRapidMove, G.GCodeLinearMove][o[1] % 2](**f))
        elif kind == 'pos':
            # a whole work position, in either unit
            d = dict((a, gens.milli(v)) for (a, v) in zip(axes, o[3]))
            f = dict((k, float(v)) for (k, v) in d.items())
            p = Position(axes=axes, unit=UNIT[unit], **f)
            if o[1]:
                p = Position(axes=axes, unit=1 - UNIT[unit], **dict((k, float(v * factor)) for (k, v) in d.items()))
                seen.add('other unit')
            before = (dict(p.values), p.unit)
            m.pos = p
            ctx.eq((dict(p.values), p.unit), before, "position given, " + what)
            w.process_str(('G90 ' if inc else '') + 'G0 ' + text(d))
            if inc:
                w.process_str('G91')
            for (k, v) in d.items():
                ctx.check(near(getattr(m.pos, k), float(v)), "%s: %s of the position set is %r, expected %s", what, k, getattr(m.pos, k), v)
        elif kind == 'dist':
            inc = bool(o[1])
            for x in (m, w):
                x.process_str('G91' if inc else 'G90')
        elif kind == 'select':
            for x in (m, w):
                x.process_str(gens.SYSTEMS[o[1]])
        elif kind == 'offset':
            for x in (m, w):
                x.state.coord_systems[o[1] + 1].offset.update(**dict((k, float(v)) for (k, v) in pick(o[2], o[3]).items()))
        elif kind == 'foreign':
            others = [a for a in 'XYZABCUVW' if a not in axes]
            if not others:
                continue
            a = others[o[3][0] % len(others)]
            f = dict((k, float(v)) for (k, v) in pick(o[2], o[3]).items())
            f[a] = 1.5
            before = snap(m)
            try:
                if o[1] == 0:
                    m.move_to(**f)
                elif o[1] == 1:
                    m.pos = Position(axes=axes + a)
                elif o[1] == 2:
                    m.pos = m.Position(**f)
                else:
                    m.abs_pos.update(**{a: 1.5})
            except MachineInvalidAxis:
                pass
            else:
                ctx.fail("%s: axis %s is accepted" % (what, a))
            ctx.eq(snap(m), before, "machine refusing axis %s, %s" % (a, what))
        else:
            # words of axes it doesn't have are not its business
            others = [a for a in 'ABCUVW' if a not in axes]
            for (i, x) in enumerate((m, w)):
                d = pick(7, o[2])
                if i:
                    d.update(dict((a, gens.milli(v)) for (a, v) in zip(others, o[2])))
                x.process_str('G%d %s' % (o[1], text(d)))
        same(ctx, m, w, what)
        p = copy(m.abs_pos)
        p.unit = 1 - UNIT[unit]
        for k in axes:
            ctx.check(near(getattr(p, k), getattr(m.abs_pos, k) * float(factor)), "%s: %s in the other unit is %r", what, k, getattr(p, k))
    for s in seen:
        ctx.label(s)
    ctx.label(unit, axes)
    ctx.trivial = not seen & {'move', 'pos'}


PROPERTY = Property(
    'C45', "Sequences of move_to, assignments of the position (in either unit), distance modes, coordinate system selections and offsets on machines of "
    "six sets of axes that start in millimetres, inches or neither, next to a machine that gets the same moves as text or codes; coordinates of axes the machine lacks. Non-trivial: moved.",
    [Test('move', st.tuples(st.sampled_from(AXES), st.sampled_from(sorted(MODES)), st.lists(op, min_size=1, max_size=8)).map(list), run, quick=3000)],
    ["offsets of coordinate systems are in millimetres"],
)
