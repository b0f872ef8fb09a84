"""C13: work and absolute coordinates stay consistent with the coordinate system."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import machine_class, Position, check_pos
from pygcode.machine import UNIT_IMPERIAL, UNIT_METRIC
from vlib import gens, ref

SYSTEMS = ['G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3']
AXES = ['XYZ', 'XYZ', 'XYZABC']
CLASSES = dict((a, machine_class(a)) for a in set(AXES))
mask = st.integers(1, 63)
vals = st.lists(gens.coord, min_size=6, max_size=6)
op = st.one_of(
    st.tuples(st.just('move'), st.integers(0, 1), mask, vals),
    st.tuples(st.just('move'), st.integers(0, 1), mask, vals),
    st.tuples(st.just('dist'), st.integers(0, 1)),
    st.tuples(st.just('select'), st.integers(0, 8)),
    st.tuples(st.just('select'), st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, -1])),
    st.tuples(st.just('offset'), st.integers(0, 8), mask, vals),
    st.tuples(st.just('temp'), mask, vals),
    st.tuples(st.just('pos'), mask, vals),
    st.tuples(st.just('copy')),
).map(list)


def run(c, ctx):
    (axes, ops) = c[:2]
    scale = c[2] if len(c) > 2 else 0
    eps = 1e-6 * 10. ** scale
    m = CLASSES[axes]()
    zero = dict((a, gens.Decimal(0)) for a in axes)
    absolute = dict(zero)
    offs = [dict(zero) for _ in SYSTEMS] + [zero]     # (the last: no system)
    temp = dict(zero)
    (cur, inc) = (0, False)
    lo, hi = dict(zero), dict(zero)

    def pick(mask, vs):
        return dict((a, gens.milli(v).scaleb(scale)) for (i, (a, v)) in enumerate(zip(axes, vs)) if mask & (1 << i))

    def floats(d):
        return dict((k, float(v)) for (k, v) in d.items())

    seen = set()
    for (n, o) in enumerate(ops):
        seen.add(o[0])
        if o[0] == 'move':
            d = pick(o[2], o[3])
            m.process_str('G%d ' % o[1] + ' '.join(k + ref.fmt(v) for (k, v) in d.items()))
            for (k, v) in d.items():
                absolute[k] = absolute[k] + v if inc else v + offs[cur][k] + temp[k]
        elif o[0] == 'dist':
            inc = bool(o[1])
            m.process_str('G91' if inc else 'G90')
        elif o[0] == 'select':
            cur = o[1]
            if cur < 0:
                m.mode.coordinate_system = None
                m.state.cur_coord_sys = None
                ctx.label('no system')
            else:
                m.process_str(SYSTEMS[cur])
        elif o[0] == 'offset':
            d = pick(o[2], o[3])
            offs[o[1]].update(d)
            m.state.coord_systems[o[1] + 1].offset.update(**floats(d))
        elif o[0] == 'temp':
            d = pick(o[1], o[2])
            temp.update(d)
            m.state.offset.update(**floats(d))
        elif o[0] == 'pos':
            d = pick(o[1], o[2])
            new = copy(m.pos)
            new.update(**floats(d))
            m.pos = new
            for (k, v) in d.items():
                absolute[k] = v + offs[cur][k] + temp[k]
        elif o[0] == 'copy':
            m = copy(m)
        what = "after %r" % (ops[:n + 1],)
        total = dict((k, offs[cur][k] + temp[k]) for k in axes)
        work = dict((k, absolute[k] - total[k]) for k in axes)
        for k in axes:
            lo[k], hi[k] = min(lo[k], absolute[k]), max(hi[k], absolute[k])
        check_pos(ctx, m.abs_pos, absolute, "absolute position " + what, eps)
        check_pos(ctx, m.pos, work, "work position " + what, eps)
        check_pos(ctx, m.abs2work(m.abs_pos), work, "abs2work " + what, eps)
        check_pos(ctx, m.work2abs(m.pos), absolute, "work2abs " + what, eps)
        p = m.Position(**floats(pick(63, [7000 * n - 3000 + i for i in range(6)])))
        pd = dict(p.values)
        check_pos(ctx, m.work2abs(p), dict((k, pd[k] + float(total[k])) for k in axes), "work2abs of %r %s" % (p, what), eps)
        check_pos(ctx, m.abs2work(m.work2abs(p)), pd, "there and back " + what, eps)
        check_pos(ctx, m.work2abs(m.abs2work(p)), pd, "back and there " + what, eps)
        check_pos(ctx, p, pd, "argument of the conversions", 0)
        # the same position in the other unit
        q = copy(p)
        q.unit = UNIT_IMPERIAL
        qd = dict(q.values)
        for (name, r, want) in (('work2abs', m.work2abs(q), dict((k, pd[k] + float(total[k])) for k in axes)), ('abs2work', m.abs2work(q), dict((k, pd[k] - float(total[k])) for k in axes))):
            r = copy(r)
            r.unit = UNIT_METRIC
            check_pos(ctx, r, want, "%s of %r (inches) %s" % (name, q, what), 1e-6)
        ctx.eq((q.unit, dict(q.values)), (UNIT_IMPERIAL, qd), "argument of the conversions")
        check_pos(ctx, m.abs_range_min, lo, "minimum " + what, eps)
        check_pos(ctx, m.abs_range_max, hi, "maximum " + what, eps)
        ctx.eq(m.state.cur_coord_sys, cur + 1 if cur >= 0 else None, "selected system " + what)
        ctx.check(m.state.coord_sys is (m.state.coord_systems[cur + 1] if cur >= 0 else None), "coord_sys " + what)
        for i in range(9):
            check_pos(ctx, m.state.coord_systems[i + 1].offset, offs[i], "offset of system %d %s" % (i + 1, what), eps / 1000)
    for s in seen:
        ctx.label(s)
    ctx.label('scale 1e%d' % scale)
    ctx.trivial = not (seen & set(['offset', 'temp'])) or not (seen & set(['move', 'pos']))


PROPERTY = Property(
    'C13', "Histories of moves (absolute, incremental, some axes), coordinate system selections (none, too), offsets set on any system, "
    "temporary offsets, direct positioning and copies, on machines of 3 and 6 axes, at scales from nanometres to kilometres, against a model holding both coordinates. "
    "Non-trivial: has an offset and a move.",
    [Test('history', st.tuples(st.sampled_from(AXES), st.lists(op, min_size=1, max_size=14), st.sampled_from([0, 0, 0, -3, -6, 3])).map(list), run, quick=6000)],
)
