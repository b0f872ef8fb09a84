"""C19: position arithmetic, comparison and unit conversion are exact and pure."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Position, MachineInvalidAxis, W, close
from pygcode.machine import UNIT_METRIC, UNIT_IMPERIAL
from vlib import gens

ALL = 'XYZABCUVW'
UNITS = {'mm': UNIT_METRIC, 'in': UNIT_IMPERIAL}
axes_st = st.sampled_from(['XYZ', 'XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XY', 'Z', 'XYZABCUVW', 'UVW'])
num = st.one_of(gens.coord, st.integers(-10 ** 9, 10 ** 9))
scalar = st.one_of(st.integers(-40, 40).map(lambda n: n / 4.0), st.integers(1, 99999).map(lambda n: n / 1000.0), st.just(0))
vals9 = st.lists(num, min_size=9, max_size=9)
new_st = st.tuples(st.just('new'), axes_st, st.sampled_from(['mm', 'mm', 'in', None]), vals9, st.integers(0, 511))
i_ = st.integers(0, 50)
op = st.one_of(
    new_st,
    st.tuples(st.sampled_from(['add', 'add', 'sub', 'sub', 'min', 'max', 'eq', 'eq']), i_, i_),
    st.tuples(st.sampled_from(['mul', 'div']), i_, scalar),
    st.tuples(st.just('unit'), i_, st.sampled_from(['mm', 'in'])),
    st.tuples(st.just('set'), i_, st.integers(0, 8), num),
    st.tuples(st.just('update'), i_, st.integers(0, 511), vals9),
    st.tuples(st.just('copy'), i_),
    st.tuples(st.just('read'), i_),
    st.tuples(st.just('twin'), i_, st.sampled_from(['mm', 'in']), st.integers(-1, 8)),
).map(list)


class Model(object):
    def __init__(self, unit, vals):
        (self.unit, self.vals) = (unit, vals)

    def to(self, unit):
        if unit == self.unit:
            return Model(unit, dict(self.vals))
        f = 25.4 if unit == 'mm' else 1 / 25.4
        return Model(unit, dict((k, v * f) for (k, v) in self.vals.items()))


def check(ctx, p, m, what, exp=0):
    ctx.eq(sorted(p.axes), sorted(m.vals), "axes of " + what)
    ctx.eq(p.unit, UNITS[m.unit], "unit of " + what)
    got = p.values
    ctx.eq(sorted(got), sorted(m.vals), "values' axes of " + what)
    for (k, v) in m.vals.items():
        ctx.check(close(got[k], v, 1e-9) and abs(got[k] - v) <= 1e-9 * max(10.0 ** exp, abs(v)), "%s: %s is %r, expected %r", what, k, got[k], v)
        ctx.check(getattr(p, k) == got[k], "%s: attribute %s differs from its value", what, k)


def run(c, ctx):
    (first, ops) = c[:2]
    exp = c[2] if len(c) > 2 else 0     # of the magnitude of all values
    div = 1000.0 * 10.0 ** -exp
    if exp:
        ctx.label('tiny' if exp < 0 else 'huge')
    pool = []
    kinds = set()
    mixed = False

    def new(o):
        (_, axes, unit, vals, mask) = o
        kw = dict((a, vals[ALL.index(a)] / div) for a in axes if mask & (1 << ALL.index(a)))
        args = dict(kw)
        if unit:
            args['unit'] = UNITS[unit]
        p = Position(axes=axes, **args) if axes != ALL else Position(**args)
        m = Model(unit or 'mm', dict((a, kw.get(a, 0.0)) for a in axes))
        return (p, m)

    pool.append(new(first))
    for (n, o) in enumerate(ops):
        what = "%r (step %d)" % (o, n)
        k = o[0]
        kinds.add(k)
        if k == 'new':
            pool.append(new(o))
        else:
            (p, m) = pool[o[1] % len(pool)]
        if k in ('add', 'sub', 'min', 'max', 'eq'):
            (q, mq) = pool[o[2] % len(pool)]
            r = mq.to(m.unit)
            mixed = mixed or mq.unit != m.unit
            if k == 'add':
                if set(m.vals) != set(mq.vals):
                    try:
                        p + q
                    except MachineInvalidAxis:
                        kinds.add('add refused')
                    else:
                        ctx.fail("adding positions of different axes is not refused: " + what)
                else:
                    pool.append((p + q, Model(m.unit, dict((a, v + r.vals[a]) for (a, v) in m.vals.items()))))
            elif k == 'sub':
                if set(mq.vals) - set(m.vals):
                    try:
                        p - q
                    except MachineInvalidAxis:
                        kinds.add('sub refused')
                    else:
                        ctx.fail("subtracting axes the position does not have is not refused: " + what)
                else:
                    pool.append((p - q, Model(m.unit, dict((a, v - r.vals.get(a, 0.0)) for (a, v) in m.vals.items()))))
            elif k in ('min', 'max'):
                if set(m.vals) <= set(mq.vals):
                    f = {'min': min, 'max': max}[k]
                    pool.append((getattr(Position, k)(p, q), Model(m.unit, dict((a, f(v, r.vals[a])) for (a, v) in m.vals.items()))))
            elif k == 'eq':
                same_axes = set(m.vals) == set(mq.vals)
                diff = max([abs(v - r.vals[a]) for (a, v) in m.vals.items()]) if same_axes else None
                if not same_axes or diff > 1e-6:
                    ctx.check(not (p == q) and (p != q), "%r and %r are said to be equal %s", p, q, what)
                elif m.unit == mq.unit and p.values == q.values:
                    ctx.check((p == q) and not (p != q), "%r and %r are said to differ %s", p, q, what)
                ctx.check((p == q) != (p != q), "== and != agree on %r and %r", p, q)
        elif k in ('mul', 'div'):
            s = o[2]
            if k == 'div' and not s:
                continue
            pool.append((p * s if k == 'mul' else p / s,
                         Model(m.unit, dict((a, v * s if k == 'mul' else v / s) for (a, v) in m.vals.items()))))
        elif k == 'unit':
            mixed = mixed or m.unit != o[2]
            p.unit = UNITS[o[2]]
            t = m.to(o[2])
            (m.unit, m.vals) = (t.unit, t.vals)
        elif k in ('set', 'update'):
            new_vals = {}
            if k == 'set':
                new_vals[ALL[o[2]]] = o[3] / div
            else:
                new_vals = dict((a, o[3][i] / div) for (i, a) in enumerate(ALL) if o[2] & (1 << i) and (a in m.vals))
            bad = set(new_vals) - set(m.vals)
            try:
                if k == 'set':
                    setattr(p, ALL[o[2]], o[3] / div)
                else:
                    p.update(**new_vals)
            except MachineInvalidAxis:
                kinds.add('set refused')
                ctx.check(bad, "setting axes it has is refused: " + what)
            else:
                ctx.check(not bad, "setting an axis it does not have is not refused: " + what)
                m.vals.update(new_vals)
        elif k == 'copy':
            pool.append((copy(p), Model(m.unit, dict(m.vals))))
        elif k == 'read':
            ws = p.words
            ctx.eq([(w.letter) for w in ws], sorted(m.vals), "words " + what)
            for w in ws:
                ctx.check(close(w.value, m.vals[w.letter], 1e-9), "word %r %s", w, what)
            for a in ALL:
                if a in m.vals:
                    ctx.check(close(getattr(p, a), m.vals[a], 1e-9), "%s of %s", a, what)
                else:
                    try:
                        getattr(p, a)
                    except AttributeError:
                        pass
                    else:
                        ctx.fail("%s can be read %s" % (a, what))
            (x, y, z) = p.vector.xyz
            for (a, g) in zip('XYZ', (x, y, z)):
                ctx.check(close(g, m.vals.get(a, 0.0), 1e-9), "vector %s", what)
            repr(p)
            p.values['X'] = 12345   # a copy
        elif k == 'twin' and not exp:
            # the same (or nearly the same) place, given in a unit
            if m.unit == 'mm':
                t = Model('in', dict((a, round(v * 40)) for (a, v) in m.vals.items()))
                vals = dict((a, v * 25.4) for (a, v) in t.vals.items())
                off = sorted(vals)[o[3] % len(vals)] if o[3] >= 0 else None
                if off:
                    vals[off] += 0.004
                a1 = Position(axes=''.join(sorted(vals)), unit=UNIT_METRIC, **vals)
                a2 = Position(axes=''.join(sorted(vals)), unit=UNIT_IMPERIAL, **t.vals)
                mixed = True
                ctx.check((a1 == a2) == (not off) and (a1 != a2) == bool(off), "comparing %r (mm) with %r (inches) %s", a1, a2, what)
                pool.append((a1, Model('mm', vals)))
                pool.append((a2, t))
            else:
                pool.append((copy(p), Model(m.unit, dict(m.vals))))
        for (j, (p, m)) in enumerate(pool):
            check(ctx, p, m, "position %d after %s" % (j, what), exp)
        pool = pool[-10:]
    for k in kinds:
        ctx.label(k)
    if mixed:
        ctx.label('mixed units')
    ctx.trivial = len(kinds - set(['new'])) < 2


def run_invalid(c, ctx):
    (axes, bad) = c
    try:
        Position(axes=axes + bad)
    except MachineInvalidAxis:
        pass
    else:
        ctx.fail("axes %r are not refused" % (axes + bad))


PROPERTY = Property(
    'C19', "Sequences of operations on a pool of positions (3 to 9 axes, millimetres or inches), every position of the pool compared with "
    "its model after every operation, so that a changed operand or shared value shows. Non-trivial: at least two kinds of operation.",
    [Test('pool', st.tuples(new_st.map(list), st.lists(op, min_size=1, max_size=14), st.sampled_from([0, 0, 0, 0, -6, -12, 6])).map(list), run, quick=8000),
     Test('invalid', st.tuples(axes_st, st.sampled_from(list('DEFGHIJKLMNOPQRST'))).map(list), run_invalid, quick=200)],
    ["equality of positions in different units is judged from the millimetre operand (exact factor 25.4); a difference under 1e-6 is not judged"],
)
