"""C10: the machine ends every program at the right position."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Block, check_pos, GCodeParameterError
from decimal import Decimal
from vlib import gens

NAMES = ['G17', 'G18', 'G19', 'G90', 'G90', 'G91', 'G91', 'G98', 'G99'] + gens.MODES + gens.NONMODAL + gens.STOPS + ['G30', 'G64', 'M66', 'M67', 'G96']
AXES = ['XYZ', 'XYZ', 'XYZABC', 'XYZABCUVW', 'XYZ in', 'XYZABC in'] + gens.FEW_AXES
AMachine = dict((a, gens.machine_of(a)) for a in set(AXES))


def run(c, ctx):
    (axes, how, prog, offs) = c if len(c) == 4 else c + [None]
    b = gens.build(prog, axes=gens.program_axes(axes), offsets=gens.ref_offsets(offs))
    m = AMachine[axes]()
    gens.set_offsets(m, offs)
    ctx.label(axes)
    ctx.label('offsets' if offs else 'no offsets')
    kinds = set()
    for (i, x) in enumerate(b.lines):
        kinds |= x.kinds
        what = "after line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        if how == 0:
            m.process_str(x.text)
        elif how == 1:
            m.process_block(Line(x.text).block)
        else:
            block = Block(x.code)
            m.process_gcodes(*block.gcodes, modal_params=block.modal_params)
        check_pos(ctx, m.pos, gens.of_axes(axes, x.after.pos), what)
        check_pos(ctx, m.abs_pos, gens.of_axes(axes, x.after.abs_pos), what + " (absolute)")
        ctx.eq(sorted(m.pos.axes), sorted(axes.split()[0]), "axes " + what)
    for k in kinds:
        ctx.label(k)
    states = set(e[5][:2] for x in b.lines for e in x.events if e[0] == 'move')
    for s in states:
        ctx.label(' '.join(s))
    ctx.trivial = len(kinds & set(['linear', 'arc', 'canned', 'modal'])) < 1


def moves(axes):
    lin = gens.linear(gens.program_axes(axes))
    return st.tuples(st.just(axes), st.integers(0, 2), gens.program(NAMES, [lin, lin, lin, gens.arc, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other]), gens.work_offsets).map(list)


def run_fine(c, ctx):
    """moves of values of any size and precision"""
    (axes, how, rel, steps) = c
    m = AMachine[axes]()
    letters = axes.split()[0]
    at = dict((a, Decimal(0)) for a in letters)
    big = Decimal(1)
    for (i, (code, ws)) in enumerate(steps):
        words = [(letters[k % len(letters)], t) for (k, t) in ws]
        words = [w for (j, w) in enumerate(words) if w[0] not in [l for (l, _) in words[:j]]]
        if code in ('G90', 'G91'):
            rel = code == 'G91'
        code = 'G91' if rel and not i else code
        text = ' '.join(([code] if code else []) + (['G1'] if code in ('G90', 'G91') else []) + [l + t for (l, t) in words])
        for (l, t) in words:
            at[l] = at[l] + Decimal(t) if rel else Decimal(t)
            big = max(big, abs(at[l]))
        if how == 0:
            m.process_str(text)
        else:
            m.process_block(Block(text))
        what = "after line %d of %r" % (i + 1, steps)
        for a in letters:
            # (floating point has 53 binary digits)
            ctx.check(abs(Decimal(getattr(m.pos, a)) - at[a]) <= big * Decimal('1e-14'), "%s is %r, not %s %s", a, getattr(m.pos, a), at[a], what)
            ctx.check(abs(Decimal(getattr(m.abs_pos, a)) - at[a]) <= big * Decimal('1e-14'), "absolute %s is %r, not %s %s", a, getattr(m.abs_pos, a), at[a], what)
    ctx.label('incremental' if rel else 'absolute', 'below 1e-4' if any(0 < abs(Decimal(t)) < Decimal('1e-4') for (_, ws) in steps for (_, t) in ws) else 'ordinary', 'above 1e6' if big > 10 ** 6 else '')
    ctx.trivial = not any(ws for (_, ws) in steps)


def number(t):
    (neg, digits, places) = t
    s = '%0*d' % (places + 1, digits)
    return ('-' if neg else '') + (s[:-places] + '.' + s[-places:] if places else s)


numbers = st.one_of(st.tuples(st.booleans(), st.integers(0, 10 ** 9), st.integers(0, 12)), st.tuples(st.booleans(), st.integers(10 ** 9, 10 ** 14), st.integers(6, 12)), st.tuples(st.booleans(), st.integers(0, 99), st.integers(0, 9))).map(number)
step = st.tuples(st.sampled_from(['', '', '', 'G0', 'G1', 'G90', 'G91', 'G91']), st.lists(st.tuples(st.integers(0, 8), numbers).map(list), max_size=4)).map(list)


PROPERTY = Property(
    'C10', "Programs of up to 14 lines of rapid, linear, arc, spline, spindle-synchronised and canned moves (explicit and modal), mode changes, non-modal codes, "
    "on machines of 1 to 9 axes, in millimetres or inches, some with offset coordinate systems; position after every line compared with an independent interpreter; and moves by values of up to 12 decimals or 10 digits. Non-trivial: at least one move.",
    [Test('program', st.one_of(*[moves(a) for a in AXES]), run, quick=5000),
     Test('fine', st.tuples(st.sampled_from(AXES), st.integers(0, 1), st.booleans(), st.lists(step, min_size=1, max_size=12)).map(list), run_fine, quick=2000)],
    ["G10, G28, G30, G53 and G92 are not simulated as moves or offsets by the library", "units do not change within a program"],
)
