"""C15: a copied machine is equal and fully independent."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Position, mode_sig
from vlib import gens, ref

NAMES = gens.MODES + gens.STOPS + ['G18', 'G91', 'G99']
AXES = ['XYZ', 'XYZABC', 'XYZ in']
CLASSES = dict((a, gens.machine_of(a)) for a in AXES)


def snap(m):
    """everything observable of a machine"""
    return {
        'mode': mode_sig(m.mode), 'mode text': str(m.mode),
        'pos': dict(m.pos.values), 'abs': dict(m.abs_pos.values), 'unit': m.abs_pos.unit,
        'min': dict(m.abs_range_min.values), 'max': dict(m.abs_range_max.values),
        'system': m.state.cur_coord_sys,
        'systems': dict((k, dict(v.offset.values)) for (k, v) in m.state.coord_systems.items()),
        'units of systems': dict((k, v.offset.unit) for (k, v) in m.state.coord_systems.items()),
        'offset': dict(m.state.offset.values), 'axes': sorted(m.axes),
    }


def full_snap(m):
    """... and its settings"""
    return dict(snap(m), ignore=m.ignore_invalid_modal)


change = st.tuples(st.integers(0, 8), st.integers(0, 8), st.sampled_from('XYZ'), st.integers(-9000, 9000)).map(list)


def apply(m, item):
    """:param item: a line of text, or a direct change of the machine's state"""
    if not isinstance(item, list):
        m.process_block(Line(item).block)
        return
    (kind, i, axis, v) = item
    v = v / 1000.
    if kind == 0:
        m.state.coord_systems[i + 1].offset.update(**{axis: v})
    elif kind == 1:
        m.state.offset.update(**{axis: v})
    elif kind == 2:
        m.abs_pos.update(**{axis: v})
    elif kind == 3:
        m.abs_range_max.update(**{axis: v + 1000})
        m.abs_range_min.update(**{axis: v - 1000})
    elif kind == 6:
        m.abs_pos.unit = i % 2
    elif kind == 8:
        m.state.coord_systems[i + 1].offset = Position(m.axes, unit=int(v * 1000) % 2, **{axis: v})
    elif kind == 7:
        m.ignore_invalid_modal = bool(i % 2)
    elif kind == 4:
        for g in m.mode.gcodes:
            if axis in g.params:
                setattr(g, axis, v)
            elif g.word.letter in 'FS':
                g.word.value = abs(v)
    else:
        m.mode.motion = None if i % 2 else m.mode.motion
        m.mode.coolant = None


def run(c, ctx):
    (axes, prog, cut, changes, sched) = c
    b = gens.build(prog, axes=gens.program_axes(axes))
    items = [x.text for x in b.lines]
    for (i, ch) in enumerate(changes):
        if ch[0] == 5 or (ch[0] == 4):
            items.append(ch)    # these change what later lines mean: last
        else:
            items.insert((i * 7 + ch[1]) % (len(items) + 1), ch)
    cut = cut % (len(items) + 1)
    (head, tail) = (items[:cut], items[cut:])
    ctx.label('tail' if tail else 'no tail')
    ctx.trivial = not tail or not head
    cls = CLASSES[axes]

    def play(m, seq):
        for it in seq:
            apply(m, it)
        return m

    want_head = full_snap(play(cls(), head))
    want_all = full_snap(play(play(cls(), head), tail))
    m = play(cls(), head)
    k = copy(m)
    ctx.eq(type(k), type(m), "class of the copy")
    ctx.eq(full_snap(k), want_head, "copy after %r" % head)
    ctx.eq(full_snap(m), want_head, "original after copying")
    ctx.check(k.abs_pos == m.abs_pos and k.pos == m.pos, "positions of copy and original differ")
    if sched == 0:
        play(m, tail)
        ctx.eq(full_snap(k), want_head, "copy, after the original ran %r" % tail)
        play(k, tail)
    elif sched == 1:
        play(k, tail)
        ctx.eq(full_snap(m), want_head, "original, after the copy ran %r" % tail)
        play(m, tail)
    else:
        for it in tail:
            apply(m, it)
            apply(k, it)
    ctx.eq(full_snap(m), want_all, "original after %r | %r" % (head, tail))
    ctx.eq(full_snap(k), want_all, "copy after %r | %r" % (head, tail))
    # a copy of a copy, and copies of the parts
    ctx.eq(full_snap(copy(k)), want_all, "copy of the copy")
    ctx.eq(str(copy(k.mode)), str(k.mode), "copy of the mode")


PROPERTY = Property(
    'C15', "A program (with offsets, positions, ranges and mode changed directly now and then) cut anywhere; the copy taken there is compared "
    "and the rest run on the original, the copy or both in turn, against machines that were never copied. Non-trivial: something before and after the copy.",
    [Test('copy', st.tuples(st.sampled_from(['XYZ', 'XYZ', 'XYZABC', 'XYZ in']), gens.program(NAMES, min_lines=2, max_lines=10, with_comments=False), st.integers(0, 20), st.lists(change, max_size=4), st.integers(0, 2)).map(list), run, quick=2500)],
)
