"""C17: filling in the modal code is equivalent to processing the line."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Block, Machine, gsig, wsig, ref_gsig, ref_value, near
from vlib import gens, ref
from .c12 import check_order
from .c15 import snap

NAMES = gens.MODES + gens.NONMODAL + gens.STOPS


def block_snap(block):
    return ([gsig(g) for g in block.gcodes], [wsig(w) for w in block.modal_params], [wsig(w) for w in block.words], str(block))


def full_codes(x):
    """the codes of a line, with its modal motion filled in"""
    out = [ref_gsig(it) for it in x.items]
    if x.modal:
        (name, value) = x.before.mode['motion']
        params = dict(x.before.sticky)
        params.update(dict(x.modal))
        out.append((name[0], float(gens.Decimal(name[1:])), sorted((l, ref_value(l, v)) for (l, v) in params.items())))
    return sorted(out)


def run(c, ctx):
    (prog, offs) = c if len(c) == 2 and (c[1] is None or (c[1] and isinstance(c[1][0][0], int))) else (c, None)
    b = gens.build(prog, offsets=gens.ref_offsets(offs))
    m = Machine()
    gens.set_offsets(m, offs)
    n = 0
    for (i, x) in enumerate(b.lines):
        what = "line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        block = Line(x.text).block
        (s_m, s_b) = (snap(m), block_snap(block))
        codes = m.block_modal_gcodes(block)
        ctx.eq(snap(m), s_m, "machine after asking for the codes of " + what)
        ctx.eq(block_snap(block), s_b, "block after asking for the codes of " + what)
        ctx.eq(sorted(gsig(g) for g in codes), full_codes(x), "codes of " + what)
        check_order(ctx, [gsig(g) for g in codes], what)
        again = m.block_modal_gcodes(block)
        ctx.eq([gsig(g) for g in again], [gsig(g) for g in codes], "second time: codes of " + what)
        if x.modal:
            n += 1
            mg = m.modal_gcode(block.modal_params)
            name = x.before.mode['motion'][0]
            ctx.eq(mg.word, name, "modal code of " + what)
            ctx.eq(snap(m), s_m, "machine after asking for the modal code")
        else:
            ctx.eq(m.modal_gcode(block.modal_params), None, "modal code of " + what)
        ways = [copy(m) for _ in range(5)]
        ways[0].process_block(block)
        ctx.eq(block_snap(block), s_b, "block after processing " + what)
        ways[1].process_gcodes(*codes)
        ways[2].process_str(x.text)
        ways[3].process_gcodes(*Block(x.code).gcodes, modal_params=Block(x.code).modal_params)
        for g in again:
            ways[4].process_gcodes(g)
        want = snap(ways[0])
        ctx.eq(dict((k, float(v)) for (k, v) in x.after.pos.items()).keys(), want['pos'].keys(), "axes")
        for (k, v) in x.after.pos.items():
            ctx.check(near(want['pos'][k], float(v), 1e-7), "%s: %s is %r, expected %s", what, k, want['pos'][k], v)
        for (w, name) in zip(ways[1:], ['its full codes', 'its text', 'codes and modal parameters', 'its full codes one by one']):
            ctx.eq(snap(w), want, "%s: processing %s, against processing the block" % (what, name))
        ctx.eq(snap(m), s_m, "machine not processing " + what)
        m = ways[i % 5]
    ctx.label('modal' if n else 'explicit only')
    for x in b.lines:
        if x.modal:
            ctx.label('modal ' + x.before.name('motion'))
            if x.items:
                ctx.label('modal with codes')
    ctx.trivial = not n


PROPERTY = Property(
    'C17', "Programs with modal moves of every kind, other codes on the same line; every line processed in five ways on copies of the "
    "machine (some with offset coordinate systems), and the full code list compared with the reference. Non-trivial: has a modal line.",
    [Test('program', st.tuples(gens.program(NAMES, [gens.linear(), gens.linear(), gens.linear(), gens.arc, gens.canned, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other], min_lines=2, max_lines=10, with_comments=False), gens.work_offsets).map(list), run, quick=2000)],
)
