"""C26: omitting redundant motion words preserves the program."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, U, gsig, mode_sig, machine_class, check_pos
from vlib import gens, ref
from vlib.ref import RefMachine, fmt

NAMES = ['G17', 'G18', 'G19', 'G90', 'G91', 'G98', 'G99', 'F', 'S', 'M3', 'M5', 'G4', 'G54', 'G93', 'G64', 'M6', 'N', 'M62', 'M0', 'G40', 'G43']
LIN = gens.linear(modal=False)
NullClass = machine_class('XYZ', '')


def full_texts(case):
    """one fully qualified code per line, in execution order"""
    b = gens.Builder()
    out = []
    for spec in case:
        x = b.add(spec)
        m = x.before.copy()
        rest = [(it.code.order, [(it.letter, it.value)] + it.params) for it in x.items]
        if x.modal:
            name = x.before.name('motion')
            params = dict(x.before.sticky)
            params.update(dict(x.modal))
            rest.append((ref.CODES[(name[0], gens.Decimal(name[1:]))].order, [(name[0], gens.Decimal(name[1:]))] + sorted(params.items())))
        rest.sort(key=lambda r: r[0])
        for (_, ws) in rest:
            out.append(ws)
    return out


def run(c, ctx):
    codes = full_texts(c)
    texts = [gens.join_words(ws) for ws in codes]
    gcodes = [Line(t).block.gcodes[0] for t in texts]
    before = [(gsig(g), str(g)) for g in gcodes]
    out = []
    for (i, g) in enumerate(U.omit_redundant_modes(iter(gcodes))):
        out.append(str(g))
        ctx.eq(gsig(g), before[i][0], "code yielded for %r" % texts[i])
    ctx.eq(len(out), len(texts), "number of codes yielded for %r" % texts)
    ctx.eq([(gsig(g), str(g)) for g in gcodes], before, "the codes passed in, afterwards")
    (a, b) = (RefMachine(), RefMachine())
    real = NullClass()
    (kept, omitted, force) = (0, 0, None)
    for (i, (t, o)) in enumerate(zip(texts, out)):
        what = "line %d %r (from %r) of %r" % (i + 1, o, t, out)
        (ea, eb) = ([e for e in m.line(s) if e[0] != 'move' or e[2]] for (m, s) in ((a, t), (b, o)))    # (a motion code alone moves nothing)
        ctx.eq(eb, ea, "executing " + what)
        ctx.eq(b.pos, a.pos, "position after " + what)
        ctx.eq(b.mode, a.mode, "mode after " + what)
        ctx.eq(b.sticky, a.sticky, "retained words after " + what)
        real.process_str(o)
        (items, modal) = ref.assign(ref.words(t))
        name = items[0].name
        redundant = items[0].code.group == 'motion' and name == force
        blanked = not ref.assign(ref.words(o))[0]
        if name in ref.CANNED:
            # (not to be omitted if words retained from the last cycle would be used)
            ctx.check(redundant or not blanked, "%s: the code is blanked; motion mode in force is %s", what, force)
        else:
            ctx.check(blanked == redundant, "%s: the code is %sblanked; motion mode in force is %s", what, '' if blanked else 'not ', force)
        if items[0].code.group == 'motion':
            force = name
        elif name == 'G80':
            force = None
        if blanked:
            omitted += 1
        elif items[0].code.group == 'motion':
            kept += 1
    check_pos(ctx, real.pos, a.pos, "machine after processing %r" % out, 1e-6)
    ctx.label('omitted' if omitted else 'none omitted')
    ctx.trivial = not (omitted and kept > 1)


PROPERTY = Property(
    'C26', "Random programs written as one fully qualified code per line, fed to the filter and printed line by line; both texts executed by the "
    "reference interpreter. Non-trivial: something is omitted, and motion changes.",
    [Test('program', gens.program(NAMES, [LIN, LIN, LIN, gens.arc, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other], min_lines=4, max_lines=14,
                                  with_comments=False, with_layout=False), run, quick=3000)],
)
