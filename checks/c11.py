"""C11: the machine's mode always reflects the last code of each modal group."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Machine, NullMachine, machine_class, mode_sig, ref_mode_sig, near, gsig
from vlib import gens, ref

NAMES = gens.MODES + gens.RARE_MODES + gens.NONMODAL + gens.STOPS + gens.ENDS + ['G96', 'G43', 'G41', 'G64']
MACHINES = {'full': Machine, 'null': NullMachine}


def same_mode(ctx, got, want, what):
    for g in ref.GROUPS:
        (a, b) = (got.get(g), want.get(g))
        if a is None or b is None:
            ctx.eq(a, b, "%s: mode of group %s" % (what, g))
            continue
        ctx.eq(a[:2], b[:2], "%s: mode of group %s" % (what, g))
        ctx.eq([l for (l, _) in a[2]], [l for (l, _) in b[2]], "%s: retained parameters of %s" % (what, g))
        for ((l, v), (_, u)) in zip(a[2], b[2]):
            ctx.check(near(v, u, 1e-9), "%s: retained %s of %s is %r, expected %r", what, l, g, v, u)


def run(c, ctx):
    (kind, prog) = c
    b = gens.Builder(default=(kind == 'full'))
    for spec in prog:
        b.add(spec)
    m = MACHINES[kind]()
    same_mode(ctx, mode_sig(m.mode), ref_mode_sig(b.lines[0].before), "at start")
    kinds = set()
    for (i, x) in enumerate(b.lines):
        kinds |= x.kinds
        m.process_block(Line(x.text).block)
        what = "after line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        want = ref_mode_sig(x.after)
        same_mode(ctx, mode_sig(m.mode), want, what)
        ctx.eq(sorted(g.word.letter + ref.fmt(gens.Decimal(str(g.word.value))) for g in m.mode.gcodes),
               sorted(l + ref.fmt(gens.Decimal(str(v))) for (l, v, _) in want.values()), what + ": codes of the mode")
    for k in kinds:
        ctx.label(k)
    if any(x.after.extra.get(g) for x in b.lines for g in x.after.extra):
        ctx.label('retained')
    if b.lines[-1].after.name('motion') is None:
        ctx.label('no motion mode')
    ctx.trivial = not any(it.code.group for x in b.lines for it in x.items)


PROPERTY = Property(
    'C11', "Programs of modal and non-modal codes of every group, and moves, on the default machine and one with no default mode; "
    "code and retained parameters of all 20 groups compared with an independent interpreter after every line. Non-trivial: at least one modal code.",
    [Test('program', st.tuples(st.sampled_from(['full', 'full', 'null']), gens.program(NAMES, max_lines=12, max_extras=5)).map(list), run, quick=4500)],
)
