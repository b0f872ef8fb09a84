"""C29: a mode's text restores the mode."""
import re
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Machine, machine_class, mode_sig, ref_mode_sig
from vlib import gens, ref

NAMES = gens.ALL_EXTRAS + gens.RARE_MODES
NullClass = machine_class('XYZ', '')
CLASSES = {0: Machine, 1: NullClass}


def plain(sig):
    """tool numbers without the zeros before them"""
    if 'tool' in sig:
        (l, v, ps) = sig['tool']
        sig['tool'] = (l, str(int(v)), ps)
    for (g, (l, v, ps)) in list(sig.items()):
        sig[g] = (l, v, [(pl, str(int(pv)) if pl == 'T' else pv) for (pl, pv) in ps])
    return sig


def run(c, ctx):
    (src, dst, prog, other, how) = c[:5]
    pad = c[5] if len(c) > 5 else 0
    m = CLASSES[src]()
    b = gens.Builder(default=(src == 0))
    for spec in prog:
        b.add(spec)
    for x in b.lines:
        # (the number of a tool may have zeros before it)
        m.process_block(Line(re.sub(r'([tT]\s*)(?=\d)', r'\g<1>' + '0' * (pad % 3), x.text)).block)
    text = str(m.mode)
    mentioned = plain(mode_sig(m.mode))
    what = "mode text %r after %r" % (text, [x.text for x in b.lines])
    want = ref_mode_sig(b.m)
    ctx.eq(sorted(mentioned), sorted(want), "groups with a mode, " + what)
    # the text mentions every group that has a mode
    (items, modal) = ref.assign(ref.words(text))
    ctx.eq(modal, [], "words that are no code, " + what)
    ctx.eq(sorted(it.code.group for it in items), sorted(want), "groups in the " + what)
    ctx.eq([str(g) for g in m.mode.gcodes], [str(g) for g in m.mode.gcodes], "codes")
    # feed it to another machine
    t = CLASSES[dst]()
    o = gens.Builder(default=(dst == 0))
    for spec in other:
        t.process_str(o.add(spec).text)
    if how:
        t.process_block(Line(text).block)
    else:
        t.process_str(text)
    got = plain(mode_sig(t.mode))
    for (g, s) in want.items():
        ctx.check(g in got, "%s restores no %s", what, g)
        ctx.eq(got[g][:2], s[:2], "%s restored by %s" % (g, what))
        if g != 'motion':
            ctx.eq(got[g][2], s[2], "parameters of %s restored by %s" % (g, what))
    ctx.eq(str(m.mode), text, "text of the mode, printed again")
    ctx.label('%s groups' % len(want), 'null' if src else 'default', want.get('motion', ('', '', ()))[0] + str(want.get('motion', ('', 'none'))[1]))
    ctx.trivial = len(b.lines) < 2


PROPERTY = Property(
    'C29', "The mode after a random program, on a machine with or without default mode, printed and fed to another machine (fresh or after another "
    "program). Non-trivial: a program of two lines or more.",
    [Test('restore', st.tuples(st.integers(0, 1), st.integers(0, 1), gens.program(NAMES, max_lines=10, with_comments=False),
                               gens.program(gens.MODES, max_lines=3, with_comments=False), st.integers(0, 1), st.integers(0, 2)).map(list), run, quick=3500)],
    ["no G96 (its S and the spindle speed are both written as S)", "G20/G21 do not convert positions"],
)
