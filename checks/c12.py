"""C12: codes of a line execute in the standard order, not text order."""
from collections import Counter
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, Machine, G, gsig, ref_gsig, check_pos, mode_sig
from vlib import gens, ref

# codes whose place is not given by the standard's list (or whose place does not matter)
LOOSE = ('G7', 'G8', 'G90.1', 'G91.1', 'M19', 'G96', 'G97', 'G53', 'G76')
NAMES = gens.MODES + gens.NONMODAL + gens.STOPS + gens.ENDS + gens.RARE_MODES + ['G30', 'M66', 'M52', 'N']


class Recorder(object):
    """notes the codes processed, in order"""
    def __enter__(self):
        self.seen = []
        self.orig = G.GCode.process
        (seen, orig) = (self.seen, self.orig)

        def process(gcode, machine):
            seen.append(gsig(gcode))
            return orig(gcode, machine)
        G.GCode.process = process
        return self

    def __exit__(self, *_):
        G.GCode.process = self.orig


def order_of(sig):
    c = ref.code_of(sig[0], gens.Decimal(str(sig[1])) if sig[0] in 'GM' else None)
    return None if c.word in LOOSE else c.order


def check_order(ctx, seq, what):
    last = None
    for s in seq:
        o = order_of(s)
        if o is None:
            continue
        if last is not None:
            ctx.check(o >= last[0], "%s: %s%s comes after %s%s (%r)", what, s[0], s[1], last[1][0], last[1][1], seq)
        last = (o, s)


def run_line(c, ctx):
    """a line of any codes, on a fresh machine"""
    (soup, lay, rot, how) = c
    groups = [g for g in gens.soup_groups(soup)]
    rot = rot % (len(groups) + 1)
    words = []
    for g in groups[rot:] + groups[:rot]:
        (items, rest) = ref.assign(words + g)
        if rest or ref.conflicts(items) or any(it.name in ref.CANNED + ('G76',) for it in items):
            continue
        words = words + g
    text = gens.join_words(words, lay)
    (items, _) = ref.assign(words)
    orders = [it.code.order for it in items]
    if len(items) > 1:
        ctx.label('out of order' if orders != sorted(orders) else 'in order')
    ctx.trivial = orders == sorted(orders)
    block = Block(text)
    m = Machine()
    with Recorder() as r:
        if how == 0:
            m.process_block(block)
        elif how == 1:
            m.process_str(text)
        elif how == 2:
            m.process_gcodes(*block.gcodes)
        else:
            m.process_gcodes(*reversed(block.gcodes))
    ctx.eq(sorted(map(repr, r.seen)), sorted(repr(ref_gsig(it)) for it in items), "codes processed for %r" % text)
    check_order(ctx, r.seen, "processing of %r" % text)
    check_order(ctx, [gsig(g) for g in sorted(block.gcodes)], "sorted codes of %r" % text)
    check_order(ctx, [gsig(g) for g in Machine().block_modal_gcodes(block)], "full codes of %r" % text)


def run_program(c, ctx):
    """whole programs with every line's codes in random text order: modal moves too"""
    b = gens.build(c)
    m = Machine()
    n = 0
    for x in b.lines:
        with Recorder() as r:
            m.process_block(Line(x.text).block)
        want = sorted((it.letter + ref.fmt(it.value)) for it in x.items)
        if x.modal:
            name = x.before.name('motion')
            want = sorted(want + [name])
            ctx.label('modal')
        if len(want) > 1:
            n += 1
        ctx.eq(sorted(s[0] + ref.fmt(gens.Decimal(str(s[1]))) for s in r.seen), want, "codes processed for %r" % x.text)
        check_order(ctx, r.seen, "processing of %r" % x.text)
        check_pos(ctx, m.pos, x.after.pos, "after %r" % x.text)
    ctx.trivial = not n


PROPERTY = Property(
    'C12', "Lines of random codes (all supported ones) in random text order, and programs with several codes per line: the sequence of "
    "codes processed is recorded and compared with the standard order of execution. Non-trivial: text order differs from execution order / "
    "some line has several codes.",
    [Test('line', st.tuples(gens.soup, gens.layout, st.integers(0, 5), st.integers(0, 3)).map(list), run_line, quick=9000),
     Test('program', gens.program(NAMES, max_lines=6, max_extras=6), run_program, quick=2000)],
    ["no order is demanded of G7/G8, G90.1/G91.1, M19, G96/G97 and G53, which the standard's list does not place"],
)
