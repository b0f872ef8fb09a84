"""C18: lines that cannot be processed are refused; cleaning removes only those words."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Block, Machine, machine_class, gsig, wsig, MachineInvalidState, ref_gsig, ref_value
from vlib import gens, ref
from .c15 import snap
from .c17 import block_snap

NAMES = ['G4', 'G4', 'G28', 'G17', 'G18', 'G90', 'G91', 'G98', 'G99', 'F', 'S', 'M3', 'M5', 'M7', 'G54', 'G55', 'G64', 'G43', 'T', 'M6', 'M0']
CLASSES = {'ignore': machine_class('XYZ', ignore=True)}
WORDS = ['X', 'Y', 'Z', 'A', 'I', 'J', 'K', 'R', 'P', 'Q', 'L', 'D', 'H', 'E', 'B', 'C']
bad = st.lists(st.one_of(st.tuples(st.just('p'), st.integers(0, len(WORDS) - 1), gens.small),
                         st.tuples(st.just('u'), st.integers(0, len(gens.UNSUPPORTED) - 1), st.just(0))).map(list), min_size=1, max_size=4)


class Bare(object):
    """stands for a line without words"""
    (words, items, modal, text) = ([], [], [], '')

    def __init__(self, before):
        self.before = before


def spoil(x, extra):
    """:return: (words, invalid words) of the line with words added in front, or None if they wouldn't be modal parameters"""
    before = x.before
    # motion in force when the line's modal words are read
    cur = before.mode.get('motion')
    cur = ref.CODES[(cur[0][0], gens.Decimal(cur[0][1:]))] if cur else None
    new_motion = any(it.code.group == 'motion' for it in x.items)
    words = list(x.words)
    added = []
    for (kind, i, v) in extra:
        if kind == 'u':
            name = gens.UNSUPPORTED[i]
            w = (name[0], gens.Decimal(name[1:]))
        else:
            w = (WORDS[i], gens.soup_value(WORDS[i], v))
        if any(w[0] in it.code.params for it in x.items) or (w in added if kind == 'u' else any(w[0] == l for (l, _) in x.modal + added)):
            continue
        if cur is not None and w[0] in cur.params and (new_motion or not x.modal):
            continue  # would be valid
        added.append(w)
    bad = [w for w in added if cur is None or w[0] not in cur.params]
    return (added + words, added, bad)


def run(c, ctx):
    (prog, which, extra) = c[:3]
    b = gens.build(prog)
    which = which % len(b.lines)
    x = b.lines[which]
    if len(c) > 3 and c[3]:     # nothing else on the line
        x = Bare(x.before)
    (words, added, bad) = spoil(x, extra)
    if not bad:
        ctx.trivial = True
        return
    text = gens.join_words(words)
    (items, modal) = ref.assign(words)
    assert [ref_gsig(it) for it in items] == [ref_gsig(it) for it in x.items], (words, items)
    cur = x.before.name('motion')
    new_motion = any(it.code.group == 'motion' for it in items)
    ctx.label('in ' + str(cur), 'new motion' if new_motion else 'same motion', 'code word' if any(l in 'GM' for (l, _) in bad) else 'parameter')
    what = "line %r after %r" % (text, [y.text for y in b.lines[:which]])
    machines = {}
    for kind in ('plain', 'clean', 'gcodes', 'ignore', 'want'):
        m = CLASSES[kind]() if kind in CLASSES else Machine()
        for y in b.lines[:which]:
            m.process_block(Line(y.text).block)
        machines[kind] = m
    before = snap(machines['plain'])

    # what the line means without the words that can't be assigned
    keep = [w for w in words if w not in bad]
    machines['want'].process_block(Line(gens.join_words(keep)).block)
    want = snap(machines['want'])

    # refused, and nothing changed
    m = machines['plain']
    for how in range(4):
        block = Line(text).block
        sb = block_snap(block)
        try:
            if how == 0:
                m.process_block(block)
            elif how == 1:
                m.process_str(text)
            elif how == 2:
                m.block_modal_gcodes(block)
            else:
                m.process_gcodes(*block.gcodes, modal_params=block.modal_params)
        except MachineInvalidState:
            pass
        else:
            ctx.fail("%s is not refused" % what)
        ctx.eq(snap(m), before, "machine refusing " + what)
        ctx.eq(block_snap(block), sb, "block refused: " + what)

    # cleaned
    m = machines['clean']
    block = Line(text).block
    m.clean_block(block)
    ctx.eq(snap(m), before, "machine cleaning " + what)
    ctx.eq([gsig(g) for g in block.gcodes], [ref_gsig(it) for it in items], "codes of cleaned " + what)
    left = [] if new_motion else [(l, ref_value(l, v)) for (l, v) in modal if (l, v) not in bad]
    ctx.eq([wsig(w) for w in block.modal_params], left, "modal parameters of cleaned " + what)
    m.process_block(block)
    ctx.eq(snap(m), want, "machine after cleaned " + what)

    # ignored
    m = machines['ignore']
    m.process_block(Line(text).block)
    ctx.eq(snap(m), want, "machine ignoring invalid words: " + what)

    # cleaning a valid line changes nothing
    if x.words:
        y = x
        block = Line(y.text).block
        sb = block_snap(block)
        k = Machine()
        for z in b.lines[:which]:
            k.process_block(Line(z.text).block)
        k.clean_block(block)
        ctx.eq(block_snap(block), sb, "valid line %r cleaned" % y.text)


PROPERTY = Property(
    'C18', "A program, one line of which gets one or more words that are no parameters in the motion mode in force (none, rapid, linear, "
    "arc, canned), or unsupported codes (or has nothing else): refused in four ways, cleaned, and ignored. Non-trivial: a word was added.",
    [Test('invalid', st.tuples(gens.program(NAMES, [gens.linear(), gens.linear(), gens.arc, gens.canned, gens.canned, gens.cancel, gens.cancel, gens.bare, gens.other], max_lines=8, with_comments=False),
                               st.integers(0, 20), bad, st.sampled_from([False] * 4 + [True])).map(list), run, quick=4000)],
    ["a line with new motion has no word the motion mode in force would take"],
)
