"""C39: any line of text given to a machine is processed, or refused with a documented error and no effect."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import (G, Line, Machine, NullMachine, machine_class, GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError,
                      MachineInvalidAxis, MachineInvalidState)
from vlib import gens
from .c06 import raw, CODEY, ANY
from .c15 import snap
from .c42 import malformed, KINDS as TYPOS

REFUSALS = (GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError, MachineInvalidAxis, MachineInvalidState)
MOTION = G.MODAL_GROUP_MAP['motion']
KINDS = ['XYZ', 'XYZ', 'XYZABC', 'XY', 'Z', 'XYZABCUVW', 'null', 'ignore']
CLASSES = {'null': NullMachine, 'ignore': machine_class('XYZ', ignore=True)}
NAMES = gens.MODES + gens.NONMODAL + gens.STOPS + gens.ENDS + gens.RARE_MODES + ['G43', 'G99', 'G99', 'G91', 'G80']
PLANES = ['G17.1', 'G18.1', 'G19.1', 'G17', 'G18', 'G19', 'G99', 'G98', 'G80', 'G91', 'G90']
CANNED = ['G81', 'G82', 'G83', 'G73', 'G85', 'G89']

# pieces of a history: program lines, any words, raw text, canned cycles with any of their words, planes
piece = st.one_of(
    st.tuples(st.just('soup'), gens.soup, gens.layout),
    st.tuples(st.just('valid'), gens.soup, gens.layout),
    st.tuples(st.just('raw'), raw, st.just(0)),
    # a line with a malformed number
    st.tuples(st.just('malformed'), gens.soup, st.tuples(st.integers(0, 20), st.sampled_from(TYPOS), st.integers(1, 9999), st.integers(1, 9999)).map(list)),
    # a line with characters inserted
    st.tuples(st.just('typo'), gens.soup, st.lists(st.tuples(st.integers(0, 200), st.sampled_from(' -.+,/*#[]=eEoxX09(%;:\t')).map(list), min_size=1, max_size=2)),
    st.tuples(st.just('code'), st.sampled_from(PLANES), st.just(0)),
    st.tuples(st.just('canned'), st.integers(0, 5), st.lists(st.tuples(st.sampled_from('XYZRPQLUVW'), st.integers(-20000, 20000)).map(list), max_size=5)),
    st.tuples(st.just('modal'), st.lists(st.tuples(st.sampled_from('XYZABCUVWRPQLIJKDHEF'), st.integers(-20000, 20000)).map(list), min_size=1, max_size=4), gens.layout),
    st.tuples(st.just('arc'), st.integers(2, 3), st.lists(st.tuples(st.sampled_from('XYZRIJKPAU'), st.integers(-20000, 20000)).map(list), max_size=5)),
).map(list)


def uniq(ws):
    out = []
    for (l, v) in ws:
        if l not in [x[0] for x in out]:
            out.append((l, v))
    return out


def text_of(p):
    (kind, a, b) = p
    if kind == 'soup':
        return gens.join_words(gens.soup_words(a), b)
    if kind == 'valid':
        return gens.join_words(gens.soup_valid(a), b)
    if kind == 'raw':
        return a[:256]
    if kind == 'malformed':
        words = gens.soup_valid(a) or [('G', gens.Decimal(1)), ('X', gens.Decimal(1))]
        parts = [gens.fmt_word(l, v) for (l, v) in words]
        i = b[0] % len(words)
        parts[i] = words[i][0] + malformed(b[1], words[i][0], b[2], b[3])
        return ' '.join(parts)
    if kind == 'typo':
        t = gens.join_words(gens.soup_valid(a))
        for (i, ch) in b:
            i %= len(t) + 1
            t = t[:i] + ch + t[i:]
        return t
    if kind == 'code':
        return a
    words = lambda ws: [(l, gens.soup_value(l, v)) for (l, v) in uniq(ws)]
    if kind == 'canned':
        return gens.join_words([('G', gens.Decimal(CANNED[a][1:]))] + words(b))
    if kind == 'modal':
        return gens.join_words(words(a), b)
    return gens.join_words([('G', gens.Decimal(a))] + words(b))


def refusal(text):
    """:return: (block, why it's refused when read) """
    try:
        return (Line(text).block, None)
    except REFUSALS as e:
        return (None, type(e).__name__)
    except AssertionError as e:
        if 'cannot be in the same block' not in str(e):
            raise
        return (None, 'verification')


def place(m):
    """where a machine is (not its mode)"""
    s = snap(m)
    return dict((k, s[k]) for k in ('abs', 'unit', 'min', 'max', 'systems', 'offset', 'axes'))


def run(c, ctx):
    (kind, prog, pieces, where) = c
    mk = CLASSES.get(kind) or machine_class(kind)
    lines = [x.text for x in gens.build(prog).lines] if kind in ('XYZ', 'XYZABC', 'ignore') else []
    for (i, p) in enumerate(pieces):
        lines.insert((where * 7 + i * 3) % (len(lines) + 1), text_of(p))
    (m, other, third) = (mk(), mk(), mk())
    done, refused = 0, 0
    for (i, text) in enumerate(lines):
        what = "line %r after %r on a machine of %s" % (text, lines[:i], kind)
        (block, why) = refusal(text)
        before = snap(m)
        if block is None:
            try:
                m.process_str(text)
            except REFUSALS + (AssertionError,):
                pass
            else:
                ctx.fail("%s is processed, but can't be read" % what)
            ctx.eq(snap(m), before, "machine refusing to read " + what)
            ctx.label('refused: ' + why)
            refused += 1
            continue
        if any(w.letter == 'L' and w.value > 5000 for w in block.words):
            ctx.label('skipped: too many repeats')
            continue
        # the machine
        b = place(m)
        try:
            m.process_block(block)
        except REFUSALS as e:
            refused += 1
            ctx.label('refused: ' + type(e).__name__)
            if not (block.modal_params and any(g.modal_group == MOTION for g in block.gcodes)):
                ctx.eq(place(m), b, "position of a machine refusing " + what)
            ctx.check(isinstance(e, (GCodeParameterError, MachineInvalidState)), "%s is refused with %r", what, e)
            if isinstance(e, GCodeParameterError):
                # a canned cycle without the R its mode needs: noticed while executing
                ctx.check('R' not in (m.mode.motion.params if m.mode.motion else {}) and str(m.mode.canned_cycles_return) == 'G99',
                          "%s is refused with %r", what, e)
                return
            ctx.eq(snap(m), before, "machine refusing " + what)
            try:
                third.process_str(text)
            except REFUSALS as f:
                ctx.eq((type(f), str(f)), (type(e), str(e)), "refusal of text and block, " + what)
            else:
                ctx.fail("%s is refused as a block, but not as text" % what)
            ctx.eq(snap(third), before, "machine refusing the text of " + what)
            continue
        done += 1
        other.process_str(text)
        third.process_str(text)
        after = snap(m)
        for (k, v) in list(after['pos'].items()) + list(after['abs'].items()):
            ctx.check(isinstance(v, float), "%s: %s is %r", what, k, v)
        ctx.eq(sorted(after['pos']), sorted(before['pos']), "axes after " + what)
    ctx.eq(snap(m), snap(other), "machine that got all of %r, against one that only got what was not refused" % lines)
    ctx.label('processed' if done else 'nothing processed')
    ctx.trivial = not (done and refused)


PROPERTY = Property(
    'C39', "Histories mixing program lines with random words, random text, planes with or without a normal axis of the machine, canned "
    "cycles and arcs with any subset of their words, on machines of several sets of axes: each line processed, or refused with a documented "
    "error and without effect; the history without the refused lines gives the same machine. Non-trivial: some line processed and some refused.",
    [Test('history', st.tuples(st.sampled_from(KINDS), gens.program(NAMES, max_lines=5, with_comments=False), st.lists(piece, min_size=1, max_size=6), st.integers(0, 9)).map(list), run, quick=6000)],
    ["a canned cycle that lacks R is refused when it comes to execute, after the line's other codes; no motion in that case, unless the line also repeats the previous motion by modal words",
     "lines with more than 5000 repeats (L) are left out"],
)
