"""C16: canned cycles leave the machine at the right return level and hole."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Machine, machine_class, check_pos, mode_sig, near, G
from vlib import gens, ref
from vlib.ref import milli, fmt

NAMES = ['G17', 'G18', 'G19', 'G90', 'G91', 'G91', 'G98', 'G99', 'G99', 'F', 'M3', 'G54', 'G4']
CLASSES = {True: Machine, False: machine_class('XYZ', 'G0 G90')}


def run_program(c, ctx):
    (plain, prog, offs) = c if len(c) == 3 else c + [None]
    b = gens.Builder(default=True if plain else 'G0 G90', offsets=gens.ref_offsets(offs))
    for spec in prog:
        b.add(spec)
    m = CLASSES[plain]()
    gens.set_offsets(m, offs)
    n = 0
    for (i, x) in enumerate(b.lines):
        m.process_block(Line(x.text).block)
        what = "after line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        for e in x.events:
            if e[0] == 'move' and e[1] in ref.CANNED:
                n += 1
                ctx.label(e[1], ' '.join((e[5][0], e[5][1], e[5][3])), 'modal' if x.modal else 'explicit')
                if 'L' in e[2]:
                    ctx.label('L')
        check_pos(ctx, m.pos, x.after.pos, what)
        cur = x.after.name('motion')
        got = mode_sig(m.mode, ['motion']).get('motion')
        if cur is None:
            ctx.eq(got, None, "motion mode " + what)
            continue
        ctx.eq(got[0] + fmt(gens.Decimal(str(got[1]))), cur, "motion mode " + what)
        want = sorted((l, float(v)) for (l, v) in x.after.sticky.items())
        ctx.eq([l for (l, _) in got[2]], [l for (l, _) in want], "retained words " + what)
        for ((l, v), (_, u)) in zip(got[2], want):
            ctx.check(near(v, u, 1e-9), "retained %s is %r, expected %r %s", l, v, u, what)
    ctx.trivial = not n


def run_single(c, ctx):
    """one cycle stated directly: the rule of the property, without an interpreter"""
    (ci, plane, inc, ret, start, p, q, r, depth, loops, given, again) = c[:12]
    few = c[12] if len(c) > 12 else 0
    name = gens.CANNED_CODES[ci]
    axes = ref.PLANES[plane]
    st_pos = dict(zip('XYZ', [milli(v) for v in start]))
    m = Machine()
    ctx.label(name, plane, 'G91' if inc else 'G90', ret)
    m.process_str('G0 ' + ' '.join(k + fmt(v) for (k, v) in st_pos.items()))
    m.process_str('%s %s %s' % (plane, 'G91' if inc else 'G90', ret))
    words = {'R': milli(r), axes[2]: milli(r) - milli(depth) if not inc else -milli(depth)}
    for (bit, a, v) in ((1, axes[0], p), (2, axes[1], q)):
        if given & bit:
            words[a] = milli(v)
    words['Q' if name in ('G83', 'G73') else 'P'] = milli(max(depth // 3, 1))
    if loops:
        words['L'] = gens.Decimal(loops)
    n = max(loops, 1)
    want = dict(st_pos)
    for _ in range(1 + again):
        for a in axes[:2]:
            if a in words:
                want[a] = want[a] + n * words[a] if inc else words[a]
        if ret == 'G99':
            want[axes[2]] = want[axes[2]] + words['R'] if inc else words['R']
    text = name + ' ' + ' '.join(k + fmt(v) for (k, v) in words.items())
    m.process_str(text)
    for _ in range(again):
        # again: the whole cycle, or some of its words in any order
        few = [] if not few else [k for (i, k) in enumerate(sorted(words)) if few & (1 << i) or k == 'L']      # (L is not retained)
        m.process_str(' '.join(k + fmt(words[k]) for k in few) or text)
        ctx.label('repeated by %d words' % len(few))
        few = 0
    check_pos(ctx, m.pos, want, "after %d x %r (repeated by its words %r) from %r, %s %s %s" % (1 + again, text, c[12:], st_pos, plane, 'G91' if inc else 'G90', ret))
    ctx.eq(m.mode.motion.word, name, "motion mode")
    m.process_str('G80')
    ctx.eq(m.mode.motion, None, "motion mode after G80")
    check_pos(ctx, m.pos, want, "after G80")
    # another motion ends it too
    m.process_str(text)
    before = dict(m.pos.values)
    m.process_str('G1 F100')
    ctx.eq(m.mode.motion.word, 'G1', "motion mode after G1")
    ctx.eq(sorted(m.mode.motion.params), [], "words retained after G1")
    check_pos(ctx, m.pos, before, "after G1 without axes")
    k = axes[0]
    m.process_str(k + '1')
    check_pos(ctx, m.pos, dict(before, **{k: before[k] + 1 if inc else 1}), "modal move after the cycle was ended by G1")


PROPERTY = Property(
    'C16', "Programs heavy in canned cycles (explicit, modal with some words omitted, L repeats, all planes, G90/G91, G98/G99), and single "
    "cycles judged by the rule of the property directly. Non-trivial: at least one cycle.",
    [Test('program', st.tuples(st.booleans(), gens.program(NAMES, [gens.linear(), gens.canned, gens.canned, gens.canned, gens.canned, gens.cancel, gens.arc], max_lines=12, with_comments=False), gens.work_offsets).map(list), run_program, quick=3500),
     Test('single', st.tuples(st.integers(0, 5), st.sampled_from(['G17', 'G18', 'G19']), st.booleans(), st.sampled_from(['G98', 'G99']), st.lists(gens.small, min_size=3, max_size=3),
                              gens.small, gens.small, gens.small, st.integers(1, 30000), st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(5, 400)), st.integers(0, 3), st.integers(0, 2), st.one_of(st.just(0), st.integers(1, 63))).map(list), run_single, quick=3000)],
    ["L is at least 1"],
)
