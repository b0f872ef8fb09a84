"""C31: normalising with arc linearisation preserves everything but the arcs."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts, normal
from .c30 import interpret, flat, machine_mode

NAMES = ['G17', 'G18', 'G19', 'G90', 'G91', 'G90.1', 'G91.1', 'G98', 'G99'] + gens.MODES + gens.NONMODAL + gens.STOPS + gens.ENDS
OPTS = ['-s', '-f', '-rc', '-rb', '-rws']
ALM = [None, 'i', 'o', 'm', 'i,o', 'o,i', 'm,i', 'I', 'O,M', 'o,m', 'i,i']
ALP = [None, None, 0.0002, 0.001, 0.01, 0.05, 0.1, 1, 20]
arc = st.tuples(gens.arc, st.integers(20, 4000)).map(lambda t: [t[0][0], t[0][1], max(t[0][2], t[1])] + t[0][3:])


def run(c, ctx):
    (mask, alm, alp, prog) = c
    prog = normal.tagged(prog)
    (start, more) = machine_mode(mask >> 5)
    b = gens.Builder(default=start)
    for spec in prog:
        b.add(spec)
    texts = [x.text for x in b.lines]
    opts = more + ['-al'] + [o for (i, o) in enumerate(OPTS) if mask & (1 << i)]
    (singles, full, rc) = [bool(mask & (1 << i)) for i in range(3)]
    alm = ALM[alm]
    alp = ALP[alp]
    if alm:
        opts += ['-alm', alm]
    if alp:
        opts += ['--arc_precision', str(alp)]
    want = flat([x.events for x in b.lines])
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    got = flat(interpret(out, start)[0])
    ctx.check(not any(e[0] == 'move' and e[1] in ('G2', 'G3') for e in got), "arc left: %s", what)
    m = (alm or 'm').lower().split(',')
    used = normal.match(ctx, want, got, what, al=({'G2': m[0], 'G3': m[-1]}, alp or 0.005))
    normal.check_comments(ctx, texts, out, rc, singles, what)
    if full or singles:
        for t in out:
            (items, modal) = ref.assign(ref.words(ref.strip_comments(t)[0]))
            ctx.check(not (full and modal), "%r relies on the modal motion: %s", t, what)
            ctx.check(not (singles and len(items) + bool(modal) > 1), "%r has several codes: %s", t, what)
    ctx.label('%d arcs' % used['arcs'] if used['arcs'] < 3 else '3+ arcs', alm or 'default method', str(alp))
    for x in b.lines:
        for e in x.events:
            if e[0] == 'move' and e[1] in ('G2', 'G3'):
                ctx.label(' '.join(e[5][:3]), 'modal arc' if x.modal else 'arc', 'with codes' if len(x.items) > 1 else 'alone')
    ctx.label('starts in ' + start)
    ctx.trivial = not used['arcs']


ALL_AXES = 'XYZABCUVW'


def run_others(c, ctx):
    """arcs that move other axes too: these end where they should, at every line, and move along with the arc"""
    (mask, others, prog) = c
    (start, more) = machine_mode(mask >> 5)
    b = gens.Builder(default=start, axes=ALL_AXES)
    for spec in prog:
        b.add(spec)
    opts = more + ['-al'] + [o for (i, o) in enumerate(OPTS) if mask & (1 << i)]
    m = ref.RefMachine(default=start, axes=ALL_AXES)
    (texts, used) = ([], 0)
    ends = []   # [position after the line, the other axis its arc moves]
    for (i, x) in enumerate(b.lines):
        t = x.code.strip()
        axis = None
        if any(e[0] == 'move' and e[1] in ('G2', 'G3') for e in x.events):
            (axis, v) = others[used % len(others)]
            if axis not in t:
                t += ' %s%s' % (axis, ref.fmt(ref.milli(v)))
            used += 1
        texts.append(t)
        m.line(t)
        ends.append((dict(m.pos), axis))
    ctx.trivial = not used
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    k = ref.RefMachine(default=start, axes=ALL_AXES)
    moves = [dict(k.pos)]
    for t in out:
        k.line(t)
        if k.pos != moves[-1]:
            moves.append(dict(k.pos))
    (j, last) = (0, moves[0])
    tol = ref.Decimal('0.002') * (used + 1)
    for (n, (end, axis)) in enumerate(ends):
        i = j
        while i < len(moves) and any(abs(moves[i][a] - end[a]) > tol for a in end):
            i += 1
        if i == len(moves):
            break
        if axis is not None:
            whole = abs(end[axis] - last[axis])
            if whole < ref.Decimal('0.1'):
                break       # can't be told where its moves end
            if i - j > 2:
                step = max(abs(moves[q + 1][axis] - moves[q][axis]) for q in range(j, i))
                ctx.label('along the arc')
                ctx.check(step <= whole * ref.Decimal('0.6') + tol, "%s: line %d moves %s by %s of %s at once, in %d moves", what, n + 1, axis, step, whole, i - j)
        (j, last) = (i, end)
    for a in ALL_AXES[3:]:
        ctx.check(abs(k.pos[a] - m.pos[a]) <= ref.Decimal('0.0006') * max(used, 1), "%s: %s ends at %s, expected %s", what, a, k.pos[a], m.pos[a])
    ctx.label('%d arcs' % min(used, 3), 'G91' if 'G91' in ' '.join(texts) or 'G91' in start else 'G90')


PROPERTY = Property(
    'C31', "Random programs with arcs (explicit and modal, all planes, G90/G91, both centre modes, R form, helical, with other codes, comments "
    "and macros on the line) x method x precision x other options x starting modes; the output is executed by the reference interpreter and matched with "
    "the input's events, arcs against independent geometry. Non-trivial: has an arc.",
    [Test('program', st.tuples(st.integers(0, 191), st.integers(0, len(ALM) - 1), st.integers(0, len(ALP) - 1),
                               gens.program(NAMES, [gens.linear(), arc, arc, arc, gens.canned, gens.bare, gens.other], min_lines=2, max_lines=7)).map(list), run, quick=4000),
     Test('others', st.tuples(st.integers(0, 191), st.lists(st.tuples(st.sampled_from('ABCUVW'), gens.small).map(list), min_size=1, max_size=3),
                              gens.program(['G17', 'G18', 'G90', 'G91', 'G90', 'G91', 'F', 'M3'], [gens.linear(ALL_AXES), arc, arc, arc, gens.bare], min_lines=2, max_lines=6)).map(list), run_others, quick=600)],
    ["radius 0.1 or more (below that the output's three decimals are coarse against the arc)", "arcs with R do not end where they start"],
)
