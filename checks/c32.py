"""C32: normalising with canned expansion preserves everything but the cycles."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts, normal
from .c30 import interpret, flat, DEFAULT

NAMES = ['G17', 'G90', 'G91', 'G98', 'G99', 'G98', 'G99'] + [n for n in gens.MODES if n not in ('G18', 'G19')] + gens.NONMODAL + gens.STOPS + gens.ENDS
OPTS = ['-s', '-f', '-rc', '-rb', '-rws', '-al']
MODES = [None, None, 'G1 G91 G17 G99 G55', 'G0 G90', 'G2 G17 G90 G98 F100', 'G81 G17 R20 Z-3 G90 G99', 'G0 G20 G91 G17 G98', 'G20 G17 G90 G99']
ALL = gens.CANNED_CODES


def above(spec):
    """start at or above the bottom"""
    if spec[0] and spec[0][0] == 'c':
        m = list(spec[0])
        if m[4] != gens.R_ZERO:
            m[5] = max(m[5], m[4] + 1)
        return [m] + spec[1:]
    return spec


def run(c, ctx):
    (mask, sel, prog) = c
    prog = [above(s) for s in normal.tagged(prog)]
    start = MODES[(mask >> 6) % len(MODES)]
    b = gens.Builder(default=start or DEFAULT)
    for spec in prog:
        b.add(spec)
    texts = [x.text for x in b.lines]
    opts = (['--machine_mode', start] if start else []) + ['-ce'] + [o for (i, o) in enumerate(OPTS) if mask & (1 << i)]
    (singles, full, rc, _, _, al) = [bool(mask & (1 << i)) for i in range(6)]
    if sel is None:
        codes = set(ALL)
    else:
        codes = set(n for (i, n) in enumerate(ALL) if sel[0] & (1 << i))
        opts += [['-cc', '--canned_codes'][sel[1] % 2], [', ', ',', ' ,'][sel[1] % 3].join((n.lower() if sel[1] & 4 else n) for n in sorted(codes))]
    want = flat([x.events for x in b.lines])
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    got = flat(interpret(out, start or DEFAULT)[0])
    ctx.check(not any(e[0] == 'move' and e[1] in codes for e in got), "cycle left: %s", what)
    used = normal.match(ctx, want, got, what, ce=codes, al=({'G2': 'm', 'G3': 'm'}, 0.005) if al else None)
    normal.check_comments(ctx, texts, out, rc, singles, what)
    if full or singles:
        for t in out:
            (items, modal) = ref.assign(ref.words(ref.strip_comments(t)[0]))
            ctx.check(not (full and modal), "%r relies on the modal motion: %s", t, what)
            ctx.check(not (singles and len(items) + bool(modal) > 1), "%r has several codes: %s", t, what)
    ctx.label('%d cycles' % used['holes'] if used['holes'] < 3 else '3+ cycles', 'all codes' if sel is None else 'selected codes')
    for x in b.lines:
        for e in x.events:
            if e[0] == 'move' and e[1] in ref.CANNED:
                ctx.label(e[1], ' '.join((e[5][1], e[5][3])), 'modal cycle' if x.modal else 'cycle', 'expanded' if e[1] in codes else 'kept',
                          'with codes' if len(x.items) > 1 else 'alone')
    ctx.label('starts in %s' % start)
    ctx.trivial = not used['holes']


PROPERTY = Property(
    'C32', "Random programs with canned cycles (explicit and modal, G90/G91, G98/G99, repeats, with other codes, comments and macros on the line) "
    "x selected codes x other options x starting modes; the output is executed by the reference interpreter and matched with the input's events, "
    "expansions against the rules of the hole. Non-trivial: a cycle is expanded.",
    [Test('program', st.tuples(st.integers(0, 511), st.one_of(st.none(), st.tuples(st.integers(1, 63), st.integers(0, 7)).map(list)),
                               gens.program(NAMES, [gens.linear(), gens.arc, gens.canned, gens.canned, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other], min_lines=3, max_lines=8)).map(list), run, quick=4500)],
    ["XY plane (others are refused)", "under G98 the start is not below the bottom of the hole"],
)
