"""C51: the scripts never skip a line they cannot read: they fail, having output what comes before it."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, scripts
from .c42 import malformed, KINDS
from .c47 import tidy

TYPOS = [k for k in KINDS if k != 'percent']     # (begins a macro, in a line of a file)
NAMES = gens.ALL_EXTRAS + ['G43', 'G64']
OPTS = ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace', '--arc_linearize', '--canned_expand', '--rm_gcodes=M6,G4', '--rm_invalid_modal']
FINAL = ['--zero_xy', '--zero_z', '--spindle_off']
CONFLICTS = ['G0 G1 X1', 'G90 X1 G91', 'M3 M5', 'G17 G18', 'G1 X1 X2', 'F100 F200', 'G54 G55', 'M0 M30', 'G81 Z-1 R1 R2 X1', 'G20 G21', 'T1 T2', 'G7 G8',
             'G41 D1 D1', 'S1 G1 X1 S2', 'G0 G0', 'M6 M6', 'G4 P1 P1', 'M8 M9', 'G98 G99', 'G61 G64', 'G93 G94', 'G43 H1 G49', 'G96 S1 G97']
UNASSIGNED = ['H7', 'X1 H7', 'G12', 'M150', 'E5 F100', 'G90 H1', 'G13 X1', 'D1', 'M3 X1 H2', 'G1.5', 'M99', 'G4 X1 P1 H2']
WORDS = 'XYZFSRPGMNL'


def bad_line(c):
    """:return: (text, whether it is read when words that cannot be assigned are to be ignored)"""
    (kind, n, typo, a, b) = c
    if kind == 0:
        l = WORDS[n % len(WORDS)]
        lead = '' if l in 'GMN' else ['G1 ', 'X1 ', 'F100 '][n % 3] if l not in 'XF' else 'G1 Y2 '
        return (lead + l + malformed(typo, l, a, b), False)
    if kind == 1:
        return (CONFLICTS[n % len(CONFLICTS)], False)
    return (UNASSIGNED[n % len(UNASSIGNED)], True)


def run(c, ctx):
    (which, mask, final, rng, prog, where, bad, deco) = c
    texts = [tidy(x.text) for x in gens.build(prog, default=not which).lines]
    (text, ignorable) = bad_line(bad)
    text = ['%s', ' %s ', '%s (comment)', '(a) %s', '%s ; last'][deco % 5] % text
    k = where % (len(texts) + 1)    # (lines before it)
    whole = texts[:k] + [text] + texts[k:]
    if which:
        (first, last) = rng
        name = 'pygcode-crop'
        a = ['%s:%s' % ('' if first is None else first, '' if last is None else last)]
        stop = last if (last is not None and last >= (first or 1)) else None
        fails = stop is None or k + 1 <= stop
        (before, opts) = (a, a)
    else:
        name = 'pygcode-norm'
        before = [o for (i, o) in enumerate(OPTS) if mask & (1 << i)]
        if ignorable and '--rm_invalid_modal' in before:
            before.remove('--rm_invalid_modal')
        opts = before + [o for (i, o) in enumerate(FINAL) if final & (1 << i)]
        fails = True
    (rc0, want, err0) = scripts.attempt(name, ['@'] + before, ''.join(t + '\n' for t in texts[:k]))
    if rc0:
        ctx.trivial = True      # canned cycles that cannot be expanded
        ctx.label('refused before')
        return
    (rc, got, err) = scripts.attempt(name, ['@'] + opts, ''.join(t + '\n' for t in whole))
    what = "%s %s with line %d %r of %r" % (name, opts, k + 1, text, whole)
    ctx.label(name, ['malformed', 'conflict', 'unassigned'][bad[0]], 'fails' if fails else 'not reached')
    if fails:
        ctx.check(rc == 1, "%s exits with %r", what, rc)
        ctx.check(err.strip() != '', "%s says nothing", what)
        ctx.eq(got, want, "output of " + what)
    else:
        ctx.check(rc == 0, "%s exits with %r, although the line is after the range: %s", what, rc, err)
    ctx.trivial = k == 0


low = st.one_of(st.none(), st.integers(1, 6))
high = st.one_of(st.none(), st.integers(1, 5), st.integers(4, 12))
case = st.tuples(
    st.integers(0, 1), st.integers(0, 511), st.integers(0, 7), st.tuples(low, high).map(list), gens.program(NAMES, min_lines=3, max_lines=9), st.integers(1, 20),
    st.tuples(st.integers(0, 2), st.integers(0, 60), st.sampled_from(TYPOS), st.integers(1, 9999), st.integers(1, 9999)).map(list), st.integers(0, 4)).map(list)
PROPERTY = Property(
    'C51', "Random programs with one line that cannot be read (malformed number, conflicting codes, a parameter twice) or whose words cannot be assigned, at a "
    "random place, given to pygcode-norm (all sets of 9 options, with final actions) and pygcode-crop: exit code, message and output compared with those for the "
    "lines before it. Non-trivial: it is not the first line.",
    [Test('unreadable', case, run, quick=1600)],
)
