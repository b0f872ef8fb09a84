"""C30: normalising without conversions never changes what the program does."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts
from vlib.ref import RefMachine

NAMES = gens.ALL_EXTRAS + gens.RARE_MODES + gens.ENDS
DEFAULT = 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0'
MODES = [None, None, None, 'G1 G91 G18 G99', 'G0 G90', 'G3 G19 G90.1 G98 F100', 'G20 G91 G17 G1 G94']
OPTS = ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace']
SHORT = ['-s', '-f', '-rc', '-rb', '-rws']


def nonblank(spec):
    return [spec[0], spec[1], spec[2], [[k, c if c.strip() else 'c' + c] for (k, c) in spec[3]]]


def machine_mode(k):
    """:return: (modes the machine starts in, options of the script)"""
    mm = MODES[k % len(MODES)]
    return (mm or DEFAULT, ['--machine_mode', mm] if mm else [])


def options(mask, short=0):
    return [(SHORT if short & (1 << i) else OPTS)[i] for i in range(5) if mask & (1 << i)]


def interpret(lines, default):
    m = RefMachine(default=default)
    evs = []
    for (i, t) in enumerate(lines):
        try:
            evs.append(m.line(t))
        except (ValueError, ref.RefError) as e:
            raise AssertionError("line %d %r of %r: %s" % (i + 1, t, lines, e))
    return (evs, m)


def flat(evs):
    return [e for line in evs for e in line]


def contains_in_order(text, parts):
    i = 0
    for p in parts:
        j = text.find(p, i)
        if j < 0:
            return False
        i = j + len(p)
    return True


def run(c, ctx):
    (mask, short, mode, prog) = c
    mm = MODES[mode]
    b = gens.Builder(default=mm or DEFAULT)
    for spec in prog:
        b.add(gens.odd(nonblank(spec)))
    opts = options(mask, short) + (['--machine_mode', mm] if mm else [])
    texts = [x.text for x in b.lines]
    (singles, full, rc, rb, rws) = [bool(mask & (1 << i)) for i in range(5)]
    for i in range(5):
        if mask & (1 << i):
            ctx.label(OPTS[i])
    ctx.trivial = not any(x.modal and x.items for x in b.lines) and not mask
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    want = flat([x.events for x in b.lines])
    got = flat(interpret(out, mm or DEFAULT)[0])
    if got != want:
        for (g, w) in zip(got + [None] * len(want), want + [None] * len(got)):
            if g != w:
                ctx.fail("executes %r instead of %r: %s" % (g, w, what))
    # line by line
    i = 0
    for x in b.lines:
        codes = len(x.items) + (1 if x.modal else 0)
        n = codes if (singles and codes > 1) else 1
        comments = [] if rc else x.comments
        if not codes and not comments and not x.macro:
            if rb:
                continue
            ctx.check(i < len(out) and out[i].strip() == '', "blank line %r is not kept: %s", x.text, what)
            i += 1
            continue
        group = out[i:i + n]
        i += n
        ctx.check(len(group) == n, "line %r is lost: %s", x.text, what)
        found = []
        macros = []
        for t in group:
            (code, cs, macro) = ref.strip_comments(t)
            found.append('\0'.join(cs))
            macros += [macro] if macro else []
            (items, modal) = ref.assign(ref.words(code))
            if singles:
                ctx.check(len(items) + bool(modal) <= 1, "%r has several codes: %s", t, what)
            if full:
                ctx.check(not modal, "%r relies on the modal motion: %s", t, what)
            if rws:
                ctx.check(not any(ch.isspace() for ch in code.strip()), "%r has white space: %s", t, what)
            if rc:
                ctx.check(not cs, "%r has a comment: %s", t, what)
        if comments:
            ctx.check(any(contains_in_order(f.replace('\0', ' '), [p.strip() for p in comments]) for f in found),
                      "comments %r of %r are lost: %s", comments, x.text, what)
        else:
            ctx.check(not any(found), "comment invented for %r: %s", x.text, what)
        ctx.check([m.strip() for m in macros] == ([x.macro.strip()] if x.macro else []), "macro %r of %r comes out as %r: %s", x.macro, x.text, macros, what)
    ctx.check(i == len(out), "additional lines %r: %s", out[i:], what)
    if rb:
        ctx.check(all(t.strip() for t in out), "blank line: %s", what)
    again = scripts.norm('\n'.join(out) + '\n', *opts)
    ctx.check(again == out, "normalised again: %r; %s", again, what)


PROPERTY = Property(
    'C30', "Random programs (all motions, codes, comments, macros, layouts) x the 32 combinations of options x starting modes; output executed by "
    "the reference interpreter and compared with the input's events, then checked line by line and normalised again. Non-trivial: some option "
    "is given, or a line has codes next to modal words.",
    [Test('program', st.tuples(st.integers(0, 31), st.integers(0, 31), st.integers(0, len(MODES) - 1), gens.program(NAMES, max_lines=8)).map(list), run, quick=2500)],
    ["under --singles a comment may come with each code of its line"],
)
