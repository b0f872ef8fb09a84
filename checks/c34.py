"""C34: removing codes or invalid words removes those and nothing else."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts, normal
from vlib.ref import RefMachine, Item
from .c30 import interpret, flat, machine_mode, options
from .c18 import spoil, bad
from .c32 import above

NAMES = gens.ALL_EXTRAS + gens.RARE_MODES + gens.ENDS
MOTION = ['G0', 'G1', 'G2', 'G3', 'G80'] + [n for (n, _) in gens.OTHER_MOTIONS] + gens.CANNED_CODES
OTHER = [n for n in NAMES if n not in 'FSTN']


def show(name, i, h):
    """the code's word, as it may be written in the list"""
    s = name
    if h % 3 == 1 and len(name) == 2 and name[0] in 'GM':
        s = name[0] + '0' + name[1]
    if h % 4 == 1:
        s = s.lower()
    return s


def run_codes(c, ctx):
    (mask, short, pick, motion, prog) = c
    (singles, full) = (bool(mask & 1), bool(mask & 2))
    (start, more) = machine_mode(mask >> 5)
    b = gens.Builder(default=start)
    for spec in normal.tagged(prog):
        if motion and not full and spec[0]:
            # modal parameters of a removed code would be left: only explicit ones
            spec = [list(spec[0])] + spec[1:]
            if spec[0][0] == 'l':
                spec[0][1] %= 2
            elif spec[0][0] == 's':
                spec[0][2] = 0
            else:
                spec[0] = None
        b.add(spec)
    # what is to be removed: codes of the program, and any
    present = sorted(set(it.letter + ref.fmt(it.value) if it.name in ref.ANY else it.name
                         for x in b.lines for it in x.items if it.letter != 'O'))
    if full or motion:
        present += sorted(set(e[1] for x in b.lines for e in x.events if e[0] == 'move') - set(present))
    if not motion:
        present = [n for n in present if n not in MOTION]
    pool = (MOTION if motion else []) + OTHER
    removed = []
    for (kind, i) in pick:
        names = present if (kind and present) else pool
        n = names[i % len(names)]
        if not motion and n in MOTION:
            continue
        if n not in removed:
            removed.append(n)
    if not removed:
        ctx.trivial = True
        return
    sep = [',', ', ', ' ,'][short % 3]
    opts = more + options(mask, short) + [['-rmg', '--rm_gcodes'][short & 1], sep.join(show(n, i, short + i) for (i, n) in enumerate(removed))]
    texts = [x.text for x in b.lines]
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)

    def gone(letter, value):
        return letter + ref.fmt(value) in removed if letter != 'O' else False

    # the program without them
    m = RefMachine(default=start)
    want = []
    n = 0
    for x in b.lines:
        if full:
            items = []
            for e in x.events:
                (letter, value) = (e[1][0], ref.Decimal(e[1][1:])) if e[1] not in ref.ANY else (e[1], e[2])
                it = Item(letter, value, ref.code_of(letter, value), len(items))
                it.params = sorted((e[2] if e[0] == 'move' else e[3]).items())
                items.append(it)
            modal = []
        else:
            (items, modal) = (x.items, x.modal)
        keep = [it for it in items if not gone(it.letter, it.value)]
        n += len(items) - len(keep)
        want += m.items(keep, modal)
    got = flat(interpret(out, start)[0])
    if got != want:
        for (g, w) in zip(got + [None] * len(want), want + [None] * len(got)):
            if g != w:
                ctx.fail("executes %r instead of %r: %s" % (g, w, what))
    for t in out:
        for it in ref.assign(ref.words(ref.strip_comments(t)[0]))[0]:
            ctx.check(not gone(it.letter, it.value), "%s is left in %r: %s", it.name, t, what)
    normal.check_comments(ctx, texts, out, bool(mask & 4), singles, what)
    if mask & 8:
        ctx.check(all(t.strip() for t in out), "blank line: %s", what)
    ctx.trivial = not n
    ctx.label('full' if full else 'not full', 'motion codes' if motion else 'other codes', '%d removed' % n if n < 3 else '3+ removed')


def run_invalid(c, ctx):
    (mask, short, prog, where) = c
    (start, more) = machine_mode(mask >> 5)
    b = gens.Builder(default=start)
    prog = normal.tagged(prog)
    texts = []
    n = 0
    for (i, spec) in enumerate(prog):
        x = b.add(spec)
        text = x.text
        for (k, extra) in where:
            if k % len(prog) == i:
                (words, added, wrong) = spoil(x, extra)
                words = [w for w in words if w not in added or w in wrong]
                if wrong:
                    n += 1
                    text = gens.decorate(words, spec[2], spec[3])[0]
                    ctx.label('in %s' % x.before.name('motion'), 'codes on the line' if x.items else 'modal line' if x.modal else 'no code')
                break
        texts.append(text)
    opts = more + options(mask, short) + [['-rmim', '--rm_invalid_modal'][short & 1]]
    out = scripts.norm('\n'.join(texts) + '\n', *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    want = flat([x.events for x in b.lines])
    got = flat(interpret(out, start)[0])
    if got != want:
        for (g, w) in zip(got + [None] * len(want), want + [None] * len(got)):
            if g != w:
                ctx.fail("executes %r instead of %r: %s" % (g, w, what))
    normal.check_comments(ctx, texts, out, bool(mask & 4), bool(mask & 1), what)
    ctx.trivial = not n


ARCS = ['G2', 'G3']


def run_converted(c, ctx):
    """codes put out for arcs and cycles can be removed too"""
    (mask, short, which, pick, prog) = c
    full = bool(mask & 2)
    start = ['G0 G17 G21 G90 G94 G98', 'G1 G17 G91 G99 F10', 'G0 G90'][(mask >> 5) % 3]
    b = gens.Builder(default=start)
    for spec in normal.tagged(prog):
        spec = above(spec)
        if spec[0] and spec[0][0] in 'ls':   # all motion is explicit, or converted
            m = list(spec[0])
            if m[0] == 'l':
                m[1] %= 2
            else:
                m[2] = 0
            spec = [m] + spec[1:]
        b.add(spec)
    texts = [x.text for x in b.lines]
    text = '\n'.join(texts) + '\n'
    opts = ['--machine_mode', start, '-al', '-alp', '1', '-ce']
    base = scripts.norm(text, *(opts + ['-f']))
    there = sorted(set(it.letter + ref.fmt(it.value) for t in base for it in ref.assign(ref.words(ref.strip_comments(t)[0]))[0] if it.letter not in 'ON'))
    if not there:
        ctx.trivial = True
        return
    removed = sorted(set(there[i % len(there)] for i in pick))
    opts += options(mask, short) + ['-rmg', ','.join(show(n, i, short + i) for (i, n) in enumerate(removed))]
    out = scripts.norm(text, *opts)
    what = "norm %s of %r gives %r" % (' '.join(opts), texts, out)
    gone = lambda it: it.letter + ref.fmt(it.value) in removed
    m = RefMachine(default=start)
    (want, n) = ([], 0)
    for t in base:
        (items, modal) = ref.assign(ref.words(ref.strip_comments(t)[0]))
        want += m.items([it for it in items if not gone(it)], modal)
        n += len([it for it in items if gone(it)])
    got = flat(interpret(out, start)[0])
    if got != want:
        for (g, w) in zip(got + [None] * len(want), want + [None] * len(got)):
            if g != w:
                ctx.fail("executes %r instead of %r: %s" % (g, w, what))
    used = any(e[0] == 'move' and (e[1] in ARCS or e[1] in ref.CANNED) for x in b.lines for e in x.events)
    ctx.trivial = not (n and used)
    ctx.label('full' if full else 'not full', *['converted, without ' + x for x in removed if x in ('G0', 'G1', 'G4')])


OPTS = [st.integers(0, 191), st.integers(0, 31)]
PROPERTY = Property(
    'C34', "Random programs x lists of codes to remove (from the program and any, in several spellings) x other options x starting modes; and programs with "
    "invalid words added to lines; and arcs and cycles that are converted, with codes removed from what comes of them; the output executed by the reference interpreter and compared with the execution of the program "
    "without the codes or words. Non-trivial: something is removed.",
    [Test('codes', st.tuples(*(OPTS + [st.lists(st.tuples(st.booleans(), st.integers(0, 200)).map(list), min_size=1, max_size=4), st.booleans(),
                             gens.program(NAMES, min_lines=2, max_lines=7)])).map(list), run_codes, quick=2500),
     Test('invalid', st.tuples(*(OPTS + [gens.program(NAMES + ['G4'] * (len(NAMES) // 3), min_lines=2, max_lines=7),
                               st.lists(st.tuples(st.integers(0, 20), bad).map(list), min_size=1, max_size=4)])).map(list), run_invalid, quick=2500),
     Test('converted', st.tuples(*(OPTS + [st.integers(0, 3), st.lists(st.integers(0, 60), min_size=1, max_size=3),
                                 gens.program([n for n in NAMES if n not in ('G18', 'G19')], [gens.linear(), gens.arc, gens.arc, gens.canned, gens.canned, gens.cancel], min_lines=2, max_lines=6)])).map(list),
          run_converted, quick=800)],
    ["motion codes are removed from lines with explicit motion only, unless --full",
     "a line with new motion has no invalid word that the motion mode in force would take"],
)
