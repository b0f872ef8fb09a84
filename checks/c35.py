"""C35: cropping selects exactly the lines the range says."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts
from vlib.ref import RefMachine, Decimal, fmt
from .c30 import contains_in_order

AXES = 'XYZABCUVW'
NAMES = [n for n in gens.ALL_EXTRAS + gens.RARE_MODES + gens.ENDS if n != 'N']
STEP = 125    # coordinates are multiples of 1/8, which floats hold exactly
MOTIONS = [gens.linear(AXES), gens.linear(AXES), gens.linear(), gens.arc, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other]
CMP = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
OPS = ['=', '==', '!=', '<', '<=', '>', '>=', '']


def grid(spec, step=STEP):
    """the line with its coordinates on a grid, small enough to meet again"""
    m = spec[0] and list(spec[0])
    if m:
        if m[0] == 'l':
            m[3] = [(v // 1000 % 17 - 8) * step for v in m[3]]
        elif m[0] == 'a':
            m[2] = (m[2] % 8 + 1) * step
            m[5] = (m[5] % 9 - 4) * step
        elif m[0] == 'c':
            (m[2], m[3], m[4], m[5]) = ((m[2] % 9 - 4) * step, (m[3] % 9 - 4) * step, (m[4] % 9 - 4) * step, (m[5] % 8 + 1) * step)
    return [m] + list(spec[1:])


def build(prog, tag, step=STEP):
    """every line is made recognisable by a line number or a comment"""
    b = gens.Builder(default=False, axes=AXES)
    for (i, spec) in enumerate(prog):
        (mot, extras, lay, comm) = gens.odd(grid(spec, step))
        if tag == 0:
            extras = [['N', [100 + i, 0, 0, 0], 0]] + extras[:2]
        else:
            comm = [[0, 'w%d_' % i]] + [[k, c] for (k, c) in comm][:2]
        b.add([mot, extras, lay, comm])
    return b


def condition(b, spec):
    """:return: (text, function of the line's index)"""
    (var, op, pick, off, h) = spec
    op = OPS[op]
    sp = lambda k: ['', '', ' '][gens._mix(h, k) % 3]
    if var == 0 or not op:
        v = Decimal(1 + pick % (len(b.lines) + 1) if off == 0 else off * 3)
        if off and not op:
            v = abs(v)
        text = ('' if h % 3 == 0 or not op else 'n' if h % 3 == 1 else 'N') + sp(1) + op + sp(2) + fmt(v) + ['', '', '.0'][gens._mix(h, 5) % 3]
        get = lambda i: Decimal(i + 1)
    else:
        axis = AXES[var - 1]
        v = b.lines[pick % len(b.lines)].after.pos[axis] + (ref.milli(off * STEP // 5 if h % 5 == 0 else off * STEP) if h % 5 != 1 else
                                                            off * Decimal(10) ** -(h // 5 % 8 + 1))   # (hardly another value)
        text = (axis if h % 2 else axis.lower()) + sp(1) + op + sp(2) + fmt(v)
        get = lambda i: b.lines[i].after.pos[axis]
    return (sp(3) + text + sp(4), lambda i: CMP[op or '='](get(i), v))


def conditions(b, specs, default):
    cs = [condition(b, s) for s in specs]
    if not cs:
        return ('', lambda i: default)
    return (','.join(t for (t, _) in cs), lambda i: all(f(i) for (_, f) in cs))


def check_entry(ctx, lines, what):
    """:return: events of the entry section"""
    m = RefMachine(default=False, axes=AXES)
    evs = [e for t in lines for e in m.line(t)]
    for e in evs:
        if e[0] == 'move':
            ctx.check(e[1] == 'G0', "%r in the entry section: %s", e, what)
        else:
            c = ref.code_of(e[1][0], Decimal(e[1][1:]) if len(e[1]) > 1 else Decimal(0))
            ctx.check(c and c.group not in (None, 'motion', 'stopping'), "%r in the entry section: %s", e, what)
    ctx.check(sum(e[0] == 'move' for e in evs) <= 3, "more than three moves in the entry section: %s", what)
    for t in lines:
        ctx.check(not any('w' in c for c in ref.strip_comments(t)[1] if c.startswith('w')), "%r in the entry section: %s", t, what)
    return evs


def same_remarks(t, x):
    (_, got, macro) = ref.strip_comments(t)
    want = [p.strip() for p in x.comments if p.strip()]
    return contains_in_order(' '.join(got), want) and (want or not any(ch.isalnum() for ch in ' '.join(got))) and (macro or '').strip() == (x.macro or '').strip()


def check_body(ctx, b, first, last, body, what):
    """the body executes what lines first..last-1 do, when no motion is in force before"""
    if not body:
        return
    m = b.lines[first].before.copy()
    m.mode['motion'] = ('G0', Decimal(0))
    m.sticky = {}
    for (x, t) in zip(b.lines[first:last], body):
        try:
            evs = m.line(t)
        except (ValueError, ref.RefError) as e:
            ctx.fail("%r for line %r: %s: %s" % (t, x.text, e, what))
        ctx.check(evs == x.events, "%r for line %r executes %r instead of %r: %s", t, x.text, evs, x.events, what)
        ctx.check(same_remarks(t, x), "comments or macro of %r come out as %r: %s", x.text, t, what)


def run(c, ctx):
    (tag, fs, ls, prog) = c
    b = build(prog, tag)
    (ft, first_is) = conditions(b, fs, True)
    (lt, last_is) = conditions(b, ls, False)
    n = len(b.lines)
    first = next((i for i in range(n) if first_is(i)), None)
    last = next((i for i in range(first, n) if last_is(i)), n) if first is not None else None
    rng = ft + ':' + lt
    if rng.startswith('-'):
        rng = ' ' + rng
    texts = [x.text for x in b.lines]
    out = scripts.crop('\n'.join(texts) + '\n', rng)
    what = "crop %r of %r gives %r" % (rng, texts, out)
    if first is None:
        ctx.check(not out, "no line is to be selected: %s", what)
        ctx.label('none')
        return
    k = last - first
    ctx.check(len(out) >= k, "lines missing: %s", what)
    check_entry(ctx, out[:len(out) - k], what)
    check_body(ctx, b, first, last, out[len(out) - k:], what)
    ctx.trivial = not fs and not ls
    ctx.label('all' if k == n else 'empty' if not k else 'to the end' if last == n else 'from the start' if not first else 'middle',
              'by position' if any(s[0] and OPS[s[1]] for s in fs + ls) else 'by number')
    for s in fs + ls:
        ctx.label((AXES[s[0] - 1] if s[0] and OPS[s[1]] else 'n') + ' ' + OPS[s[1]])


cond = st.tuples(st.integers(0, 6), st.integers(0, len(OPS) - 1), st.integers(0, 40), st.sampled_from([0, 0, 0, 1, -1]), st.integers(0, 1 << 20)).map(list)
PROPERTY = Property(
    'C35', "Random nine-axis programs x range expressions (up to 7 conditions each, on line number and reached coordinates, all operators and spellings); "
    "selection computed from the reference interpreter's positions. Non-trivial: there is a condition.",
    [Test('select', st.tuples(st.integers(0, 1), st.one_of(st.lists(cond, max_size=3), st.lists(cond, max_size=7)), st.one_of(st.lists(cond, max_size=2), st.lists(cond, max_size=6)),
                              gens.program(NAMES, MOTIONS, min_lines=3, max_lines=9)).map(list), run, quick=3000)],
    ["coordinates are multiples of 1/8 (exact in floating point), so that conditions on equality are unambiguous"],
)
