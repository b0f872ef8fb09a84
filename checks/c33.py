"""C33: final actions leave the machine where they promise, safely."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts
from vlib.ref import milli, fmt, Decimal
from .c30 import interpret, DEFAULT

NAMES = [n for n in gens.ALL_EXTRAS if n not in gens.ENDS] + ['G90', 'G91', 'G18', 'G19', 'M3', 'M4', 'M5']
MODES = [None, None, 'G1 G91 G18 G99 M3', 'G0 G90 M4 S100', 'G3 G19 G90.1 G98 F100', 'G1', 'G91', 'G20 G91 G17 G0']
BASE = ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace', '-al', '-ce']
FINAL = [['--zero_xy', '--zero_z', '--spindle_off'], ['-zxy', '-zz', '-so']]


def run(c, ctx):
    (base, final, short, height, mode, prog) = c
    mm = MODES[mode]
    b = gens.Builder(default=mm or DEFAULT)
    # (expansion of canned cycles is refused outside of the XY plane)
    ce = bool(base & 64)
    for spec in prog:
        if ce and spec[0] and spec[0][0] == 'c':
            spec = [None] + spec[1:]
        if b.m.name('motion') in ref.CANNED and ce:
            spec = [['l', 0, 1, [0, 0, 0]]] + spec[1:]
        b.add(spec)
    texts = [x.text for x in b.lines]
    opts = [o for (i, o) in enumerate(BASE) if base & (1 << i)] + (['--machine_mode', mm] if mm else [])
    (zxy, zz, so) = [bool(final & (1 << i)) for i in range(3)]
    fopts = [FINAL[short & 1][i] for i in range(3) if final & (1 << i)]
    if height is not None:
        v = milli(height)
        name = ['--rapid_safety_height', '-rsh'][short >> 1 & 1]
        fopts += ['%s=%s' % (name, fmt(v))] if (short >> 1 & 1) == 0 else [name, fmt(v)]
    text = '\n'.join(texts) + '\n'
    plain = scripts.norm(text, *opts)
    out = scripts.norm(text, *(opts + fopts))
    what = "norm %s of %r gives %r" % (' '.join(opts + fopts), texts, out)
    ctx.check(out[:len(plain)] == plain, "the program itself comes out differently (without: %r): %s", plain, what)
    tail = out[len(plain):]
    if not final:
        ctx.check(not tail, "something appended: %s", what)
    (_, m) = interpret(plain, mm or DEFAULT)
    ended = (m.name('distance'), m.name('spindle'), dict(m.pos))
    top = b.m.hi['Z']
    evs = []
    for t in tail:
        for e in m.line(t):
            evs.append((e, m.incremental))
        if base & 4:
            ctx.check(not ref.strip_comments(t)[1], "comment %r: %s", t, what)
        if base & 8:
            ctx.check(t.strip(), "blank line: %s", what)
    moves = [e for (e, _) in evs if e[0] == 'move']
    others = [e[1] for (e, _) in evs if e[0] != 'move']
    for (e, inc) in evs:
        if e[0] == 'move':
            ctx.check(e[1] == 'G0' and not inc, "%r is not an absolute rapid: %s", e, what)
            ctx.check(not any(ev[1] == 'G91' for (ev, _) in evs if ev[0] == 'code'), "goes incremental: %s", what)
    for o in others:
        ctx.check(o in ('M5', 'G90'), "%s is executed: %s", o, what)
    ctx.check(('M5' in others) == so, "spindle stop: %s", what)
    if so:
        ctx.eq(m.name('spindle'), 'M5', "spindle after %s" % what)
    points = [dict((a, e[4][a]) for a in 'XYZ') for e in moves]
    want = []
    p = dict(ended[2])
    if zxy:
        p['Z'] = milli(height) if height is not None else top
        want.append(dict(p))
        p['X'] = p['Y'] = Decimal(0)
        want.append(dict(p))
    if zz:
        p['Z'] = Decimal(0)
        want.append(dict(p))
    ctx.check(same(points, want), "moves to %r instead of %r: %s", points, want, what)
    if zxy or zz:
        ctx.check(m.name('distance') == 'G90', "ends in %r: %s", m.name('distance'), what)
    if not (zxy or zz):
        ctx.eq((m.name('distance'), m.pos), (ended[0], ended[2]), "distance mode and position after %s" % what)
    ctx.trivial = not final
    ctx.label(' '.join(FINAL[1][i] for i in range(3) if final & (1 << i)) or 'none', 'height given' if height is not None else 'highest Z',
              'ended in %s' % ended[0], 'spindle %s' % ended[1], 'highest is %s' % ('the end' if top == ended[2]['Z'] else 'passed'))


def same(points, want):
    return len(points) == len(want) and all(abs(p[a] - w[a]) <= Decimal('0.0005') for (p, w) in zip(points, want) for a in w)


PROPERTY = Property(
    'C33', "Random programs (all motions, codes, comments; no program end) x options to be combined with x final actions x safety height given or "
    "not x starting modes; output compared with that of the same options without final actions, the rest executed by the reference interpreter. "
    "Non-trivial: a final action is asked for.",
    [Test('final', st.tuples(st.integers(0, 127), st.integers(0, 7), st.integers(0, 3), st.one_of(st.none(), st.none(), gens.small), st.integers(0, len(MODES) - 1),
                             gens.program(NAMES, [gens.linear()] + gens.MOTIONS, min_lines=2, max_lines=7)).map(list), run, quick=2000)],
    ["the highest Z is that at the end of any line", "programs have no M2 or M30"],
)
