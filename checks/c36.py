"""C36: a cropped program enters with the same state and does the same moves."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts
from vlib.ref import RefMachine, Decimal
from .c35 import AXES, check_entry, same_remarks

NAMES = gens.ALL_EXTRAS + gens.RARE_MODES + gens.ENDS + ['G18', 'G19', 'G91', 'G99']
MOTIONS = [gens.linear(AXES), gens.linear(), gens.linear(), gens.arc, gens.arc, gens.canned, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other]
EPS = Decimal('0.0005')


def modes(m):
    return dict((g, (v, m.extra.get(g, {}))) for (g, v) in m.mode.items() if g not in ('motion', 'stopping'))


def run(c, ctx):
    (k, to, start, prog) = c
    b = gens.Builder(default=False, axes=AXES)
    for spec in prog:
        b.add(spec)
    n = len(b.lines)
    k = k % n
    rng = '%d:' % (k + 1)
    last = n
    if to is not None:
        last = k + to % (n - k + 1)
        rng += str(last + 1)
    texts = [x.text for x in b.lines]
    out = scripts.crop('\n'.join(texts) + '\n', rng)
    what = "crop %r of %r gives %r" % (rng, texts, out)
    count = last - k
    ctx.check(len(out) >= count, "lines missing: %s", what)
    entry, body = out[:len(out) - count], out[len(out) - count:]
    check_entry(ctx, entry, what)
    before = b.lines[k].before

    # entry: from any place, up, over and down to where it was, and in the same mode
    m = RefMachine(default=False, axes=AXES)
    for (a, v) in zip('XYZ', start):
        m.pos[a] = ref.milli(v)
    for a in AXES[3:]:
        if before.lo[a] or before.hi[a]:
            m.pos[a] = ref.milli(start[0] + 777)
    evs = [e for t in entry for e in m.line(t)]
    (p, q, normal) = before.plane
    moves = [e for e in evs if e[0] == 'move']
    ctx.check(len(moves) == 3, "%d moves to enter: %s", len(moves), what)
    (up, over, down) = moves
    at = lambda e: e[4]
    rest = [a for a in AXES if a != normal]
    ctx.check(abs(at(up)[normal] - before.hi[normal]) <= EPS, "rises to %s, not %s: %s", at(up)[normal], before.hi[normal], what)
    ctx.check(all(at(up)[a] == up[3][a] for a in rest), "moves across while rising: %s", what)
    ctx.check(at(over)[normal] == at(up)[normal], "moves along %s while traversing: %s", normal, what)
    ctx.check(all(at(down)[a] == at(over)[a] for a in rest), "moves across while going down: %s", what)
    for a in AXES:
        ctx.check(abs(m.pos[a] - before.pos[a]) <= EPS, "%s is %s instead of %s when entering: %s", a, m.pos[a], before.pos[a], what)
    ctx.eq(modes(m), modes(before), "mode when entering: " + what)

    # the same moves
    full = dict(m.pos)
    for a in AXES:
        m.pos[a] = before.pos[a]
    for (x, t) in zip(b.lines[k:last], body):
        try:
            evs = m.line(t)
        except (ValueError, ref.RefError) as e:
            ctx.fail("%r for line %r: %s: %s" % (t, x.text, e, what))
        ctx.check(evs == x.events, "%r for line %r executes %r instead of %r: %s", t, x.text, evs, x.events, what)
        ctx.check(same_remarks(t, x), "comments or macro of %r come out as %r: %s", x.text, t, what)
    used = [x for x in b.lines[k:last] if x.events]
    ctx.label('in plane %s' % before.name('plane_selection'), 'in %s' % before.name('distance'), 'in %s' % before.name('motion'),
              'first move modal' if used and used[0].modal else 'first move explicit' if used and 'linear' in used[0].kinds | set() else 'other',
              '%d modes' % len(modes(before)))
    if before.extra and any(before.extra.values()):
        ctx.label('mode with parameters')
    if before.mode.get('stopping'):
        ctx.label('after a stop')
    ctx.trivial = k == 0


# motion, then lines without any (dwells, modes, nothing), then lines that may rely on the motion from before
def with_motion(motions):
    return st.tuples(st.one_of(*motions), st.lists(gens.extra(NAMES), max_size=1), st.just(0), st.just([])).map(list)


def modal(m):
    return m.map(lambda x: [x[0], 2] + x[2:])


DWELL = ['G4', [5, 5, 5, 5], 1]
idle = st.tuples(st.lists(with_motion([gens.linear().map(lambda x: [x[0], 1] + x[2:]), gens.arc, gens.canned]), min_size=1, max_size=3),
                 st.lists(st.tuples(st.none(), st.lists(gens.extra(['F', 'M3', 'M0', 'G54']), max_size=2).map(lambda e: [DWELL] + e), st.just(0), st.just([])).map(list), min_size=1, max_size=3),
                 st.lists(with_motion([modal(gens.linear()), modal(gens.linear()), gens.arc, gens.canned, gens.canned]), min_size=1, max_size=3))
PROPERTY = Property(
    'C36', "Random nine-axis programs cropped at every line; the entry section executed by the reference interpreter from a random place and "
    "compared with its state before that line (also within lines without motion), then the cropped lines' events with those in the full program. Non-trivial: something is cut.",
    [Test('dwell', st.tuples(st.integers(0, 20), st.none(), st.lists(gens.small, min_size=3, max_size=3), idle).map(
        lambda t: [len(t[3][0]) + t[0] % 3, None, t[2], t[3][0] + t[3][1] + t[3][2]]), run, quick=500),
     Test('enter', st.tuples(st.integers(0, 20), st.one_of(st.none(), st.integers(0, 20)), st.lists(gens.small, min_size=3, max_size=3),
                             gens.program(NAMES, MOTIONS, min_lines=3, max_lines=9)).map(list), run, quick=3000)],
    ["spindle speed mode G96, G20/G21 conversion and offsets (G92, G10, G28) are not simulated"],
)
