"""C49: conversions of codes are repeatable and independent, and leave what they are given as it was."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, G, TR, U, Position, Machine, gsig, mode_sig
from vlib import arcs, holes, gens, fresh

KINDS = ['arc', 'hole', 'omit', 'split', 'arc omit', 'hole omit', 'modal']


def codes_of(soups):
    out = []
    for s in soups:
        out += Block(gens.join_words(gens.soup_valid(s, modal=False)), verify=False).gcodes
    # (codes that cannot be processed alone: canned cycles without R)
    return [g for g in out if not isinstance(g, G.GCodeCannedCycle)]


def psig(p):
    return (dict(p.values), p.unit, sorted(p.axes))


def plane_sig():
    return [(c.normal.xyz, c.normal_axis, sorted(c.plane_axes), (c.quat.w, c.quat.x, c.quat.y, c.quat.z))
            for c in (G.GCodeSelectXYPlane, G.GCodeSelectZXPlane, G.GCodeSelectYZPlane)]


class Job(object):
    """one conversion, which can be started any number of times with the same objects"""

    def __init__(self, kind, arc, hole, soups):
        self.kind = kind
        self.ok = True
        self.own = False        # what is yielded belongs to the caller
        if kind.startswith('arc'):
            a = arcs.Arc(arc)
            if not a.valid or not a.well_conditioned():
                self.ok = False
                return
            kw = a.kwargs()
            if kw.get('max_error', 0.01) < a.r / 2000:
                kw['max_error'] = a.r / 2000
            code, pos = a.gcode(), a.position()
            self.inputs = lambda: [gsig(code), psig(pos)] + [gsig(v) for v in kw.values() if isinstance(v, G.GCode)]
            fn = lambda: TR.linearize_arc(code, pos, **kw)
            self.own = True
        elif kind.startswith('hole'):
            h = holes.Hole(hole)
            kw = h.kwargs()
            code, pos = h.gcode(), h.position()
            self.inputs = lambda: [gsig(code), psig(pos)] + [gsig(v) for v in kw.values() if isinstance(v, G.GCode)]
            fn = lambda: TR.simplify_canned_cycle(code, pos, **kw)
            self.own = True
        else:
            codes = codes_of(soups)
            if not codes:
                self.ok = False
                return
            self.inputs = lambda: [(gsig(g), str(g)) for g in codes]
            if kind == 'omit':
                fn = lambda: U.omit_redundant_modes(iter(codes))
            elif kind == 'split':
                cls = type(codes[len(codes) // 2])
                fn = lambda: (g for part in G.split_gcodes(codes, cls) for g in part)
            else:
                m = Machine()
                self.inputs = lambda: [(gsig(g), str(g)) for g in codes] + [mode_sig(m.mode), psig(m.pos)]
                block = Block('')
                block.gcodes = codes
                fn = lambda: iter(m.block_modal_gcodes(block))
        self.fn = fn
        if kind.endswith(' omit'):
            self.fn = lambda: U.omit_redundant_modes(fn())
            self.own = False


def sig(g):
    return (type(g).__name__, gsig(g), str(g))


def run(c, ctx):
    (specs, sched, stop, spoil) = c
    jobs = [Job(KINDS[k], a, h, s) for (k, a, h, s) in specs]
    jobs = [j for j in jobs if j.ok]
    ctx.trivial = not jobs
    if not jobs:
        return
    ctx.label(*sorted(set(j.kind for j in jobs)))
    planes = plane_sig()
    before = [j.inputs() for j in jobs]
    alone = [[sig(g) for g in j.fn()] for j in jobs]
    what = "%r" % [j.kind for j in jobs]

    def unchanged(when):
        for (j, b) in zip(jobs, before):
            ctx.eq(j.inputs(), b, "what was given to '%s', %s: %s" % (j.kind, when, what))
        ctx.eq(plane_sig(), planes, "the planes, %s: %s" % (when, what))

    unchanged('after running it once')
    # several at a time, each possibly twice, in any order, some left unfinished
    gens_ = []
    for (i, j) in enumerate(jobs):
        for _ in range(2):
            gens_.append([i, iter(j.fn()), []])
    for s in sched:
        live = [g for g in gens_ if g[1] is not None]
        if not live:
            break
        g = live[s % len(live)]
        for _ in range(1 + s % 3):
            try:
                x = next(g[1])
            except StopIteration:
                g[1] = None
                break
            g[2].append(sig(x))
            if spoil and jobs[g[0]].own:
                # what was yielded is the caller's, to change
                for w in x.params.values():
                    w.value = s + 7
                if spoil > 1:
                    x.params.clear()
                if spoil > 2:
                    x.word.value = 80
    unchanged('half way')
    for (n, g) in enumerate(gens_):
        if g[1] is not None:
            if n % 2 == stop:
                if hasattr(g[1], 'close'):
                    g[1].close()
                ctx.eq(g[2], alone[g[0]][:len(g[2])], "the first codes of '%s', with others between: %s" % (jobs[g[0]].kind, what))
                continue
            g[2] += [sig(x) for x in g[1]]
        ctx.eq(g[2], alone[g[0]], "'%s', with others between, against alone: %s" % (jobs[g[0]].kind, what))
    unchanged('after running several together')
    for (j, a) in zip(jobs, alone):
        ctx.eq([sig(g) for g in j.fn()], a, "'%s', again: %s" % (j.kind, what))


# ------------------------------------------------------------------ against a process in which nothing else was converted
def cross(specs, twists):
    """make conversions that differ from another one in few things only"""
    specs = [list(s) for s in specs]
    for (i, (of, mask, d, slot)) in enumerate(twists[:len(specs)]):
        of = of % len(specs)
        if of == i or not mask:
            continue
        (me, base) = (specs[i], specs[of])
        me[0] = base[0] if mask & 1 else me[0]
        for n in (1, 2):
            keys = sorted(base[n])
            new = dict(base[n])
            k = keys[slot % len(keys)]
            if mask & 2:
                new[k] = me[n][k]
            if mask & 4 and n == 1:
                if slot % 2:
                    base[n]['r'] = new['r'] = 200 + new['r'] % 3000     # small: every change of the radius shows
                new['r'] = max(20, new['r'] + d)
            if mask & 8:
                new['start'] = [v + d for v in new['start']]
            me[n] = new
        if mask & 16:
            me[3] = base[3][:1] + me[3]
    return specs


def convert(specs):
    """:return: for each spec what it gives (run one after the other in this process)"""
    out = []
    for (k, a, h, s) in specs:
        j = Job(KINDS[k], a, h, s)
        out.append(None if not j.ok else [repr(sig(g)) for g in j.fn()])
    return out


def run_fresh(c, ctx):
    (specs, twists) = c
    specs = cross(specs, twists)
    together = fresh.call(__name__, 'convert', specs)
    n = 0
    for (spec, got) in zip(specs, together):
        if got is None:
            continue
        n += 1
        ctx.label(KINDS[spec[0]])
        ctx.eq(got, fresh.call(__name__, 'convert', [spec])[0], "'%s' as one of %r, against alone in a process of its own" % (KINDS[spec[0]], [KINDS[s[0]] for s in specs]))
    ctx.trivial = n < 2


job_spec = st.tuples(st.sampled_from([0, 0, 0] + list(range(len(KINDS)))), arcs.arc_case, holes.case, st.lists(gens.soup, min_size=1, max_size=3)).map(list)

PROPERTY = Property(
    'C49', "2-4 conversions (arc linearisation, canned cycle expansion, omission of redundant motion words, splitting, filling in the modal code, and omission "
    "applied to the first two), each run alone, then each twice with the same objects, all interleaved by a random schedule, changing "
    "the codes they yield and abandoning some, then once more; and 2-3 conversions, often differing in one thing only, done in one process, each against the same one alone in a process of "
    "its own. Non-trivial: at least one (two) could be run.",
    [Test('together', st.tuples(
        st.lists(st.tuples(st.integers(0, len(KINDS) - 1), arcs.arc_case, holes.case, st.lists(gens.soup, min_size=1, max_size=4)).map(list), min_size=2, max_size=4),
        st.lists(st.integers(0, 99), min_size=4, max_size=40), st.integers(0, 2), st.integers(0, 3)).map(list), run, quick=1500),
     Test('fresh', st.tuples(st.lists(job_spec, min_size=2, max_size=3), st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 1, 3, 3, 3, 5, 5, 5, 7, 9, 11, 13, 16, 17]), st.one_of(st.integers(-50, 50), st.integers(-1, 1), st.integers(-2000, 2000)), st.integers(0, 40)).map(list), min_size=3, max_size=3)).map(list),
          run_fresh, quick=1600, fresh=True)],
    ["canned cycles are not among the codes given to omission (they need R to be processed)", "at least 1/2000 of the radius as tolerance"],
)
