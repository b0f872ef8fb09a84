"""Judge of pygcode-norm's conversions: matches the events of a program with those of its converted output."""
import math
from . import arcs, holes, ref
from .ref import CANNED

ROUND = 0.0011


class EvHole(object):
    """the hole(s) of a canned cycle event"""

    def __init__(self, ev):
        (_, name, params, start, end, state) = ev
        (plane, dist, _, ret) = state
        inc = dist == 'G91'
        self.name = name
        sz = start['Z']
        self.R = sz + params['R'] if inc else params['R']
        self.Z = self.R + params['Z'] if inc else params['Z']
        self.Q = params.get('Q') if name in holes.PECK else None
        self.P = params.get('P')
        self.L = max(int(params.get('L', 1)), 1)
        self.places = []
        (x, y) = (start['X'], start['Y'])
        for _ in range(self.L):
            x = x + params.get('X', 0) if inc else params.get('X', x)
            y = y + params.get('Y', 0) if inc else params.get('Y', y)
            self.places.append((x, y))
        self.final = self.R if ret == 'G99' else sz


def near(a, b, eps=ROUND):
    return set(a) == set(b) and all(abs(float(a[k]) - float(b[k])) <= eps for k in a)


def same_event(g, w, moved):
    """:param moved: positions may be off by the rounding of conversions before"""
    if g == w:
        return True
    if g is None or w is None or g[0] != w[0]:
        return False
    if g[0] == 'code':
        return False
    return moved and g[1:3] == w[1:3] and near(g[3], w[3]) and near(g[4], w[4]) and g[5] == w[5]


def match(ctx, want, got, what, al=None, ce=None):
    """:param al: None, or ({'G2': method, 'G3': method}, precision)
    :param ce: None, or set of canned codes to be expanded
    """
    i = 0
    moved = False
    used = dict(arcs=0, holes=0)
    for w in want:
        g = got[i] if i < len(got) else None
        if al and w[0] == 'move' and w[1] in ('G2', 'G3'):
            moved = True
            used['arcs'] += 1
            i += take_arc(ctx, w, got[i:], al[0][w[1]], al[1], "arc %r of %s" % (w[:5], what))
        elif ce and w[0] == 'move' and w[1] in ce:
            used['holes'] += 1
            i += take_hole(ctx, w, got[i:], "cycle %r of %s" % (w[:5], what), moved)
            moved = True
        else:
            if not same_event(g, w, moved):
                ctx.fail("executes %r instead of %r: %s" % (g, w, what))
            i += 1
    ctx.check(i == len(got), "executes %r in addition: %s", got[i:i + 3], what)
    return used


def closer(g, v, end):
    """is g the small remainder of a replaced arc?"""
    if g[0] != 'move' or g[1] != 'G1' or v == end:
        return False
    d = lambda p: sum((float(p[k]) - end[k]) ** 2 for k in end)
    return near(g[4], v, 3 * ROUND) and d(g[4]) < d(v)


def take_arc(ctx, ev, got, method, err, what):
    a = arcs.EvArc(ev)
    start = dict((k, float(v)) for (k, v) in ev[3].items())
    end = dict((k, float(v)) for (k, v) in ev[4].items())
    verts = [start]
    turned = 0.0
    back = 3 * ROUND / a.r
    n = 0
    prev = None
    while True:
        if n >= len(got) or got[n][0] != 'move' or got[n][1] != 'G1':
            ctx.fail("the moves replacing it end at %r, after %.4f rad of %.4f, next is %r: %s" % (verts[-1], turned, a.sweep, got[n] if n < len(got) else None, what))
        g = got[n]
        n += 1
        ctx.check(set(g[2]) <= set('XYZ'), "%r has other words: %s", g, what)
        ctx.check(near(g[3], verts[-1]), "%r does not begin where the last ended (%r): %s", g, verts[-1], what)
        ctx.check(g[5] == ev[5], "%r is executed in another mode: %s", g, what)
        v = dict((k, float(x)) for (k, x) in g[4].items())
        turned += arcs.turning(a, [a.planar(verts[-1]), a.planar(v)])[0]
        verts.append(v)
        if turned >= a.sweep - back and near(v, end) and not (n < len(got) and closer(got[n], v, end)):
            break
        ctx.check(turned <= a.sweep + back, "turned %.4f rad, more than %.4f: %s", turned, a.sweep, what)
    e = min(err, a.r)
    (tin, tout) = {'i': (e, 0), 'o': (0, e), 'm': (e / 2, e / 2)}[method]
    arcs.check_follows(ctx, a, verts, tin, tout, ROUND, what)
    arcs.check_helix(ctx, a, verts, ROUND, what)
    need = a.sweep / arcs.max_wedge(method, a.r, err)
    ctx.check(n <= math.ceil(need + 1e-3) + 1, "%d moves, %d are enough: %s", n, math.ceil(need + 1e-3) + 1, what)
    ctx.check(n >= math.floor(a.sweep / math.pi) , "%d moves: %s", n, what)
    return n


def take_hole(ctx, ev, got, what, moved=False):
    h = EvHole(ev)
    start = dict((k, float(v)) for (k, v) in ev[3].items())
    steps = []
    for g in got:
        if g[0] == 'move' and g[1] in ('G0', 'G1'):
            steps.append((g[1], dict((k, float(v)) for (k, v) in g[4].items())))
            if g[5] != ev[5]:
                steps.pop()
                break
        elif g[0] == 'code' and g[1] == 'G4':
            steps.append(('G4', g[3].get('P')))
        else:
            break
    exact = bool(got) and got[0][0] == 'move' and got[0][3] == ev[3]
    if moved and not exact:
        ctx.label('inexact start')
    n = holes.consume(ctx, steps, h, start, 1e-6 if exact else ROUND, what)
    return n


def tagged(prog):
    """the program with every comment made unique, not blank"""
    (out, n) = ([], 0)
    for spec in prog:
        cs = []
        for (k, c) in spec[3]:
            if k != 4:
                c = 'w%d_%s' % (n, c)
                n += 1
            cs.append([k, c])
        out.append([spec[0], spec[1], spec[2], cs])
    return out


def tags(lines):
    """(tags of the comments in order, macros in order)"""
    import re
    (t, m) = ([], [])
    for line in lines:
        (_, cs, macro) = ref.strip_comments(line)
        for c in cs:
            t += re.findall(r'w\d+_', c)
        if macro:
            m.append(macro.strip())
    return (t, m)


def dedup(seq):
    """leave out repetitions of groups that a line's codes each carry"""
    out = []
    for x in seq:
        if x not in out:
            out.append(x)
    return out


def check_comments(ctx, texts, out, rm_comments, singles, what):
    (ti, mi) = tags(texts)
    (to, mo) = tags(out)
    if rm_comments:
        for line in out:
            ctx.check(not ref.strip_comments(line)[1], "comment in %r: %s", line, what)
    else:
        if singles:
            to = dedup(to)
        ctx.check(to == ti, "comments %r come out as %r: %s", ti, to, what)
    ctx.check(mo == mi, "macros %r come out as %r: %s", mi, mo, what)
