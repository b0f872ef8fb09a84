"""Arcs: generator (from small integers), and independent geometry to judge straight moves replacing an arc.
In-plane coordinates are (p, q) = the plane's axes in right-handed order, n = along the normal
(G17: X Y Z, G18: Z X Y, G19: Y Z X); counter-clockwise is p towards q, seen from the positive normal."""
import math
from hypothesis import strategies as st
from .ref import PLANES
from .sut import G, TR, Position
from pygcode.machine import UNIT_IMPERIAL, UNIT_METRIC
from . import gens

TWO_PI = 2 * math.pi
METHODS = {'i': TR.ArcLinearizeInside, 'o': TR.ArcLinearizeOutside, 'm': TR.ArcLinearizeMid, None: None}
PLANE_CLS = {'G17': G.GCodeSelectXYPlane, 'G18': G.GCodeSelectZXPlane, 'G19': G.GCodeSelectYZPlane}
DIST_CLS = {False: G.GCodeAbsoluteDistanceMode, True: G.GCodeIncrementalDistanceMode}
ARCDIST_CLS = {False: G.GCodeIncrementalArcDistanceMode, True: G.GCodeAbsoluteArcDistanceMode}
CENTRE = {'X': 'I', 'Y': 'J', 'Z': 'K'}

# kinds: 0 random angles, 1 full circle, 2 semicircle, 3 lattice (3-4-5)
arc_case = st.fixed_dictionaries({
    'plane': st.sampled_from(['G17', 'G17', 'G18', 'G19']),
    'ccw': st.booleans(),
    'inc': st.booleans(),
    'abscentre': st.booleans(),
    'form': st.sampled_from(['c', 'c', 'r']),
    'kind': st.sampled_from([0, 0, 0, 1, 2, 3]),
    'start': st.lists(gens.coord, min_size=3, max_size=3),
    'r': st.one_of(st.integers(1, 50).map(lambda n: n * 1000), st.integers(20, 100000), st.integers(100000, 3000000)),
    'a': st.one_of(st.integers(0, 23).map(lambda n: n * 15000), st.integers(0, 359999)),     # start angle, millidegrees
    'sweep': st.one_of(st.integers(1, 23).map(lambda n: n * 15000), st.integers(3000, 357000), st.integers(6, 3000), st.integers(6, 3000).map(lambda n: 360000 - n)),
    'helix': st.one_of(st.just(0), gens.small),
    'omit': st.integers(0, 7),      # bits: leave out words that need not be there
    'method': st.sampled_from(['i', 'o', 'm', 'm', None]),
    'err': st.one_of(st.sampled_from([10, 100, 5, 1, 500]), st.integers(1, 5000), st.integers(5000, 200000), st.sampled_from([0.1, 0.01])),   # 1e-3 units
    'places': st.sampled_from([3, 3, 4, 6, 2]),
    'at0': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]),    # absolute centre: bits, centre at 0
    'turns': st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3]),     # 0: not given
    'dflt': st.sampled_from([0, 0, 1, 2]),     # arguments that have their default value: given, None, left out
    'inch': st.sampled_from([0, 0, 0, 1]),  # the start position's unit
    'digits': st.sampled_from([None, None, 3, 4, 6]),   # decimal places the arc's words are rounded to
}).map(lambda c: c if c['err'] >= 1 else dict(c, err=max(c['err'], c['r'] / 1e6)))    # (bounds the number of segments)
LAT = gens.DIRS


class Arc(object):
    """A concrete arc: words, and its true geometry (as its words define it)"""

    def __init__(self, c):
        self.c = c
        (P, Q, N) = PLANES[c['plane']]
        self.axes = (P, Q, N)
        r = c['r'] / 1000.0
        self.start = dict((a, v / 1000.0) for (a, v) in zip('XYZ', c['start']))
        (sp, sq, sn) = (self.start[a] for a in self.axes)
        kind = c['kind']
        form = c['form']
        dirn = 1 if c['ccw'] else -1
        if kind == 1:
            form = 'c'
        if kind == 3:
            k = r / 5.0
            (i, j) = (c['a'] // 30000, c['sweep'] // 30000)
            j = (i + j) % 12
            if i == j:
                form = 'c'
            (u0, u1) = (LAT[i], LAT[j])
            cp, cq = sp - k * u0[0], sq - k * u0[1]
            ep, eq = cp + k * u1[0], cq + k * u1[1]
            sweep = ((math.atan2(u1[1], u1[0]) - math.atan2(u0[1], u0[0])) * dirn) % TWO_PI
        else:
            a0 = math.radians(c['a'] / 1000.0)
            sweep = {0: math.radians(c['sweep'] / 1000.0), 1: TWO_PI, 2: math.pi}[kind]
            at0 = c.get('at0', 0) if c['abscentre'] else 0    # a centre on an axis
            if at0 & 1:
                sp = self.start[P] = r * math.cos(a0)
            if at0 & 2:
                sq = self.start[Q] = r * math.sin(a0)
            cp, cq = 0.0 if at0 & 1 else sp - r * math.cos(a0), 0.0 if at0 & 2 else sq - r * math.sin(a0)
            a1 = a0 + dirn * sweep
            if kind == 1:
                ep, eq = sp, sq
            else:
                ep, eq = cp + r * math.cos(a1), cq + r * math.sin(a1)
        en = sn + c['helix'] / 1000.0

        def rnd(x):
            return x if c['digits'] is None else round(x, c['digits'])
        inc = c['inc']
        words = {}
        for (a, s, e) in ((P, sp, ep), (Q, sq, eq), (N, sn, en)):
            v = rnd(e - s if inc else e)
            bit = 1 << 'PQN'.index({P: 'P', Q: 'Q', N: 'N'}[a])
            moves = (v != 0) if inc else (v != s)
            if moves or not (c['omit'] & bit) or (a == P):
                words[a] = v
        rad = rnd(r) or r
        if form == 'r':
            words['R'] = -rad if (sweep > math.pi + 1e-9) else rad
        else:
            for (a, cc, s) in ((P, cp, sp), (Q, cq, sq)):
                v = rnd(cc if c['abscentre'] else cc - s)
                if v != 0 or (c['abscentre'] and not c.get('at0')) or not (c['omit'] & 4) or (a == Q and CENTRE[P] not in words):
                    words[CENTRE[a]] = v
        turns = c.get('turns', 0)
        if turns:
            words['P'] = turns
        self.words = words
        self.form = form
        self.inc = inc
        # --- truth, from the words
        end = {}
        for a in 'XYZ':
            if a in words:
                end[a] = self.start[a] + words[a] if inc else words[a]
            else:
                end[a] = self.start[a]
        self.end = end
        S = (sp, sq)
        E = (end[P], end[Q])
        (self.S, self.E, self.n0, self.n1) = (S, E, sn, end[N])
        self.chord = math.hypot(E[0] - S[0], E[1] - S[1])
        self.valid = True
        if form == 'r':
            rr = abs(words['R'])
            h2 = rr * rr - (self.chord / 2) ** 2
            self.r = rr
            if h2 < 0:
                self.valid = self.chord / 2 * (1 - 1e-9) <= rr
                h2 = 0
            d = math.sqrt(h2)
            if self.chord < 1e-9:
                self.valid = False
                return
            # unit normal to the left of the chord
            (lx, ly) = (-(E[1] - S[1]) / self.chord, (E[0] - S[0]) / self.chord)
            # minor arc ccw: centre on the left
            side = (1 if c['ccw'] else -1) * (1 if words['R'] > 0 else -1)
            C = ((S[0] + E[0]) / 2 + lx * d * side, (S[1] + E[1]) / 2 + ly * d * side)
            self.slack = 1e-6 * (1 + rr)
        else:
            ci = [words.get(CENTRE[a], None) for a in (P, Q)]
            if c['abscentre']:
                C = tuple(0.0 if v is None else v for v in ci)
            else:
                C = tuple(s + (v or 0.0) for (s, v) in zip(S, ci))
            r1 = math.hypot(S[0] - C[0], S[1] - C[1])
            r2 = math.hypot(E[0] - C[0], E[1] - C[1])
            self.r = (r1 + r2) / 2
            mism = abs(r1 - r2)
            far = self.chord if self.chord > 1e-6 else 2 * self.r
            self.slack = 4 * mism * max(1.0, self.r / far) + 1e-6 * (1 + self.r)
        self.C = C
        a0 = math.atan2(S[1] - C[1], S[0] - C[0])
        a1 = math.atan2(E[1] - C[1], E[0] - C[0])
        if form == 'c' and self.chord < 1e-6:
            self.sweep = TWO_PI
        else:
            self.sweep = ((a1 - a0) * dirn) % TWO_PI
        self.full = self.sweep == TWO_PI
        self.once = self.sweep
        self.sweep += TWO_PI * max(turns - 1, 0)
        self.a0 = a0
        self.dirn = dirn

    def well_conditioned(self):
        """far from the border between a full turn and none"""
        if not self.valid:
            return False
        if self.full:
            return True
        if self.c['digits'] is None:
            return self.chord > max(1e-5 * self.r, 1e-4)
        return self.chord > max(0.02 * self.r, 0.002) and 0.02 < self.once < TWO_PI - 0.02

    @property
    def name(self):
        return 'G3' if self.c['ccw'] else 'G2'

    def gcode(self):
        return (G.GCodeArcMoveCCW if self.c['ccw'] else G.GCodeArcMoveCW)(**self.words)

    def kwargs(self):
        c = self.c
        kw = dict(plane=PLANE_CLS[c['plane']](), dist_mode=DIST_CLS[c['inc']](), arc_dist_mode=ARCDIST_CLS[c['abscentre']](),
                  max_error=c['err'] / 1000.0, decimal_places=c['places'])
        if c['method']:
            kw['method_class'] = METHODS[c['method']]
        dflt = c.get('dflt', 0)
        for (k, is_default) in (('plane', c['plane'] == 'G17'), ('dist_mode', not c['inc']), ('arc_dist_mode', not c['abscentre'])):
            if dflt and is_default:
                kw[k] = None
                if dflt > 1:
                    del kw[k]
        if dflt > 1 and c['err'] == 10:
            del kw['max_error']
        if dflt > 1 and c['places'] == 3:
            del kw['decimal_places']
        return kw

    def position(self):
        return Position(axes='XYZ', unit=UNIT_IMPERIAL if self.c.get('inch') else UNIT_METRIC, **self.start)

    def linearize(self):
        """:return: list of codes"""
        return list(TR.linearize_arc(self.gcode(), self.position(), **self.kwargs()))

    def planar(self, pt):
        return (pt[self.axes[0]], pt[self.axes[1]], pt[self.axes[2]])


def execute(codes, start, inc):
    """vertices (dicts) visited by straight moves"""
    pts = [dict(start)]
    for g in codes:
        p = dict(pts[-1])
        for (l, w) in g.params.items():
            if l in p:
                p[l] = p[l] + w.value if inc else w.value
        pts.append(p)
    return pts


def seg_dist(c, a, b):
    """:return: (min, max) distance of the points of segment a-b from c"""
    (ax, ay) = (a[0] - c[0], a[1] - c[1])
    (bx, by) = (b[0] - c[0], b[1] - c[1])
    (dx, dy) = (bx - ax, by - ay)
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, -(ax * dx + ay * dy) / l2))
    return (math.hypot(ax + t * dx, ay + t * dy), max(math.hypot(ax, ay), math.hypot(bx, by)))


def turning(arc, pts):
    """angles turned (in the commanded direction) by each segment, each in [-pi/2.., ..)"""
    out = []
    prev = None
    for p in pts:
        ang = math.atan2(p[1] - arc.C[1], p[0] - arc.C[0])
        if prev is not None:
            d = ((ang - prev) * arc.dirn) % TWO_PI
            if d > TWO_PI - 0.7:
                d -= TWO_PI
            out.append(d)
        prev = ang
    return out


def check_follows(ctx, arc, verts, tol_in, tol_out, rounding, what):
    """the polyline follows the arc
    :param tol_in, tol_out: how far inside/outside of the arc it may be
    :param rounding: how far vertices may be from where they should be
    """
    pts = [arc.planar(v) for v in verts]
    slack = arc.slack + rounding * 1.5
    for (a, b) in zip(pts, pts[1:]):
        (lo, hi) = seg_dist(arc.C, a, b)
        ctx.check(lo >= arc.r - tol_in - slack, "%s: segment %r-%r is %.6f inside the arc (allowed %.6f)", what, a, b, arc.r - lo, tol_in)
        ctx.check(hi <= arc.r + tol_out + slack, "%s: segment %r-%r is %.6f outside the arc (allowed %.6f)", what, a, b, hi - arc.r, tol_out)
    floor = max(arc.r - tol_in, arc.r * 0.05)
    back = (slack + rounding) / floor
    if back < 0.3:
        turns = turning(arc, pts)
        for (t, b) in zip(turns, pts[1:]):
            ctx.check(t >= -back - 1e-7, "%s: turns backwards (%.6f rad) to %r", what, t, b)
            ctx.check(t <= math.pi + back + 1e-6, "%s: a single move turns %.6f rad, to %r", what, t, b)
        total = sum(turns)
        ctx.check(abs(total - arc.sweep) <= 2 * back + 1e-6, "%s: sweeps %.6f rad, expected %.6f", what, total, arc.sweep)


def check_helix(ctx, arc, verts, rounding, what):
    pts = [arc.planar(v) for v in verts]
    turns = turning(arc, pts)
    dn = arc.n1 - arc.n0
    floor = arc.r * 0.5
    ang_tol = (arc.slack + rounding * 2) / floor + 1e-7
    if ang_tol > 0.3:
        return
    done = 0.0
    for (t, p) in zip(turns, pts[1:]):
        done += t
        want = arc.n0 + dn * (done / arc.sweep)
        tol = abs(dn) * 2 * ang_tol / arc.sweep + rounding + 1e-6
        ctx.check(abs(p[2] - want) <= tol, "%s: at %.6f rad of %.6f the normal axis is at %.6f, expected %.6f", what, done, arc.sweep, p[2], want)


def max_wedge(method, r, err):
    """largest angle a segment may cover, from the geometry of each method"""
    e = min(err, r)
    if method == 'i':
        return 2 * math.acos((r - e) / r)
    if method == 'o':
        return 2 * math.acos(r / (r + e))
    return 2 * math.acos((r - e / 2) / (r + e / 2))


class EvArc(object):
    """true geometry of an arc event of the reference interpreter"""

    def __init__(self, ev):
        (_, name, params, start, end, state) = ev
        params = dict((k, float(v)) for (k, v) in params.items())
        (plane, _, arcabs, _) = state
        self.axes = PLANES[plane]
        (P, Q, N) = self.axes
        self.dirn = 1 if name == 'G3' else -1
        self.name = name
        s = dict((k, float(v)) for (k, v) in start.items())
        e = dict((k, float(v)) for (k, v) in end.items())
        S, E = (s[P], s[Q]), (e[P], e[Q])
        (self.n0, self.n1) = (s[N], e[N])
        self.chord = math.hypot(E[0] - S[0], E[1] - S[1])
        if 'R' in params:
            self.r = abs(params['R'])
            d = math.sqrt(max(0.0, self.r ** 2 - (self.chord / 2) ** 2))
            (lx, ly) = (-(E[1] - S[1]) / self.chord, (E[0] - S[0]) / self.chord)
            side = self.dirn * (1 if params['R'] > 0 else -1)
            self.C = ((S[0] + E[0]) / 2 + lx * d * side, (S[1] + E[1]) / 2 + ly * d * side)
        else:
            ci = [params.get(CENTRE[a]) for a in (P, Q)]
            if arcabs == 'G90.1':
                self.C = tuple(v or 0.0 for v in ci)
            else:
                self.C = tuple(a + (v or 0.0) for (a, v) in zip(S, ci))
            self.r = (math.hypot(S[0] - self.C[0], S[1] - self.C[1]) + math.hypot(E[0] - self.C[0], E[1] - self.C[1])) / 2
        self.slack = 1e-5 * (1 + self.r)
        a0 = math.atan2(S[1] - self.C[1], S[0] - self.C[0])
        a1 = math.atan2(E[1] - self.C[1], E[0] - self.C[0])
        self.sweep = TWO_PI if ('R' not in params and self.chord < 1e-6) else ((a1 - a0) * self.dirn) % TWO_PI
        self.sweep += TWO_PI * (max(int(params.get('P', 1)), 1) - 1)
        self.end = e

    def planar(self, pt):
        return tuple(float(pt[a]) for a in self.axes)
