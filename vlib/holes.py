"""Canned cycles: generator, and a judge of the moves that replace one."""
from hypothesis import strategies as st
from .ref import milli, fmt, CANNED
from . import gens
from .sut import G, TR, Position
from pygcode.machine import UNIT_IMPERIAL, UNIT_METRIC

CODES = ['G81', 'G82', 'G83', 'G73', 'G85', 'G89']
PECK = ('G83', 'G73')
DWELL = ('G82', 'G89')
BORE = ('G85', 'G89')
CLS = {'G81': G.GCodeDrillingCycle, 'G82': G.GCodeDrillingCycleDwell, 'G83': G.GCodeDrillingCyclePeck,
       'G73': G.GCodeDrillingCycleChipBreaking, 'G85': G.GCodeBoringCycleFeedOut, 'G89': G.GCodeBoringCycleDwellFeedOut}
DIST = {False: G.GCodeAbsoluteDistanceMode, True: G.GCodeIncrementalDistanceMode}
RET = {'G98': G.GCodeCannedCycleReturnPrevLevel, 'G99': G.GCodeCannedCycleReturnToR, None: lambda: None}

case = st.fixed_dictionaries({
    'code': st.integers(0, 5),
    'start': st.lists(gens.small, min_size=3, max_size=3),
    'abc': st.lists(gens.small, min_size=3, max_size=3),
    'x': st.one_of(st.none(), gens.small, gens.small, gens.small),
    'y': st.one_of(st.none(), gens.small, gens.small, gens.small),
    'roff': st.one_of(st.integers(0, 12).map(lambda n: n * 1000 - 4000), st.integers(-30000, 30000)),
    'depth': st.one_of(st.integers(1, 20).map(lambda n: n * 1000), st.integers(1, 30000)),
    'q': st.one_of(*([st.integers(1, 60)] * 47 + [st.integers(-600, -41)])),     # 40ths of the depth; negative: that many pecks
    'p': st.one_of(st.none(), st.integers(0, 5000)),
    'l': st.one_of(*([st.integers(0, 4)] * 36 + [st.integers(5, 25)] * 11 + [st.integers(26, 110)])),
    'inc': st.booleans(),
    'ret': st.sampled_from(['G98', 'G99', 'G98', 'G99', None]),
    'axes': st.sampled_from(['XYZ', 'XYZ', 'XYZABC', 'XYZUVW', 'XYZABCUVW']),
    'uvw': st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 7), st.lists(gens.small, min_size=3, max_size=3)).map(list)),     # words of other axes
    'mask': st.integers(0, 3),
    'dflt': st.sampled_from([0, 0, 1, 2]),     # arguments that have their default value: given, None, left out
    'inch': st.sampled_from([0, 0, 0, 1]),  # the start position's unit
})


class Hole(object):
    """a canned cycle and the hole(s) it is to drill"""

    def __init__(self, c, inc=None):
        self.inc = c['inc'] if inc is None else inc
        self.inch = bool(c.get('inch'))
        self.name = CODES[c['code']]
        self.axes = c['axes']
        self.start = dict(zip(c['axes'], [milli(v) for v in c['start'] + c['abc'] * 2]))
        (sx, sy, sz) = (self.start[a] for a in 'XYZ')
        ret = c['ret'] or 'G98'
        self.ret = ret
        roff = c['roff']
        depth = c['depth']
        if ret == 'G98' and roff > 0:
            depth = max(depth, roff + 1 if depth else roff)    # starts at or above the bottom
        w = {}
        self.R = sz + milli(roff)
        self.Z = self.R - milli(depth)
        (w['R'], w['Z']) = (milli(roff), -milli(depth)) if self.inc else (self.R, self.Z)
        for (k, v) in (('X', c['x']), ('Y', c['y'])):
            if v is not None:
                w[k] = milli(v) - (self.start[k] if self.inc else 0)
        self.others = {}
        if c.get('uvw'):
            for (i, k) in enumerate('UVW'):
                if c['uvw'][0] & (1 << i):
                    w[k] = milli(c['uvw'][1][i]) - (self.start.get(k, 0) if self.inc else 0)
        self.Q = None
        self.P = None
        if self.name in PECK:
            if c['q'] < 0:
                w['Q'] = self.Q = milli(max(depth // (-c['q'] if c['l'] < 2 else 60 if c['l'] <= 25 else 4), 1))
            else:
                w['Q'] = self.Q = milli(max(depth * (c['q'] if c['l'] <= 25 else max(c['q'], 15)) // 40, depth // 40 + 1))
        elif c['p'] is not None and (self.name in DWELL or c['mask'] & 1):
            w['P'] = self.P = milli(c['p'])
        self.L = max(c['l'], 1)
        if c['l'] > 1 or (c['l'] == 1 and c['mask'] & 2):
            w['L'] = c['l']
        self.words = w
        self.places = []
        (x, y) = (sx, sy)
        for _ in range(self.L):
            if self.inc:
                (x, y) = (x + w.get('X', 0), y + w.get('Y', 0))
            else:
                (x, y) = (w.get('X', x), w.get('Y', y))
            self.places.append((x, y))
        for k in 'UVW':
            if k in w:
                # where it is at each repeat
                self.others[k] = [self.start.get(k, 0) + w[k] * (i + 1) if self.inc else w[k] for i in range(self.L)]
        self.final = self.R if ret == 'G99' else sz
        self.dflt = c.get('dflt', 0)

    def gcode(self):
        return CLS[self.name](**dict((k, int(v) if k == 'L' else float(v)) for (k, v) in self.words.items()))

    def position(self):
        return Position(axes=self.axes, unit=UNIT_IMPERIAL if self.inch else UNIT_METRIC, **dict((k, float(v)) for (k, v) in self.start.items()))

    def text(self):
        return self.name + ' ' + ' '.join(k + fmt(gens.Decimal(v)) for (k, v) in self.words.items())

    def kwargs(self):
        args = dict(dist_mode=DIST[self.inc](), retract_mode=RET[self.ret](), plane=G.GCodeSelectXYPlane(), axes=self.axes)
        for (k, is_default) in (('dist_mode', not self.inc), ('retract_mode', self.ret == 'G98'), ('plane', True)):
            if self.dflt and is_default:
                args[k] = None
                if self.dflt > 1:
                    del args[k]
        if self.dflt > 1:
            del args['axes']
        return args

    def expand(self, **kw):
        return list(TR.simplify_canned_cycle(self.gcode(), self.position(), **dict(self.kwargs(), **kw)))


def path(codes, start, inc, axes='XYZ'):
    """codes -> [(name, point)] with absolute points; dwells as ('G4', P)"""
    p = dict((k, float(v)) for (k, v) in start.items())
    out = []
    for g in codes:
        (name, params) = g if isinstance(g, tuple) else (g.word.letter + fmt(gens.Decimal(str(g.word.value))), dict((l, w.value) for (l, w) in g.params.items()))
        if name == 'G4':
            out.append(('G4', params.get('P')))
            continue
        p = dict(p)
        for (l, v) in params.items():
            v = float(v)
            p[l] = p.get(l, 0.0) + v if inc else v
        out.append((name, p))
    return out


class At(object):
    """where (put into words only when something is wrong)"""

    def __init__(self, *args):
        self.args = args

    def __str__(self):
        return "%s: repeat %d, step %d %r" % self.args


def consume(ctx, steps, hole, start, eps, what, dwell_default=True):
    """judge the moves at the beginning of steps as all repeats of the hole
    :param hole: has name, R, Z, Q, P, L, places, final
    :param start: position before
    :return: number of steps used
    """
    R, Z = float(hole.R), float(hole.Z)
    cur = dict(start)
    i = 0
    n = len(steps)
    level = float(hole.final)
    others = getattr(hole, 'others', {})

    for (k, (hx, hy)) in enumerate(hole.places):
        (hx, hy) = (float(hx), float(hy))
        drilled = R
        bottom = False
        dwelt = None
        done = False
        while not done:
            at = At(what, k + 1, i, steps[i] if i < n else 'missing')
            if i >= n:
                if bottom and abs(cur['Z'] - level) <= eps and dwelt is not False:
                    break
                ctx.fail("%s: the hole is not finished" % at)
            (name, p) = steps[i]
            i += 1
            if name == 'G4':
                ctx.check(bottom and abs(cur['Z'] - Z) <= eps, "%s: dwell not at the bottom", at)
                ctx.check(hole.name in DWELL, "%s: dwell in a cycle without", at)
                ctx.check(dwelt is None, "%s: second dwell", at)
                want = hole.P
                if want is not None:
                    ctx.check(p is not None and abs(float(p) - float(want)) <= eps, "%s: dwells for %r, not %r", at, p, want)
                else:
                    ctx.check(p is not None and float(p) >= 0, "%s: dwells for %r", at, p)
                dwelt = True
                continue
            ctx.check(name in ('G0', 'G1'), "%s: not a straight move", at)
            for a in p:
                if a not in 'XYZ' and a not in others:
                    ctx.check(abs(p[a] - cur[a]) <= eps, "%s: moves %s", at, a)
            across = any(abs(p[a] - cur.get(a, 0.0)) > eps for a in p if a != 'Z')
            low = min(p['Z'], cur['Z'])
            if across:
                ctx.check(low >= R - eps, "%s: moves across below the R level %s", at, R)
                ctx.check(not bottom, "%s: moves across before returning", at)
            if low < R - eps:
                ctx.check(abs(p['X'] - hx) <= eps and abs(p['Y'] - hy) <= eps or (p['Z'] > cur['Z'] and not bottom and drilled == R),
                          "%s: below the R level, not at the hole (%s, %s)", at, hx, hy)
            ctx.check(p['Z'] >= Z - eps or p['Z'] > cur['Z'], "%s: below the bottom %s", at, Z)
            if p['Z'] < cur['Z'] - eps:       # down
                if name == 'G1' and drilled == R:
                    ctx.check(cur['Z'] <= R + eps, "%s: feeds down from above the R level %s", at, R)
                if name == 'G0':
                    ctx.check(p['Z'] >= min(drilled, R) - eps, "%s: rapid below what is drilled (%s)", at, drilled)
                elif p['Z'] < drilled - eps:
                    ctx.check(not bottom, "%s: drills again", at)
                    if hole.Q is not None:
                        ctx.check(drilled - p['Z'] <= float(hole.Q) + eps, "%s: advances more than Q=%s from %s", at, hole.Q, drilled)
                    drilled = p['Z']
            elif bottom and p['Z'] > cur['Z'] + eps:   # out
                if hole.name in DWELL:
                    ctx.check(dwelt, "%s: no dwell before", at)
                if hole.name in BORE:
                    ctx.check(name == 'G1', "%s: does not retract at feed", at)
            cur = p
            if not bottom and abs(p['Z'] - Z) <= eps and drilled <= Z + eps:
                bottom = True
                ctx.check(abs(p['X'] - hx) <= eps and abs(p['Y'] - hy) <= eps, "%s: the bottom is not at (%s, %s)", at, hx, hy)
                for a in others:
                    ctx.check(abs(p.get(a, 0.0) - float(others[a][k])) <= eps, "%s: %s is not at %s at the bottom", at, a, others[a][k])
            if bottom and abs(p['Z'] - level) <= eps and not (hole.name in DWELL and not dwelt):
                # (what remains of a move shorter than eps belongs to the cycle too)
                done = not (abs(cur['Z'] - level) > 1e-6 and i < n and steps[i][0] in ('G0', 'G1') and
                            all(abs(steps[i][1].get(a, 0.0) - cur[a]) <= eps for a in cur) and abs(steps[i][1]['Z'] - level) < abs(cur['Z'] - level))
        ctx.check(abs(cur['X'] - hx) <= eps and abs(cur['Y'] - hy) <= eps, "%s: repeat %d ends at %r", what, k + 1, cur)
    return i
