"""C55: conversions that cannot be made are refused, before anything is put out in their place."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import G, M, TR, Word, Block, Machine, Position, U, GCodeParameterError
from vlib import holes, gens, ref, scripts
from vlib.ref import fmt, milli

WAYS = ['no R', 'no Z', 'no R or Z', 'no Q', 'zero Q', 'plane', 'upward', 'threading']
PLANES = [G.GCodeSelectZXPlane, G.GCodeSelectYZPlane, G.GCodeSelectUVPlane, G.GCodeSelectWUPlane, G.GCodeSelectVWPlane]


def spoil(h, way, k):
    """:return: (way, words, plane class, refusals)"""
    w = dict(h.words)
    if way in ('no Q', 'zero Q') and h.name not in holes.PECK:
        way = 'no R'
    plane = G.GCodeSelectXYPlane
    why = GCodeParameterError
    if way == 'no R':
        del w['R']
    elif way == 'no Z':
        del w['Z']
    elif way == 'no R or Z':
        del w['R']
        del w['Z']
    elif way == 'no Q':
        del w['Q']
    elif way == 'zero Q':
        w['Q'] = [0, 0.0, -0.0][k % 3]
    else:
        why = NotImplementedError
        if way == 'plane':
            plane = PLANES[k % 7 % 5]
        elif way == 'upward':
            d = milli(k % 10000 + 1)
            w['Z'] = d if h.inc else h.R + d
            if w.get('L') == 0:
                w['L'] = 1
    return (way, w, plane, why)


def refuse(ctx, call, why, what):
    out = []
    try:
        for g in call():
            out.append(g)
    except why:
        ctx.check(not out, "%s is refused after %s", what, out)
        return
    except Exception as e:
        ctx.fail("%s is refused with %s: %s" % (what, type(e).__name__, e))
    ctx.fail("%s is not refused, but replaced by %s" % (what, out))


def run_cycle(c, ctx):
    (hc, way, k, tw) = c
    h = holes.Hole(hc)
    (way, w, plane, why) = spoil(h, WAYS[way], k)
    cls = holes.CLS[h.name]
    w = dict((l, int(v) if l == 'L' else float(v)) for (l, v) in w.items())
    if way == 'threading':
        cls = G.GCodeThreadingCycle
        w = dict(zip('PZIJRKQHLEXY', [t / 10.0 for t in tw]))
        w = dict((l, v) for (i, (l, v)) in enumerate(sorted(w.items())) if k & (1 << i))
        if 'L' in w:
            w['L'] = int(abs(w['L']))
    g = cls(**w)
    pos = h.position()
    before = (str(g), str(pos))
    what = "%s of %s (%s) from %s, %s, %s" % (way, before[0], h.ret, before[1], 'G91' if h.inc else 'G90', plane.__name__)
    ctx.label(way, h.name if way != 'threading' else 'G76', 'G91' if h.inc else 'G90', h.ret)
    kw = dict(plane=plane(), dist_mode=holes.DIST[h.inc](), retract_mode=holes.RET[h.ret](), axes=h.axes)
    if k & 1 and not h.inc:
        del kw['dist_mode']      # (the default)
    if way != 'plane' and k & 2:
        del kw['plane']
    refuse(ctx, lambda: TR.simplify_canned_cycle(g, pos, **kw), why, what)
    ctx.eq((str(g), str(pos)), before, "cycle and position after: %s" % what)
    # as it was before it was spoiled, it's expanded
    codes = h.expand()
    ctx.check(codes and any(type(x) is G.GCodeLinearMove for x in codes), "%s from %r expands to %s", h.text(), h.start, codes)


# things of another kind than a conversion takes
CODES = [lambda: G.GCodeLinearMove(X=1), lambda: G.GCodeRapidMove(), lambda: G.GCodeDwell(P=1), lambda: Word('G2'), lambda: 'G2 X1 R1', lambda: Block('G2 X1 R1'),
         lambda: G.GCodeCublcSpline(I=1, J=1), lambda: G.GCodeArcMoveCW(X=3, R=1), lambda: G.GCodeDrillingCycle(R=1, Z=0), lambda: None]
PLACES = [lambda: None, lambda: {'X': 1}, lambda: U.Vector3(1, 2, 3), lambda: (1, 2, 3), lambda: M.CoordinateSystem('XYZ'), lambda: Machine(), lambda: 'X1']
SELECTS = [lambda: G.GCodeSelectXYPlane, lambda: G.GCodeAbsoluteDistanceMode(), lambda: 'G17', lambda: Word('G17'), lambda: G.GCodeRapidMove(), lambda: U.Vector3(0, 0, 1),
           lambda: G.GCodeAbsoluteArcDistanceMode(), lambda: G.GCodeCannedCycleReturnToR(), lambda: G.GCodeLatheDiameterMode(), lambda: G.GCodeExactPathMode(), lambda: G.GCodeSelectZXPlane()]
FITS = {'plane': G.GCodePlaneSelect, 'dist_mode': (G.GCodeAbsoluteDistanceMode, G.GCodeIncrementalDistanceMode), 'retract_mode': G.GCodeCannedReturnMode,
        'arc_dist_mode': (G.GCodeAbsoluteArcDistanceMode, G.GCodeIncrementalArcDistanceMode), 'start_pos': Position}
METHODS = [object, G.GCodeArcMoveCW, M.Machine, int]
TOL = [0, 0.0, -0.0, -1, -0.001]


def run_types(c, ctx):
    (arc, which, k, ret) = c
    kw = dict(arc_gcode=G.GCodeArcMoveCW(X=2, R=1)) if arc else dict(canned_gcode=G.GCodeDrillingCycle(X=1, R=1, Z=-1))
    code = list(kw)[0]
    kw['start_pos'] = Position('XYZ', X=1, Z=2)
    if arc:
        names = [code, 'start_pos', 'plane', 'dist_mode', 'arc_dist_mode', 'method_class', 'max_error']
    else:
        names = [code, 'start_pos', 'plane', 'dist_mode', 'retract_mode']
    name = names[which % len(names)]
    if name == code:
        v = CODES[k % len(CODES)]()
        bad = not isinstance(v, G.GCodeArcMove if arc else G.GCodeCannedCycle)
    elif name == 'method_class':
        (v, bad) = (METHODS[k % len(METHODS)], True)
    elif name == 'max_error':
        (v, bad) = (TOL[k % len(TOL)], True)
    else:
        v = (PLACES if name == 'start_pos' else SELECTS)[k % len(PLACES if name == 'start_pos' else SELECTS)]()
        bad = not isinstance(v, FITS[name])
    kw[name] = v
    fn = TR.linearize_arc if arc else TR.simplify_canned_cycle
    what = "%s with %s %r" % (fn.__name__, name, v)
    ctx.label(name, 'refused' if bad else 'fits')
    if bad:
        refuse(ctx, lambda: fn(**kw), AssertionError, what)
    elif not (name == 'plane' and v.word.value != 17):
        ctx.check(list(fn(**kw)), "%s gives nothing", what)
    ctx.trivial = not bad


NAMES = gens.MODES + gens.NONMODAL
BEFORE = ['', 'F100 ', 'M3 ', 'N10 ', 'G54 ']


def bad_line(c, k, arcs):
    """:return: (lines making it impossible, the line, code, text of the code, line made good)"""
    if arcs:
        (name, x) = (['G2', 'G3'][k % 2], fmt(milli(c['depth'])))
        kind = (k // 2) % 4
        body = [' X%s Y0' % x, ' I%s' % x, ' X%s R0' % x, ' X%s I1 R5' % x][kind]
        return (['G90 G17', 'G0 X0 Y0 Z0'], name + body, name, 'arc %d' % kind)
    h = holes.Hole(dict(c, inc=bool(k & 1), start=[0, 0, 0]))
    (way, w, plane, _) = spoil(h, WAYS[(k // 2) % len(WAYS)], k)
    pre = ['G80 %s' % h.ret, 'G90 G0 X0 Y0 Z0', 'G91' if h.inc else 'G90', 'G17']
    name = h.name
    if way == 'plane':
        pre[3] = str(plane())
    if way == 'threading':
        (name, w) = ('G76', dict(w, P=1, I=1, J=1, K=1))
        if 'Q' not in w:
            w['Q'] = 1
    return (pre, name + ''.join(' %s%s' % (l, fmt(gens.Decimal(v))) for (l, v) in w.items()), name, way)


def run_script(c, ctx):
    (hc, k, arcs, lead, tail, mask, prog) = c
    b = gens.Builder()
    for spec in prog:
        b.add(spec)
    (pre, bad, code, way) = bad_line(hc, k, arcs)
    prefix = [x.text for x in b.lines] + pre
    line = BEFORE[lead] + bad + ['', ' (comment)', ' ; comment'][tail]
    after = ['G80', 'G0 X7', 'M2']
    opts = [o for (i, o) in enumerate(['-s', '-f', '-rc', '-rb', '-rws']) if mask & (1 << i)]
    conv = ['-al'] if arcs else ['-ce']
    ctx.label(way, code, 'with %s' % BEFORE[lead].strip() if lead else 'alone')
    text = '\n'.join(prefix + [line] + after) + '\n'
    (rc, out, err) = scripts.attempt('pygcode-norm', ['@'] + conv + opts, text)
    what = "%s norm %s of %r gives %r (%s)" % (way, ' '.join(conv + opts), prefix + [line] + after, out, err[-200:])
    ctx.check(rc != 0, "not refused: %s", what)
    ctx.check(err, "no error message: %s", what)
    start = scripts.norm('\n'.join(prefix) + '\n', *(conv + opts))
    got = out.split('\n')
    if got and got[-1] == '':
        got.pop()
    ctx.eq(got[:len(start)], start, "lines before the one refused: %s" % what)
    words = [w for t in got[len(start):] for w in ref.words(ref.strip_comments(t)[0])]
    lead_words = ref.words(BEFORE[lead])
    ctx.check(all(w in lead_words for w in words), "the line refused is put out in part, as %r: %s", got[len(start):], what)
    # not asked for, it's left alone
    if way in ('no R', 'no R or Z') and 'G99' in pre[0]:
        return      # (a machine can't follow it)
    others = [o for o in (['-al'] if not arcs else ['-ce']) if mask & 32]
    if not arcs and mask & 64:
        others = others + ['-ce', '-cc', 'G82' if code != 'G82' else 'G85']
    ctx.label('left: %s' % ' '.join(others))
    kept = scripts.norm('\n'.join(['G0 X0 Y0 Z0'] + pre[:1] + pre[2:] + [line] + after) + '\n', *others)
    want = sorted((l, float(v)) for (l, v) in ref.words(ref.strip_comments(line)[0]))
    ctx.check(any(sorted((l, float(v)) for (l, v) in ref.words(ref.strip_comments(t)[0])) == want for t in kept),
              "with %s, %r becomes %r", others, line, kept)
    ctx.eq([sorted(ref.words(t)) for t in kept[-3:]], [sorted(ref.words(t)) for t in after], "lines after %r with %s" % (line, others))


PROPERTY = Property(
    'C55', "Random cycles made impossible to expand (no R or depth, no or zero peck increment, other planes, drilled upward, threading) given to "
    "simplify_canned_cycle; and random programs continued by such a cycle or an impossible arc, through pygcode-norm with the conversion (exit "
    "status, and output as for the lines before) and without it; and things of another kind than the conversions take. Non-trivial: all of them.",
    [Test('cycle', st.tuples(holes.case, st.integers(0, len(WAYS) - 1), st.integers(0, 4095), st.lists(st.integers(-99, 99), min_size=12, max_size=12)).map(list), run_cycle, quick=4000),
     Test('types', st.tuples(st.booleans(), st.integers(0, 34), st.integers(0, 10), st.booleans()).map(list), run_types, quick=1000),
     Test('script', st.tuples(holes.case, st.integers(0, 63), st.sampled_from([False, False, True]), st.integers(0, len(BEFORE) - 1), st.integers(0, 2), st.integers(0, 127),
                              gens.program(NAMES, [gens.linear(), gens.cancel, gens.other], min_lines=0, max_lines=4)).map(list), run_script, quick=1500)],
    [],
)
