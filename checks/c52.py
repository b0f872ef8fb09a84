"""C52: a machine starts as its class says, and only as its class says."""
from decimal import Decimal
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import machine_class, check_pos, mode_sig, near, M
from vlib import gens, ref

PLAIN = M.Machine
PLAIN_MODE = {
    'motion': ('G', 0.0, []), 'plane_selection': ('G', 17.0, []), 'distance': ('G', 90.0, []), 'arc_ijk_distance': ('G', 91.1, []), 'feed_rate_mode': ('G', 94.0, []),
    'units': ('G', 21.0, []), 'cutter_diameter_comp': ('G', 40.0, []), 'tool_length_offset': ('G', 49.0, []), 'coordinate_system': ('G', 54.0, []), 'control_mode': ('G', 61.0, []),
    'spindle_speed_mode': ('G', 97.0, []), 'spindle': ('M', 5.0, []), 'coolant': ('M', 9.0, []), 'feed_rate': ('F', 0.0, []), 'spindle_speed': ('S', 0.0, []), 'tool': ('T', '0', []),
}
NAMES = gens.MODES + gens.STOPS + ['G91', 'G90', 'G55', 'G99']
AXES = ['XYZ', 'XYZ', 'XYZABC', 'XYZABCUVW', 'XYZC']
# the codes of each group: those a mode can start in
BY_GROUP = dict((g, sorted(c.word for c in ref.CODES.values() if c.group == g and c.word != 'G80')) for g in ref.GROUPS)
BY_GROUP.update({'plane_selection': ['G17', 'G18', 'G19'], 'feed_rate': ['F'], 'spindle_speed': ['S'], 'tool': ['T']})
MOTION = ['G0', 'G1', 'G2', 'G3', 'G0', 'G1', 'G81', 'G82', 'G83', 'G73', 'G85', 'G89']
SEP = [' ', '\n', '  ', '\n\n', ' (comment)\n        ', '\t', '\n   ', ' ; G1 F3\n', ' (a) ', '\r\n', '\n(a) ', '\n  (b) ', '\n; c\n', '\n' + '(one of many)\n' * 40]


def words_of(group, k, v):
    if group == 'motion':
        name = MOTION[k % len(MOTION)]
        if name in ref.CANNED:
            q = 'Q0.5' if name in ('G83', 'G73') else 'P0.1' if v % 2 else ''
            return [name, 'R%s' % ref.fmt(ref.milli(v % 9000)), 'Z-%d' % (v % 7 + 1)] + ([q] if q else [])
        return [name]
    names = BY_GROUP[group]
    name = names[k % len(names)]
    if name in 'FST':
        return [name + ('%d' % (v % 100) if name != 'F' or v % 2 else '%d.5' % (v % 1000))]
    return [name] + [l + '%d' % (v % 20 + 1) for (i, l) in enumerate(gens.EXTRA_PARAMS.get(name, [])) if v & (64 << i) or name == 'G96']


def default_text(picks):
    """:return: (text of the mode, [the words of each code])"""
    groups = set()
    (text, codes) = ('', [])
    again = False
    for (g, k, v, sep) in picks:
        group = ref.GROUPS[g % len(ref.GROUPS)]
        (was_again, again) = (again, group in groups)
        if again and (k + v) % 2:
            continue
        groups.add(group)
        ws = words_of(group, k, v)
        codes.append((group, ws))
        # (on its own line: an S after G96 is its parameter)
        # (and so is a second code of a group: the later counts)
        text += ('' if not text else '\n' if codes[-2][1][0] == 'G96' or again or was_again else SEP[sep % len(SEP)]) + ('' if v % 3 == 0 else ' ').join(ws)
    return (text, codes)


def lines_of(text):
    return [l for l in text.replace('\r\n', '\n').split('\n') if l.strip()]


def run(c, ctx):
    (axes, picks, lead, prog, offs) = c
    (text, codes) = default_text(picks)
    # what the text says, line by line
    model = ref.RefMachine(default=False, axes=axes)
    try:
        for l in lines_of(text):
            (items, modal) = ref.assign(ref.words(ref.strip_comments(l)[0]))
            if modal:
                ctx.trivial = True
                return
            for it in items:
                model._set_mode(it, it.pdict)
    except (ValueError, ref.RefError) as e:
        raise AssertionError("model: %r: %s" % (text, e))
    flat = ' '.join(ref.strip_comments(l)[0] for l in lines_of(text))
    if lead % 2:
        PLAIN()     # (machines of other classes were made before)
    cls = machine_class(axes, ['', '\n', '   \n\n  ', '(start)\n', '(start) ', '; start\n', '\n' * 60, '\n  (start) '][lead % 4 + lead // 16 * 4] + text + ['', '\n', '\n    ', ' (end)'][lead // 4 % 4])
    m = cls()
    what = "of a machine of %s starting in %r" % (axes, text)
    want = {}
    for (g, (name, value)) in model.mode.items():
        params = model.sticky if g == 'motion' else model.extra.get(g, {})
        want[g] = (name[0], value if name in ref.ANY else Decimal(name[1:]), dict(params))
        ctx.label(g)
    got = mode_sig(m.mode)
    ctx.eq(sorted(got), sorted(want), "groups set " + what)
    for g in want:
        (letter, value, params) = want[g]
        ctx.eq(got[g][0], letter, "%s %s" % (g, what))
        ctx.check(got[g][1] == (str(value) if letter == "T" else float(value)), "%s is %r, expected %r %s", g, got[g][:2], want[g][:2], what)
        ctx.eq([l for (l, _) in got[g][2]], sorted(params), "words retained for %s %s" % (g, what))
        for (l, v) in got[g][2]:
            ctx.check(near(v, float(params[l]), 1e-9), "%s of %s is %r, expected %r %s", l, g, v, params[l], what)
    inch = model.name('units') == 'G20'
    system = gens.SYSTEMS.index(model.name('coordinate_system') or 'G54') + 1
    zero = dict((a, 0.0) for a in axes)
    for (name, p) in (('position', m.pos), ('absolute position', m.abs_pos), ('smallest position', m.abs_range_min), ('largest position', m.abs_range_max)):
        ctx.eq(dict(p.values), zero, "%s %s" % (name, what))
        ctx.eq(p.axes, set(axes), "axes of %s %s" % (name, what))
    for (name, p) in (('absolute position', m.abs_pos), ('smallest position', m.abs_range_min), ('largest position', m.abs_range_max), ('Position()', m.Position())):
        ctx.eq(p.unit, M.UNIT_IMPERIAL if inch else M.UNIT_METRIC, "unit of %s %s" % (name, what))
    ctx.eq(dict(m.state.offset.values), zero, "offset %s" % what)
    ctx.eq(sorted(m.state.coord_systems), list(range(1, 10)), "systems %s" % what)
    for (k, cs) in m.state.coord_systems.items():
        ctx.eq(dict(cs.offset.values), zero, "system %d %s" % (k, what))
    ctx.eq(m.state.cur_coord_sys, system, "current system " + what)
    # and then works from there
    b = gens.Builder(default=flat, axes=axes, offsets=gens.ref_offsets(offs))
    for spec in prog:
        b.add(spec)
    for cs in m.state.coord_systems.values():
        cs.offset.unit = m.abs_pos.unit
    gens.set_offsets(m, offs)
    check_pos(ctx, m.pos, gens.Builder(default=flat, axes=axes, offsets=gens.ref_offsets(offs)).m.pos, "work position after setting offsets %r %s" % (offs, what))
    for (i, x) in enumerate(b.lines):
        m.process_str(x.text)
        check_pos(ctx, m.pos, x.after.pos, "after line %d %r of %r %s" % (i + 1, x.text, [y.text for y in b.lines], what))
        check_pos(ctx, m.abs_pos, x.after.abs_pos, "absolute, after line %d %r of %r %s" % (i + 1, x.text, [y.text for y in b.lines], what))
    # other machines start the same, whatever this one did
    again = cls()
    ctx.eq(mode_sig(again.mode), got, "another " + what)
    ctx.eq((dict(again.abs_pos.values), again.state.cur_coord_sys), (zero, system), "another " + what)
    ctx.eq(dict(again.state.coord_systems[system].offset.values), zero, "another's offset " + what)
    ctx.eq((mode_sig(PLAIN().mode), mode_sig(M.NullMachine().mode)), (PLAIN_MODE, {}), "plain and null machines, after one " + what)
    ctx.eq(mode_sig(cls.MODE_CLASS(set_default=False)), {}, "a mode with no default " + what)
    ctx.label('offsets' if offs else 'no offsets', 'imperial' if inch else 'metric', 'system %d' % system)
    ctx.trivial = len(codes) < 2


PROPERTY = Property(
    'C52', "Random starting modes (any code of any group, laid out over lines with comments) on machines of four sets of axes; groups, positions, units, offsets and "
    "coordinate system of a new machine, then a random program with random offsets, against the reference interpreter started in the same modes. "
    "Non-trivial: at least two codes.",
    [Test('start', st.tuples(
        st.sampled_from(AXES),
        st.lists(st.tuples(st.integers(0, len(ref.GROUPS) - 1), st.integers(0, 11), st.integers(0, 1023), st.integers(0, len(SEP) - 1)).map(list), min_size=1, max_size=14),
        st.integers(0, 31), gens.program(NAMES, min_lines=0, max_lines=5), gens.work_offsets).map(list), run, quick=3000)],
)
