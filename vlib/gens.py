"""Generators: JSON-able case descriptions from Hypothesis, and a deterministic builder that turns them into
program text (and what that text means, by vlib.ref).  A case is a list of lines
    [motion or None, [extras], layout, comments]
of small integers, so that cases shrink well and can be replayed without Hypothesis."""
from decimal import Decimal
from hypothesis import strategies as st

from . import ref
from .ref import RefMachine, milli, fmt

# ------------------------------------------------------------------ lattice circle (3-4-5)
DIRS = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
AXIS2CENTRE = {'X': 'I', 'Y': 'J', 'Z': 'K'}

CANNED_CODES = ['G81', 'G82', 'G83', 'G73', 'G85', 'G89']

# name -> list of parameter letters that may be given
EXTRA_PARAMS = {
    'F': [], 'S': [], 'T': [], 'N': [],
    'G41': ['D'], 'G42': ['D'], 'G41.1': ['D', 'L'], 'G42.1': ['D', 'L'], 'G43': ['H'], 'G43.2': ['H'], 'G64': ['P', 'Q'],
    'M6': ['T'], 'G4': ['P'], 'M62': ['P'], 'M63': ['P'], 'M64': ['P'], 'M65': ['P'], 'M66': ['P', 'L'],
    'M67': [], 'M61': ['Q'],
    'M50': ['P'], 'M51': ['P'], 'M52': ['P'], 'M53': ['P'], 'G10': ['L', 'P', 'X', 'Z'], 'G28': ['Z'], 'G30': ['X', 'Y'],
    'G92': ['X', 'Y'], 'G97': ['D'], 'G96': ['D', 'S'],
}
MODES = ['G17', 'G18', 'G19', 'G90', 'G91', 'G98', 'G99', 'F', 'S', 'T', 'M3', 'M4', 'M5', 'M7', 'M8', 'M9', 'G4',
         'G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3', 'G61', 'G61.1', 'G64',
         'G93', 'G94', 'G95', 'G40', 'G41', 'G42', 'G43', 'G49', 'G97', 'M48', 'M49', 'G90.1', 'G91.1', 'G43.1']
NONMODAL = ['N', 'M6', 'M61', 'M62', 'M63', 'M64', 'M65', 'M66', 'M67', 'M50', 'M51', 'M53', 'M19', 'G10', 'G28', 'G92', 'G28.1', 'G92.1', 'G92.3']
STOPS = ['M0', 'M1', 'M60']
ENDS = ['M2', 'M30']
ALL_EXTRAS = MODES + NONMODAL + STOPS
RARE_MODES = ['G41.1', 'G42.1', 'G43.2', 'G7', 'G8', 'G20', 'G21']


def _mix(h, k):
    """deterministic pseudo-choice from the layout integer"""
    x = (h * 2654435761 + k * 40503 + 12345) & 0xFFFFFFFF
    x ^= x >> 13
    x = (x * 1103515245 + 12345) & 0xFFFFFFFF
    return x >> 8


# ------------------------------------------------------------------ formatting
def fmt_number(d, h):
    """another plain decimal text of the same number"""
    s = fmt(d)
    neg = s.startswith('-')
    if neg:
        s = s[1:]
    v = h % 6
    if (h >> 4) % 61 == 7:      # very many digits
        s = '0' * (h % 41) + s + ('.' if '.' not in s else '') + '0' * (h % 67)
        return ('-' if neg else '') + s
    if v == 1:
        s = '0' + s
    elif v == 2:
        s = s + '0' if '.' in s else s + '.0'
    elif v == 3:
        s = s[1:] if s.startswith('0.') else s
    elif v == 4 and '.' not in s:
        s = s + '.'
    elif v == 5:
        s = '00' + s + ('.000' if '.' not in s else '00')
    return ('-' if neg else '') + s


def fmt_code_number(d, h):
    s = fmt(d)
    v = h % 3
    if (h >> 4) % 61 == 7:
        return '0' * (h % 41) + s + ('.' if '.' not in s else '') + '0' * (h % 37 + 1)
    if v == 1:
        s = '0' + s
    elif v == 2 and '.' not in s:
        s = s + '.0'
    return s


def fmt_word(letter, value, h=0):
    if letter == 'O':
        return ('O' if h % 2 == 0 else 'o') + value
    if h == 0:
        return letter + fmt(value)
    low = letter.lower() if _mix(h, 1) % 3 == 0 else letter
    gap = ' ' * (_mix(h, 2) % 8 == 0) + '\t' * (_mix(h, 3) % 16 == 0)
    if letter in 'GM':
        num = fmt_code_number(value, _mix(h, 4))
    elif letter == 'T':
        num = fmt(value)
    elif letter in 'NL':
        num = '0' * (_mix(h, 4) % 3) + fmt(value)
    else:
        num = fmt_number(value, _mix(h, 4))
    return low + gap + num


def join_words(word_list, h=0):
    if not h:
        return ' '.join(fmt_word(l, v) for (l, v) in word_list)
    out = []
    for (i, (l, v)) in enumerate(word_list):
        sep = ['', ' ', '  ', ' ', '', '\t'][_mix(h, 100 + i) % 6] if i else ['', '', ' ', '  '][_mix(h, 99) % 4]
        if _mix(h, 300 + i) % 73 == 5:      # lines longer than any fixed size
            sep = ' ' * (_mix(h, 400 + i) % 300 + 1)
        out.append(sep + fmt_word(l, v, _mix(h, 200 + i) | 1))
    return ''.join(out) + ['', '', ' ', '\n'][_mix(h, 98) % 4]


# ------------------------------------------------------------------ strategies
coord = st.one_of(st.just(0), st.integers(-20, 20).map(lambda n: n * 1000), st.integers(-20, 20).map(lambda n: n * 1000), st.integers(-99999, 99999), st.integers(-9999999, 9999999))
small = st.one_of(st.integers(-99999, 99999), st.integers(-99999, 99999), st.integers(-99999, 99999), st.just(0))
layout = st.one_of(st.just(0), st.integers(1, 1 << 20))
SAFE = 'abcXYZ 0123456789.,:-+*/=[]{}<>!?"\'#$&@_^~|\\'


def long_text(short):
    """:return: strategy of texts, some of them repeated to be longer than any fixed size"""
    return st.tuples(short, st.integers(0, 640)).map(lambda t: t[0] * (t[1] - 600) if t[1] > 600 and t[0] else t[0])


def comment_text(extra=''):
    return long_text(st.text(alphabet=SAFE + extra, max_size=12))


comments = st.lists(st.one_of(
    st.tuples(st.sampled_from([0, 1, 2]), comment_text(';%(')),     # bracket: start, middle, end
    st.tuples(st.just(3), comment_text('(;')),                         # semicolon
    st.tuples(st.just(4), st.text(alphabet='abc 12;(', max_size=8)),   # macro
).map(list), max_size=3)


def linear(axes='XYZ', modal=True):
    return st.tuples(st.just('l'), st.integers(0, 2 if modal else 1), st.integers(1, (1 << len(axes)) - 1),
                     st.lists(coord, min_size=len(axes), max_size=len(axes))).map(list)


arc = st.tuples(st.just('a'), st.integers(0, 1), st.one_of(st.integers(1, 40).map(lambda n: n * 100), st.integers(1, 20000)),
                st.integers(0, 11), st.integers(0, 11), st.one_of(st.just(0), small), st.integers(0, 3), st.integers(0, 2),
                st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 4, 6])).map(list)
R_ZERO = 40000    # R0 is given
canned = st.tuples(st.just('c'), st.integers(0, len(CANNED_CODES) - 1), small, small, st.one_of(st.integers(-9000, 30000), st.integers(-9000, 30000), st.integers(-9000, 30000), st.just(R_ZERO)),
                   st.one_of(st.integers(1, 20).map(lambda n: n * 1000), st.integers(1, 30000)), st.integers(1, 40),
                   st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.integers(5, 30)), st.integers(0, 2), st.integers(0, 15)).map(list)
cancel = st.just(['z'])
bare = st.sampled_from([['b', 0], ['b', 1]])    # motion code without words


# other motions to the coordinates given: [code, modal, which words, values]
OTHER_MOTIONS = [('G5', 'IJPQ'), ('G5.1', 'IJ'), ('G33', 'K')]
other = st.tuples(st.just('s'), st.integers(0, 2), st.integers(0, 1), st.integers(1, 127), st.lists(coord, min_size=7, max_size=7)).map(list)


MOTIONS = [linear(), linear(), linear(), arc, arc, canned, canned, canned, cancel, bare, other]


def extra(names):
    return st.tuples(st.sampled_from(names), st.lists(st.one_of(st.integers(0, 99999), st.integers(0, 99999), st.just(0)), min_size=4, max_size=4), st.integers(0, 15)).map(list)


def line(names, motions, with_layout=True, with_comments=True, max_extras=3):
    return st.tuples(
        st.one_of(*([st.none()] + list(motions))),
        st.lists(extra(names), max_size=max_extras) if names else st.just([]),
        layout if with_layout else st.just(0),
        comments if with_comments else st.just([]),
    ).map(list)


def program(names=None, motions=None, min_lines=1, max_lines=14, **kw):
    names = ALL_EXTRAS if names is None else names
    motions = MOTIONS if motions is None else motions
    return st.tuples(st.lists(line(names, motions, **kw), min_size=min_lines, max_size=max_lines), st.integers(0, 63)).map(
        lambda t: (t[0] * {61: 2, 62: 6, 63: 30}.get(t[1], 1))[:max(100, len(t[0]))])     # long ones now and then


# ------------------------------------------------------------------ builder
class BLine(object):
    """a built line"""
    __slots__ = ('text', 'code', 'words', 'items', 'modal', 'comments', 'macro', 'events', 'kinds', 'before', 'after', 'semicolon')


class Builder(object):
    def __init__(self, default=True, axes='XYZ', words_axes=None, offsets=None):
        self.m = RefMachine(default=default, axes=axes, offsets=offsets)
        self.axes = words_axes or axes
        self.canned_ctx = None
        self.lines = []

    # --- parts
    def extra_words(self, x):
        (name, vals, mask) = x
        if name in ('F', 'S'):
            return [(name, Decimal(vals[0] % 20000))] if mask % 2 else [(name, milli(vals[0] * 10 % 2000000))]
        if name == 'T':
            return [('T', Decimal(vals[0] % 100))]
        if name == 'N':
            return [('N', Decimal(vals[0]))]
        out = [(name[0], Decimal(name[1:]))]
        for (i, l) in enumerate(EXTRA_PARAMS.get(name, [])):
            if mask & (1 << i) or name in ('G10', 'G28', 'G92'):
                v = vals[i % 4]
                if l in 'LT':
                    v = Decimal(1 + v % 20)
                elif l in 'DH':
                    v = Decimal(v % 100)
                elif l in 'PQ':
                    v = milli(v * 10)
                else:
                    v = milli(v - 50000)
                out.append((l, v))
        return out

    def motion_words(self, mot, m):
        """:return: (words, is modal) for the motion, given reference machine m (after this line's modes)"""
        kind = mot[0]
        cur = m.name('motion')
        if kind == 'z':
            return ([('G', Decimal(80))], False)
        if kind == 'b':
            return ([('G', Decimal(mot[1]))], False)
        if kind == 'l':
            (_, code, mask, vals) = mot
            ws = [(a, milli(v)) for (i, (a, v)) in enumerate(zip(self.axes, vals)) if mask & (1 << i)]
            if code == 2 and cur in ('G0', 'G1'):
                return (ws, True)
            return ([('G', Decimal(code % 2))] + ws, False)
        if kind == 's':
            (_, ci, modal, mask, vals) = mot
            is_modal = bool(modal and cur in [n for (n, _) in OTHER_MOTIONS])
            name = cur if is_modal else OTHER_MOTIONS[ci][0]
            letters = 'XYZ' + dict(OTHER_MOTIONS)[name]
            ws = [(l, milli(v)) for (i, (l, v)) in enumerate(zip(letters, vals)) if mask & (1 << i)]
            if is_modal:
                return (ws or [('X', milli(vals[0]))], True)
            return ([('G', Decimal(name[1:]))] + ws, False)
        if kind == 'a':
            (_, ccw, k, s, e, dn, form, modal, opt) = mot
            (p, q, n) = m.plane
            is_modal = bool(modal and cur in ('G2', 'G3'))
            if is_modal:
                ccw = int(cur == 'G3')
            c = (m.pos[p] - milli(k * DIRS[s][0]), m.pos[q] - milli(k * DIRS[s][1]))
            end = (c[0] + milli(k * DIRS[e][0]), c[1] + milli(k * DIRS[e][1]))
            ws = []
            deltas = {p: end[0] - m.pos[p], q: end[1] - m.pos[q], n: milli(dn)}
            for a in 'XYZ':
                if a == n and not dn:
                    continue
                if deltas[a] == 0 and (opt & 1) and a != p:
                    continue
                ws.append((a, deltas[a] if m.incremental else m.pos[a] + deltas[a]))
            if form == 0 and s != e:
                rel = (e - s) % 12 if ccw else (s - e) % 12
                r = milli(5 * k)
                if rel > 6:
                    r = -r
                ws.append(('R', r))
            else:
                arcabs = m.name('arc_ijk_distance') == 'G90.1'
                cc = [(AXIS2CENTRE[a], v if arcabs else v - m.pos[a]) for (a, v) in ((p, c[0]), (q, c[1]))]
                if opt & 2 and not arcabs and any(v == 0 for (_, v) in cc):
                    cc = [(l, v) for (l, v) in cc if v != 0]
                ws += sorted(cc)
            if opt & 4:
                ws.append(('P', Decimal(1 + (s + e) % 3)))     # turns
            name = 'G3' if ccw else 'G2'
            if is_modal:
                return (ws, True)
            return ([('G', Decimal(name[1:]))] + ws, False)
        if kind == 'c':
            (_, ci, x, y, roff, depth, peck, loops, modal, mask) = mot
            (p, q, n) = m.plane
            ctx = (m.incremental, m.plane)
            is_modal = bool(modal and cur in CANNED_CODES and self.canned_ctx == ctx)
            name = cur if is_modal else CANNED_CODES[ci]
            ws = []
            for (bit, a, v) in ((1, p, x), (2, q, y)):
                if (mask & bit) or (is_modal and m.incremental and not mask & 8):
                    ws.append((a, milli(v)))
            if not is_modal or (mask & 4):
                if m.incremental:
                    (r, z) = (milli(roff), -milli(depth))
                else:
                    r = m.pos[n] + milli(roff - 10000)
                    z = r - milli(depth)
                if roff == R_ZERO:
                    r = Decimal(0)
                    z = -milli(depth)
                    if not m.incremental and m.pos[n] <= z:
                        z = m.pos[n] - milli(depth)    # starts above the bottom
                ws += [('R', r), (n, z)]
                if is_modal and m.incremental and mask & 8:
                    ws.remove((n, z))      # as deep as before
                elif name in ('G73', 'G83'):
                    # at most ~40 pecks
                    deep = int((-z if m.incremental else r - z) * 1000)
                    ws.append(('Q', milli(max(depth * peck // 40, depth // 40 + 1, deep // 40 + 1, 1))))
                elif mask & 8 or name in ('G82', 'G89'):
                    ws.append(('P', milli(peck * 25)))
            if loops:
                ws.append(('L', Decimal(loops)))
            if is_modal and all(l == 'L' for (l, _) in ws):
                ws.append((p, milli(x)))
            if not is_modal:
                ws = [('G', Decimal(name[1:]))] + ws
            self.next_ctx = ctx
            return (ws, is_modal)
        raise AssertionError(kind)

    # --- line
    def add(self, spec):
        (mot, extras, lay, comm) = spec
        parts = []     # word groups, each a code with its params
        groups = set()
        names = set()
        mot_new = bool(mot)
        # extras (drop those in conflict)
        for x in extras:
            ws = self.extra_words(x)
            (items, modal) = ref.assign(ws)
            it = items[0]
            if it.code.group is not None and it.code.group in groups:
                continue
            if it.name in names:
                continue
            groups.add(it.code.group)
            names.add(it.name)
            parts.append(ws)
        while True:
            m2 = self.m.copy()
            for ws in sorted(parts, key=lambda ws: ref.code_of(*ws[0]).order):
                m2.items(*ref.assign(ws))
            (mw, is_modal) = ([], False)
            self.next_ctx = None
            if mot_new:
                (mw, is_modal) = self.motion_words(mot, m2)
            # arrange
            order = list(range(len(parts)))
            if lay:
                order.sort(key=lambda i: _mix(lay, 300 + i))
            seq = [list(parts[i]) for i in order]
            if lay:
                seq = [[ws[0]] + sorted(ws[1:], key=lambda w: _mix(lay, ord(w[0]))) for ws in seq]
                mwl = sorted(mw[0 if is_modal else 1:], key=lambda w: _mix(lay, 31 + ord(w[0])))
                mw2 = mwl if is_modal else mw[:1] + mwl
            else:
                mw2 = list(mw)
            ok = None
            positions = list(range(len(seq) + 1))
            positions.sort(key=lambda i: _mix(lay, 400 + i) if lay else -i)
            want = sorted(repr((ws[0], sorted(ws[1:]))) for ws in seq + ([mw2] if (mw2 and not is_modal) else []))
            wantmodal = sorted(mw2) if is_modal else []
            for pos in positions if mw2 else [0]:
                flat = [w for ws in seq[:pos] for w in ws] + mw2 + [w for ws in seq[pos:] for w in ws]
                (items, modal) = ref.assign(flat)
                got = sorted(repr(((it.letter, it.value), sorted(it.params))) for it in items)
                if any(l in it.code.params for it in items for (l, _) in modal):
                    continue  # parameters are to follow their code, so that's not a modal parameter
                if got == want and sorted(modal) == wantmodal and ref.conflicts(items) is None:
                    ok = (flat, items, modal)
                    break
            if ok:
                break
            if parts:
                parts.pop()
                continue
            raise AssertionError("cannot build %r" % (spec,))
        (flat, items, modal) = ok
        b = BLine()
        b.words, b.items, b.modal = flat, items, modal
        b.before = self.m.copy()
        b.kinds = set()
        if mw:
            b.kinds.add({'l': 'linear', 'a': 'arc', 'c': 'canned', 'z': 'cancel', 'b': 'bare', 's': 'other'}[mot[0]])
            if is_modal:
                b.kinds.add('modal')
        if parts:
            b.kinds.add('codes')
        b.events = self.m.items(items, modal)
        if any(e[0] == 'move' and e[1] in ref.CANNED for e in b.events):
            self.canned_ctx = self.next_ctx
        b.after = self.m.copy()
        b.code = join_words(flat, lay)
        (b.text, b.comments, b.macro, b.semicolon) = decorate(flat, lay, comm)
        self.lines.append(b)
        return b


def decorate(flat, lay, comm):
    """code words + comments -> (text, [comment text in order], macro, has semicolon comment)"""
    start = [c for (k, c) in comm if k == 0]
    mid = [c for (k, c) in comm if k == 1]
    end = [c for (k, c) in comm if k == 2]
    semi = [c for (k, c) in comm if k == 3][:1]
    macro = [c for (k, c) in comm if k == 4][:1]
    n = len(flat)
    cut = (_mix(lay, 500) % (n + 1)) if n else 0
    if any(l == 'O' for (l, _) in flat[:cut]):
        cut = 0
    a = join_words(flat[:cut], lay).rstrip('\n')
    b = join_words(flat[cut:], lay and lay + 7).rstrip('\n')
    texts = start + mid + end + semi
    s = ''.join('(%s)' % c for c in start) + a + ''.join(' (%s) ' % c for c in mid)
    if not mid and a and b:
        s += ' '
    s += b + ''.join('(%s)' % c for c in end)
    if semi:
        s += [' ;', '; '][_mix(lay, 501) % 2] + semi[0]
    m = None
    if macro:
        m = '%' + macro[0] + '%'
        s += [' ', ''][_mix(lay, 502) % 2] + m
    return (s, texts, m, bool(semi))


def build(case, **kw):
    b = Builder(**kw)
    for spec in case:
        b.add(spec)
    return b


# offsets of the coordinate systems: None, or [[system, [x, y, z]], ...] (thousandths)
SYSTEMS = ['G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3']
work_offsets = st.one_of(st.none(), st.none(), st.lists(st.tuples(
    st.one_of(st.just(0), st.integers(0, 8)), st.lists(st.one_of(st.just(0), st.integers(-50000, 50000)), min_size=3, max_size=3)).map(list),
    min_size=1, max_size=3))


def ref_offsets(spec):
    """:return: offsets for RefMachine"""
    return dict((SYSTEMS[i], dict(zip('XYZ', [milli(v) for v in vals]))) for (i, vals) in spec or [])


def set_offsets(machine, spec):
    """(values in the machine's unit; those of the state are in millimetres by default)"""
    for (name, off) in ref_offsets(spec).items():
        at = machine.state.coord_systems[SYSTEMS.index(name) + 1].offset
        factor = 1.0 if machine.abs_pos.unit == at.unit else 25.4
        at.update(**dict((k, float(v) * factor) for (k, v) in off.items() if k in machine.axes))


# kinds of machines: axes, and ' in' if it starts in inches
FEW_AXES = ['XZ', 'XY', 'Z', 'YZB']
INCH_DEFAULT = 'G0 G17 G90 G91.1 G94 G20 G40 G49 G54 G61 G97 M5 M9 F0 S0 T0'


def program_axes(kind):
    """:return: axes of the programs for a kind of machine (at least X, Y and Z)"""
    axes = kind.split()[0]
    return ''.join(a for a in 'XYZABCUVW' if a in axes or a in 'XYZ')


def machine_of(kind):
    from .sut import machine_class
    return machine_class(kind.split()[0], default_mode=INCH_DEFAULT if ' ' in kind else None)


def of_axes(kind, values):
    """:return: those of the values a machine has the axes for"""
    return dict((k, v) for (k, v) in values.items() if k in kind.split()[0])


# ------------------------------------------------------------------ word soups: any words of the language, in any order
ALL_CODES = sorted(c.word for c in ref.CODES.values())
UNSUPPORTED = ['G12', 'G84', 'G200', 'G5.9', 'M20', 'M99', 'M200', 'G59.4', 'M3.1', 'G0.1']
value = st.one_of(st.integers(-9, 9).map(lambda n: n * 1000), st.integers(-20000, 20000), st.integers(-10 ** 9, 10 ** 9),
                  st.integers(-10 ** 12, 10 ** 12))
code_pick = st.one_of(st.integers(0, len(ALL_CODES) - 1), st.integers(0, len(ALL_CODES) - 1), st.integers(-4, -1))
def soup_of(most):
  return st.lists(st.one_of(
    st.tuples(st.just('c'), code_pick, st.lists(st.tuples(st.integers(0, 30), value).map(list), max_size=4)).map(list),
    st.tuples(st.just('c'), code_pick, st.lists(st.tuples(st.integers(0, 30), value).map(list), max_size=4)).map(list),
    st.tuples(st.just('w'), st.integers(0, 25), value).map(list),
    st.tuples(st.just('u'), st.integers(0, len(UNSUPPORTED) - 1)).map(list),
), min_size=0, max_size=most)


BY_GROUP = {}
for (_i, _w) in enumerate(ALL_CODES):
    _g = ref.CODES[(_w[0], Decimal(_w[1:]))].group
    BY_GROUP.setdefault(_g or _w, []).append(_i)


def widen(t):
    """:return: soup of very many codes that don't conflict: one of each of some groups"""
    (n, h, params) = t
    keys = sorted(sorted(BY_GROUP) + ['F', 'S', 'T'], key=lambda k: _mix(h, sum(ord(x) * (i + 7) for (i, x) in enumerate(k))))
    out = []
    for (i, k) in enumerate(keys[:n]):
        pick = BY_GROUP[k][_mix(h, i) % len(BY_GROUP[k])] if k in BY_GROUP else {'F': -4, 'S': -3, 'T': -2}[k]
        out.append(['c', pick, [params] if params[0] % len(keys) == i else []])
    return out


soup_wide = st.tuples(st.integers(8, 40), st.integers(1, 1 << 20), st.tuples(st.integers(0, 60), value).map(list)).map(widen)
soup = st.one_of(*([soup_of(6)] * 11 + [soup_wide]))
soup_long = soup_of(20)


def soup_value(letter, v):
    if letter == 'L':       # repeats of a canned cycle, among others: a machine really makes every one of them
        return Decimal(abs(v) // 1000 % 1000)
    if letter in 'NT':
        return Decimal(abs(v) // 1000)
    return milli(v)


def soup_groups(case):
    """:return: list of word lists, one for each entry"""
    groups = []
    for e in case:
        if e[0] == 'c':
            if e[1] < 0:
                l = 'FSTN'[e[1]]
                groups.append([(l, soup_value(l, 1000 * len(groups) + 7000))])
                continue
            name = ALL_CODES[e[1]]
            ws = [(name[0], Decimal(name[1:]))]
            letters = sorted(ref.CODES[ws[0]].params)
            for (i, v) in e[2]:
                if letters:
                    l = letters[i % len(letters)]
                    ws.append((l, soup_value(l, v)))
            groups.append(ws)
        elif e[0] == 'w':
            l = ref.LETTERS[e[1]]
            if l in 'GMO':
                l = 'X'
            groups.append([(l, soup_value(l, e[2]))])
        else:
            name = UNSUPPORTED[e[1]]
            groups.append([(name[0], Decimal(name[1:]))])
    return groups


def soup_words(case):
    return [w for g in soup_groups(case) for w in g]


def soup_valid(case, modal=True, misplaced=False):
    """words of the soup, leaving out groups that make the line invalid
    :param modal: False to leave out words that would be modal parameters
    :param misplaced: allow modal parameters that are accepted by a code written after them
    """
    out = []
    for g in soup_groups(case):
        g = [w for (i, w) in enumerate(g) if w[0] not in [x[0] for x in g[1:i]] or i == 0]
        (items, rest) = ref.assign(out + g)
        if ref.conflicts(items):
            continue
        if rest and not modal:
            continue
        if len(set(l for (l, _) in rest)) != len(rest):
            continue
        if not misplaced and any(l in it.code.params for it in items for (l, _) in rest):
            continue
        out = out + g
    return out


ODD = {'_': '\x0c', '^': '\x0b', '~': '\x1c', '|': '\x1e'}     # what some readers take for a line end


def odd(spec):
    """some characters of bracket comments replaced"""
    return [spec[0], spec[1], spec[2], [[k, 'c%sc' % ''.join(ODD.get(ch, ch) for ch in c) if k < 3 and set(ODD) & set(c) else c] for (k, c) in spec[3]]]
