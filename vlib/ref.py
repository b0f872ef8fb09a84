"""Independent reference for the G-code dialect: word tokenizer, code table, word assignment, execution
order, and an interpreter.  Written from the LinuxCNC G-code overview (and RS274 word rules); shares no code
with pygcode.  All numbers are exact (Decimal)."""
from decimal import Decimal
import re

AXES9 = 'XYZABCUVW'
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
INT_LETTERS = 'LNT'


class Code(object):
    __slots__ = ('word', 'group', 'params', 'order')

    def __init__(self, word, group, params, order):
        (self.word, self.group, self.params, self.order) = (word, group, frozenset(params), order)


CODES = {}


def _add(words, group, params, order):
    for w in words.split():
        CODES[(w[0], Decimal(w[1:]))] = Code(w, group, params, order)


# motion
_add('G0 G1', 'motion', AXES9, 240)
_add('G2 G3', 'motion', AXES9 + 'IJKRP', 240)
_add('G5', 'motion', AXES9 + 'IJPQ', 240)
_add('G5.1', 'motion', AXES9 + 'IJ', 240)
_add('G5.2 G5.3', 'motion', AXES9 + 'PL', 240)
_add('G33 G33.1', 'motion', AXES9 + 'K', 240)
_add('G38.2 G38.3 G38.4 G38.5', 'motion', AXES9, 240)
_add('G73 G83', 'motion', 'XYZUVWRLQ', 240)
_add('G81 G82 G85 G89', 'motion', 'XYZUVWRLP', 240)
_add('G76', 'motion', 'XYZUVWPIJRKQHLE', 240)
_add('G80', None, AXES9, 239)
_add('G4', None, 'P', 140)
# modes
_add('G17 G18 G19 G17.1 G18.1 G19.1', 'plane_selection', '', 150)
_add('G90 G91', 'distance', '', 210)
_add('G90.1 G91.1', 'arc_ijk_distance', '', 210)
_add('G7 G8', 'lathe_diameter', '', 210)
_add('G93 G94 G95', 'feed_rate_mode', '', 30)
_add('G20 G21', 'units', '', 160)
_add('G40', 'cutter_diameter_comp', '', 170)
_add('G41 G42', 'cutter_diameter_comp', 'D', 170)
_add('G41.1 G42.1', 'cutter_diameter_comp', 'DL', 170)
_add('G43 G43.2', 'tool_length_offset', 'H', 180)
_add('G43.1 G49', 'tool_length_offset', '', 180)
_add('G98 G99', 'canned_cycles_return', '', 220)
_add('G54 G55 G56 G57 G58 G59 G59.1 G59.2 G59.3', 'coordinate_system', '', 190)
_add('G61 G61.1', 'control_mode', '', 200)
_add('G64', 'control_mode', 'PQ', 200)
_add('G96', 'spindle_speed_mode', 'DS', 90)
_add('G97', 'spindle_speed_mode', 'D', 90)
_add('M0 M1 M2 M30 M60', 'stopping', '', 250)
_add('M3 M4 M5', 'spindle', '', 90)
_add('M19', None, '', 90)
_add('M7 M8 M9', 'coolant', '', 110)
_add('M48 M49', 'override_switches', '', 120)
_add('M50 M51 M52 M53', None, 'P', 120)
_add('M62 M63 M64 M65', None, 'P', 70)
_add('M66', None, 'PELQ', 70)
_add('M67 M68', None, 'T', 70)
_add('M6', None, 'T', 80)
_add('M61', None, 'Q', 80)
_add('G10', None, 'LPQRABCXYZ', 230)
_add('G28 G30 G92', None, AXES9, 230)
_add('G28.1 G30.1 G92.1 G92.2 G92.3', None, '', 230)
_add('G53', None, '', 235)
ANY = {
    'F': Code('F', 'feed_rate', '', 40),
    'S': Code('S', 'spindle_speed', '', 50),
    'T': Code('T', 'tool', '', 60),
    'N': Code('N', None, '', 0),
    'O': Code('O', None, '', 1),
}
GROUPS = ['motion', 'plane_selection', 'distance', 'arc_ijk_distance', 'feed_rate_mode', 'units',
          'cutter_diameter_comp', 'tool_length_offset', 'canned_cycles_return', 'coordinate_system',
          'control_mode', 'spindle_speed_mode', 'lathe_diameter', 'stopping', 'spindle', 'coolant',
          'override_switches', 'feed_rate', 'spindle_speed', 'tool']
CANNED = ('G73', 'G81', 'G82', 'G83', 'G85', 'G89')
CANNED_STICKY = {c: 'XYZUVWR' + ('Q' if c in ('G73', 'G83') else 'P') for c in CANNED}
STICKY = dict(CANNED_STICKY)
STICKY.update({'G41': 'D', 'G42': 'D', 'G41.1': 'DL', 'G42.1': 'DL', 'G43': 'H', 'G43.2': 'H', 'G64': 'PQ'})
PLANES = {'G17': ('X', 'Y', 'Z'), 'G18': ('Z', 'X', 'Y'), 'G19': ('Y', 'Z', 'X')}


def code_of(letter, value):
    if letter in ANY:
        return ANY[letter]
    if letter in 'GM':
        return CODES.get((letter, value))
    return None


# ---------------------------------------------------------------- text -> words
def strip_comments(text):
    """:return: (code text, [comment texts], macro or None)"""
    code, comments, i, n = [], [], 0, len(text)
    while i < n:
        ch = text[i]
        if ch == '(' and ')' in text[i:]:
            j = text.index(')', i)
            comments.append(text[i + 1:j])
            i = j + 1
        elif ch == ';':
            j = text.find('%', i)
            j = n if j < 0 else j
            comments.append(text[i + 1:j])
            i = j
        elif ch == '%':
            return (''.join(code), comments, text[i:].rstrip())
        else:
            code.append(ch)
            i += 1
    return (''.join(code), comments, None)


NUM = re.compile(r'\s*(-?(?:\d+\.?\d*|\.\d+))')


def words(code_text):
    """:return: [(letter, Decimal or str)]; raises ValueError for text that is not a sequence of words"""
    out, i, n = [], 0, len(code_text)
    while i < n:
        ch = code_text[i]
        if ch.isspace():
            i += 1
            continue
        letter = ch.upper()
        if letter not in LETTERS or ord(ch) > 127:
            raise ValueError("not a word at %r" % code_text[i:])
        i += 1
        if letter == 'O':
            out.append((letter, code_text[i:].strip()))
            break
        m = NUM.match(code_text, i)
        if not m:
            raise ValueError("no value for %s at %r" % (letter, code_text[i:]))
        out.append((letter, Decimal(m.group(1))))
        i = m.end()
    return out


# ---------------------------------------------------------------- words -> codes
class Item(object):
    """one code of a line with its parameters (in order)"""
    __slots__ = ('letter', 'value', 'code', 'params', 'index')

    def __init__(self, letter, value, code, index):
        (self.letter, self.value, self.code, self.params, self.index) = (letter, value, code, [], index)

    @property
    def name(self):
        """eg: 'G1', 'M3', 'F'"""
        return self.code.word

    @property
    def pdict(self):
        return dict(self.params)

    def __repr__(self):
        return '%s%s%r' % (self.letter, self.value, self.params)


def assign(word_list):
    """:return: ([Item], [modal (letter, value)])"""
    (items, modal) = ([], [])
    for (i, (l, v)) in enumerate(word_list):
        owner = None
        for it in reversed(items):
            if l in it.code.params:
                owner = it
                break
        if owner is not None:
            owner.params.append((l, v))
            continue
        c = code_of(l, v)
        if c is not None:
            items.append(Item(l, v, c, i))
        else:
            modal.append((l, v))
    return (items, modal)


def conflicts(items):
    """why a line with these codes is to be refused (None if it's fine)"""
    (seen, groups) = (set(), set())
    for it in items:
        if len(set(l for (l, _) in it.params)) != len(it.params):
            return 'param'
    for it in items:
        if (it.letter, it.value) in seen:
            return 'repeat'
        seen.add((it.letter, it.value))
        if it.code.group is not None:
            if it.code.group in groups:
                return 'group'
            groups.add(it.code.group)
    return None


class RefError(Exception):
    pass


# ---------------------------------------------------------------- interpreter
class RefMachine(object):
    DEFAULT = {'motion': 'G0', 'plane_selection': 'G17', 'distance': 'G90', 'arc_ijk_distance': 'G91.1',
               'feed_rate_mode': 'G94', 'units': 'G21', 'cutter_diameter_comp': 'G40',
               'tool_length_offset': 'G49', 'coordinate_system': 'G54', 'control_mode': 'G61',
               'spindle_speed_mode': 'G97', 'spindle': 'M5', 'coolant': 'M9',
               'feed_rate': 'F0', 'spindle_speed': 'S0', 'tool': 'T0'}

    def __init__(self, default=True, axes='XYZ', offsets=None):
        self.axes = axes
        self.offsets = offsets or {}    # {'G54': {axis: offset}, ...}
        self.pos = dict((a, Decimal(0)) for a in axes)    # work position (starts at machine's origin)
        self.lo = dict(self.pos)    # absolute
        self.hi = dict(self.pos)
        self.mode = {}    # group -> (name, value)
        if offsets:
            off = self.offset
            self.pos = dict((a, -off.get(a, 0)) for a in axes)
        self.sticky = {}  # of the motion group
        self.extra = {}   # group -> sticky params of non-motion groups
        self.events = []
        if default is True:
            default = ' '.join(self.DEFAULT.values())
        if default:
            for it in assign(words(default))[0]:
                self._set_mode(it, it.pdict)

    def copy(self):
        m = RefMachine(default=False, axes=self.axes, offsets=self.offsets)
        m.pos, m.lo, m.hi = dict(self.pos), dict(self.lo), dict(self.hi)
        m.mode, m.sticky, m.extra = dict(self.mode), dict(self.sticky), dict(self.extra)
        return m

    def name(self, group):
        v = self.mode.get(group)
        return v[0] if v else None

    @property
    def offset(self):
        return self.offsets.get(self.name('coordinate_system') or 'G54', {})

    @property
    def abs_pos(self):
        off = self.offset
        return dict((a, v + off.get(a, 0)) for (a, v) in self.pos.items())

    @property
    def plane(self):
        return PLANES.get(self.name('plane_selection') or 'G17')

    @property
    def incremental(self):
        return self.name('distance') == 'G91'

    def _set_mode(self, it, params):
        g = it.code.group
        if g is None:
            return
        old = self.offset if g == 'coordinate_system' else None
        self.mode[g] = (it.name, it.value)
        if old is not None:
            new = self.offset
            for a in self.axes:
                self.pos[a] += old.get(a, 0) - new.get(a, 0)
        keep = STICKY.get(it.name, '')
        st = dict((l, v) for (l, v) in params.items() if l in keep)
        if g == 'motion':
            self.sticky = st
        else:
            self.extra[g] = st

    def line(self, text):
        """:return: list of events of the line"""
        (items, modal) = assign(words(strip_comments(text)[0]))
        return self.items(items, modal)

    def items(self, items, modal):
        why = conflicts(items)
        if why:
            raise RefError(why)
        items = list(items)
        todo = sorted(items, key=lambda it: it.code.order)
        todo = [(it, it.pdict) for it in todo]
        if modal:
            cur = self.mode.get('motion')
            if cur is None:
                raise RefError('no motion')
            c = CODES[(cur[0][0], Decimal(cur[0][1:]))]
            if any(l not in c.params for (l, _) in modal):
                raise RefError('modal params')
            params = dict(self.sticky)
            params.update(dict(modal))
            it = Item(cur[0][0], Decimal(cur[0][1:]), c, -1)
            todo.append((it, params))
            todo.sort(key=lambda x: x[0].code.order)
            # G80 on the line of a modal move: cancels before it
        evs = []
        for (it, params) in todo:
            evs.append(self.execute(it, params))
        self.events += evs
        return evs

    def execute(self, it, params):
        name = it.name
        if name == 'G80':
            self.mode.pop('motion', None)
            self.sticky = {}
            return ('code', 'G80', None, {})
        self._set_mode(it, params)
        if it.code.group != 'motion':
            return ('code', name, it.value if name in ANY else None, dict(params))
        start = dict(self.pos)
        if name in CANNED:
            self._canned(name, params)
        else:
            for a in self.axes:
                if a in params:
                    self._to(a, params[a])
        self._range()
        return ('move', name, dict(params), start, dict(self.pos), self.state())

    def _to(self, a, v, delta=None):
        if self.incremental:
            self.pos[a] = self.pos[a] + v
        else:
            self.pos[a] = v

    def _canned(self, name, params):
        normal = self.plane[2]
        loops = int(params.get('L', 1))
        for a in self.axes:
            if a == normal or a not in params:
                continue
            if self.incremental:
                self.pos[a] += params[a] * loops
            else:
                self.pos[a] = params[a]
        if self.name('canned_cycles_return') == 'G99':
            if self.incremental:
                self.pos[normal] += params['R']
            else:
                self.pos[normal] = params['R']

    def _range(self):
        p = self.abs_pos
        for a in self.axes:
            self.lo[a] = min(self.lo[a], p[a])
            self.hi[a] = max(self.hi[a], p[a])

    def state(self):
        """modal state that determines the shape of a move"""
        return (self.name('plane_selection') or 'G17', 'G91' if self.incremental else 'G90',
                'G90.1' if self.name('arc_ijk_distance') == 'G90.1' else 'G91.1',
                'G99' if self.name('canned_cycles_return') == 'G99' else 'G98')


# ---------------------------------------------------------------- numbers
def fmt(d):
    """canonical plain text of a Decimal"""
    s = '{0:f}'.format(d)
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return '0' if s in ('-0', '') else s


def milli(n):
    """Decimal of an integer number of thousandths"""
    return Decimal(n).scaleb(-3)
