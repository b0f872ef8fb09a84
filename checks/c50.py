"""C50: looking at things never changes them, nor what is done with them later."""
from copy import copy, deepcopy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import (subclasses, Word, Block, Line, Machine, NullMachine, Position, Comment, G, M, W, U, machine_class, wsig, gsig, mode_sig)
from vlib import gens, ref
from .c15 import snap
from .c17 import block_snap
from .c43 import pos_sig

NAMES = gens.MODES + gens.NONMODAL + gens.STOPS + gens.RARE_MODES + ['G43', 'G99', 'G91']
MOTION = G.MODAL_GROUP_MAP['motion']
GROUPS = sorted(G.MODAL_GROUP_MAP)
AX = {0: Machine, 1: machine_class('XYZABC'), 2: machine_class('XYZABCUVW'), 3: NullMachine, 4: machine_class('XYZ', 'G20 G17 G90 G0 G54')}
LETTERS = 'XYZABCUVWIJKRPQLSTFDHENGMO'


HAND = [G.GCodeDrillingCycle, G.GCodeDrillingCyclePeck, G.GCodeBoringCycleFeedOut, G.GCodeArcMoveCW, G.GCodeLinearMove, G.GCodeCublcSpline, G.GCodeNURBS]


class Env(object):
    def __init__(self, m, line, last):
        self.m = m
        self.line = line            # about to be processed
        self.block = line.block
        self.codes = line.block.gcodes
        self.last = last            # line processed before (or this one)
        # codes that print without their word
        self.blanked = [g for g in U.omit_redundant_modes(deepcopy([c for c in last.block.gcodes for _ in (0, 1) if c.modal_group == MOTION and not isinstance(c, G.GCodeCannedCycle)]))]
        self.few = [Position('XA', X=1.5), Position('XA', A=2), Position('UVW', unit=M.UNIT_IMPERIAL, U=1), Position('UVW', W=-3), Position('Z', Z=4), Position('Z')]
        self.other = Position(axes=m.axes, unit=m.abs_pos.unit, **dict((a, i + .5) for (i, a) in enumerate(sorted(m.axes))))

    def look(self):
        return (snap(self.m), block_snap(self.block), block_snap(self.last.block), pos_sig(self.other), [(pos_sig(p), p == self.few[i ^ 1], len(vars(p)['_value'])) for (i, p) in enumerate(self.few)], str(self.line), str(self.last),
                self.line.text, str(self.line.comment), self.line.macro, [gsig(g) for g in self.codes],
                [(str(g), sorted(g.params)) for g in self.codes + self.blanked], [wsig(w) for w in self.block.words])


def code(e, n):
    every = e.codes + e.m.mode.gcodes + e.last.block.gcodes + e.blanked
    return every[n % len(every)] if every else G.GCodeRapidMove(X=n)


def word(e, n):
    every = e.block.words + e.last.block.words
    return every[n % len(every)] if every else Word('X', n)


def pos(e, n):
    return [e.m.abs_pos, e.m.abs_range_min, e.m.abs_range_max, e.m.state.offset, e.other, e.m.state.coord_systems[n % 9 + 1].offset][n % 6]


def codes_sig(gs):
    return [(gsig(g), str(g)) for g in gs]


def attr(g, l):
    try:
        return getattr(g, l)
    except AttributeError:
        return 'no attribute'


# what a user may look at; each gives plain values
LOOKS = [
    ('texts of the machine', lambda e, a, b: (str(e.m.mode), repr(e.m.mode), repr(e.m.state), repr(e.m.abs_pos), repr(e.m.pos))),
    ('groups of the mode', lambda e, a, b: [(g, None if getattr(e.m.mode, g) is None else gsig(getattr(e.m.mode, g))) for g in GROUPS[a % len(GROUPS):] + GROUPS]),
    ('codes of the mode', lambda e, a, b: codes_sig(e.m.mode.gcodes)),
    ('position of the machine', lambda e, a, b: (pos_sig(e.m.pos), pos_sig(e.m.abs_pos))),
    ('current system', lambda e, a, b: repr(e.m.state.coord_sys)),
    ('conversions', lambda e, a, b: (pos_sig(e.m.abs2work(pos(e, 0))), pos_sig(e.m.work2abs(e.m.pos)), pos_sig(e.m.abs2work(e.other)), pos_sig(e.m.work2abs(e.other)))),
    ('modal codes of the block', lambda e, a, b: codes_sig(e.m.block_modal_gcodes(e.block))),
    ('modal code', lambda e, a, b: (lambda g: g and (gsig(g), str(g)))(e.m.modal_gcode(e.block.modal_params))),
    ('a position', lambda e, a, b: (repr(pos(e, a)), pos(e, a).unit, pos(e, a).vector.xyz, [wsig(w) for w in pos(e, a).words], sorted(pos(e, a).values.items()))),
    ('arithmetic', lambda e, a, b: [pos_sig(p) for p in (pos(e, a) + pos(e, b), pos(e, a) - pos(e, b), pos(e, a) * 2, pos(e, a) / 4)]),
    ('arithmetic of few axes', lambda e, a, b: [pos_sig(p) for (x, y) in [(e.few[a % 6], e.few[a % 6 ^ 1])] for p in (x + y, x - y, x * 2, x / 4, Position.min(x, y), Position.max(y, x))]
        + [repr(e.few[b % 6]), e.few[b % 6].vector.xyz, [attr(e.few[b % 6], l) for l in 'XYZABCUVW']]),
    ('comparing positions', lambda e, a, b: (pos(e, a) == pos(e, b), pos(e, a) != pos(e, b), pos(e, a) == e.other)),
    ('smallest and largest', lambda e, a, b: (pos_sig(Position.min(pos(e, a), pos(e, b))), pos_sig(Position.max(pos(e, a), pos(e, b))))),
    ('axes of a position', lambda e, a, b: [attr(pos(e, a), l) for l in 'XYZABCUVW']),
    ('texts of a code', lambda e, a, b: (str(code(e, a)), repr(code(e, a)), code(e, a).description)),
    ('parameters of a code', lambda e, a, b: [attr(code(e, a), l) for l in LETTERS]),
    ('parameters as dict', lambda e, a, b: (code(e, a).get_param_dict(), code(e, a).get_param_dict('XYZ', lc=True), code(e, a).get_param_dict(letters=[]))),
    ('modal copy', lambda e, a, b: gsig(code(e, a).modal_copy())),
    ('comparing codes', lambda e, a, b: (code(e, a) == code(e, b), code(e, a) != code(e, b), code(e, a) < code(e, b), code(e, a) <= code(e, b),
                                         code(e, a) > code(e, b), code(e, a) >= code(e, b))),
    ('sorting codes', lambda e, a, b: codes_sig(sorted(e.codes + e.m.mode.gcodes))),
    ('texts of a word', lambda e, a, b: (str(word(e, a)), repr(word(e, a)), word(e, a).description, word(e, a).value_str, word(e, a).value)),
    ('comparing words', lambda e, a, b: (word(e, a) == word(e, b), word(e, a) != word(e, b), hash(word(e, a)) == hash(word(e, b)), word(e, a) == str(word(e, a)))),
    ('sorting words', lambda e, a, b: [wsig(w) for w in sorted((w for w in e.block.words if w.letter == 'X'))]),
    ('words as dict', lambda e, a, b: sorted(W.words2dict(e.block.words, limit_word_letters='XYZF' if a % 2 else None).items())),
    ('words to codes', lambda e, a, b: [codes_sig(x) if i == 0 else [wsig(w) for w in x] for (i, x) in enumerate(G.words2gcodes(e.block.words))]),
    ('texts of the block', lambda e, a, b: (str(e.block), e.block.text, len(e.block), bool(e.block))),
    ('letters of the block', lambda e, a, b: [(lambda w: w and wsig(w))(getattr(e.block, l)) for l in LETTERS]),
    ('texts of the line', lambda e, a, b: (str(e.line), e.line.text, codes_sig(e.line.gcodes), e.line.macro, str(e.line.comment), repr(e.line.comment))),
    ('splitting', lambda e, a, b: [codes_sig(p) for p in G.split_gcodes(e.codes, type(code(e, a)), sort_list=bool(b % 2))]),
    ('copies', lambda e, a, b: (snap(copy(e.m)), mode_sig(copy(e.m.mode)), pos_sig(copy(pos(e, a))), repr(copy(e.m.state)), gsig(deepcopy(code(e, a))), str(deepcopy(e.line)))),
    ('class of a word', lambda e, a, b: (lambda k: k and k.__name__)(G.word_gcode_class(word(e, a), exhaustive=bool(b % 2)))),
    ('omitting redundant words', lambda e, a, b: [str(g) for g in U.omit_redundant_modes(iter([g for g in e.codes if not isinstance(g, G.GCodeCannedCycle)]))]),
    ('parsing it again', lambda e, a, b: (str(Line(str(e.line))), str(Block(e.block.text)))),
]


def run(c, ctx):
    (kind, prog, looks, offs) = c[:4]
    cls = AX[kind]
    b = gens.build(prog, axes=''.join(sorted(cls.axes)), default=kind != 3)
    (m, alone) = (cls(), cls())
    for x in (m, alone):
        for (i, (sysno, axis, v)) in enumerate(offs):
            target = x.state.offset if sysno == 9 else x.state.coord_systems[sysno + 1].offset
            axes = sorted(x.axes)
            target.update(**{axes[axis % len(axes)]: v / 1000.})
    if len(c) > 4 and c[4] is not None and not prog[0][0]:
        # a motion mode set by hand, with nothing retained
        for x in (m, alone):
            x.mode.motion = HAND[c[4]]()
        b.lines = b.lines[:1]
        ctx.label('hand-set motion')
    last = Line('')
    used = set()
    for (i, x) in enumerate(b.lines):
        line = Line(x.text)
        e = Env(m, line, last)
        before = e.look()
        what = "before line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        for (k, p, q) in looks[i::max(len(b.lines), 1)]:
            (name, fn) = LOOKS[k]
            r = fn(e, p, q)
            ctx.eq(e.look(), before, "everything, after looking at: %s (%d, %d) %s" % (name, p, q, what))
            ctx.eq(fn(e, p, q), r, "looking twice at: %s (%d, %d) %s" % (name, p, q, what))
            used.add(name)
        m.process_block(line.block)
        alone.process_block(Line(x.text).block)
        ctx.eq(snap(m), snap(alone), "the machine that was looked at, against one that was not, after line %d of %r" % (i + 1, [y.text for y in b.lines]))
        last = line
    ctx.label(*sorted(used))
    ctx.trivial = not used


# ---------------------------------------------------------------- what is looked at while it's being changed
OWN = [G.GCodeLinearMove, G.GCodeRapidMove, G.GCodeArcMoveCW, G.GCodeDrillingCyclePeck, G.GCodeFeedRate, G.GCodeToolLengthOffset, G.GCodeSelectTool, G.GCodeSpindleSpeed, G.GCodeDwell, G.GCodeStartSpindleCW]
MODAL = dict((g, [c for c in subclasses(G.GCode) if c.modal_group == n and c.word_key is not None and c is not G.GCodeThreadingCycle]) for (g, n) in G.MODAL_GROUP_MAP.items())


class Bench(object):
    """things a user has made, and changes by hand"""
    def __init__(self, kind, letters):
        cls = AX[kind]
        self.m = cls()
        self.block = Block()
        self.line = Line()
        self.line.block = Block()
        self.code = OWN[letters % len(OWN)](*([5] if OWN[letters % len(OWN)].word_value_configurable else []))
        self.word = Word('XFLTGS'[letters % 6], 1)
        self.comment = Comment('first')
        self.pos = Position('XYZA', X=1.5)

    def edit(self, op, a, v):
        axes = sorted(self.m.axes)
        x = v / 1000.0
        if op == 0:
            self.m.state.offset.update(**{axes[a % len(axes)]: x})
        elif op == 1:
            self.m.state.coord_systems[abs(v) % 9 + 1].offset.update(**{axes[a % len(axes)]: x})
        elif op == 2:
            self.m.state.cur_coord_sys = abs(v) % 9 + 1
        elif op == 3:
            self.m.abs_pos.update(**{axes[a % len(axes)]: x})
        elif op == 4:
            self.m.pos = self.m.Position(**{axes[a % len(axes)]: x})
        elif op == 5:
            (g, cs) = sorted(MODAL.items())[a % len(MODAL)]
            setattr(self.m.mode, g, None if not cs or v % 5 == 0 else cs[abs(v) % len(cs)]())
        elif op == 6:
            gs = self.m.mode.gcodes
            # (any of them, or one with a value)
            gs = [g for g in gs if g.word.letter in 'FS' or isinstance(g, G.GCodeCannedCycle)] if a % 2 else gs
            for g in gs[a // 2 % max(len(gs), 1):][:1]:
                if g.word.letter in 'FS':
                    g.word.value = abs(x)
                elif isinstance(g, G.GCodeCannedCycle):
                    setattr(g, 'XYZR'[a % 4], x)
        elif op == 7:
            self.block.gcodes.append(OWN[a % len(OWN)](*([abs(v) % 90] if OWN[a % len(OWN)].word_value_configurable else [])))
        elif op == 8:
            self.block.modal_params.append(Word('XYZ'[a % 3], x))
        elif op == 9:
            self.block.words.append(Word('XYZ'[a % 3], x))
        elif op == 10:
            for g in self.block.gcodes[:1]:
                for l in sorted(g.param_letters)[a % 5:a % 5 + 1]:
                    setattr(g, l, int(abs(x)) if l in 'LT' else x)
        elif op == 11:
            del self.block.gcodes[a % 3:]
        elif op == 12:
            self.line.block = [Block('G1 X%.3f' % x), self.block, Block()][a % 3]
        elif op == 13:
            self.line.comment = [self.comment, None, Comment('c%d' % v)][a % 3]
        elif op == 14:
            self.line.macro = [None, '%m%', '%%%d%%' % v][a % 3]
        elif op == 15:
            self.comment.text = 'c%d' % v
        elif op == 16:
            for l in sorted(self.code.param_letters)[a % 9:a % 9 + 1]:
                setattr(self.code, l, int(abs(x)) if l in 'LT' else x)
        elif op == 17:
            self.code.word.value = abs(v) % 99
        elif op == 18:
            for l in sorted(self.code.params)[a % 3:a % 3 + 1]:
                del self.code.params[l]
        elif op == 19:
            self.word.value = abs(v) % 99
        elif op == 20:
            self.word.letter = 'XYZF'[a % 4] if self.word.letter in 'XYZFS' else self.word.letter
        elif op == 21:
            setattr(self.pos, 'XYZA'[a % 4], x)
        elif op == 22:
            self.pos.unit = [M.UNIT_METRIC, M.UNIT_IMPERIAL][a % 2]
        elif op == 25:
            del self.block.words[a % 3:]
        elif op == 26:
            for (i, w) in enumerate(self.block.words):
                if w.letter == 'XYZ'[a % 3]:
                    self.block.words[i] = Word(w.letter, x)
        elif op == 27:
            self.block.words = [Word('XYZG'[a % 4], abs(v) % 3)]
        elif op == 28:
            self.block.modal_params = [Word('XYZ'[a % 3], x)]
        elif op == 24:
            self.m.process_gcodes([G.GCodeDrillingCycle, G.GCodeDrillingCyclePeck][a % 2](X=x, R=1, Z=-1))
        elif op == 23:
            self.m.axes = set(self.m.axes)
            self.m.process_gcodes(self.code) if not isinstance(self.code, G.GCodeCannedCycle) else self.m.process_gcodes(G.GCodeLinearMove(X=x))

    def look(self, n=None):
        """everything, or the nth thing"""
        every = [
            lambda: snap(self.m), lambda: (str(self.m.mode), repr(self.m.mode)), lambda: codes_sig(self.m.mode.gcodes), lambda: pos_sig(self.m.pos), lambda: repr(self.m.state.coord_sys),
            lambda: pos_sig(self.m.work2abs(self.m.pos)), lambda: codes_sig(self.m.block_modal_gcodes(self.block)) if self.m.mode.motion and not self.block.modal_params else None,
            lambda: str(self.block), lambda: self.block.text, lambda: (len(self.block), bool(self.block)), lambda: [(lambda w: w and wsig(w))(getattr(self.block, l)) for l in 'XYZG'],
            lambda: self.line.text, lambda: str(self.line), lambda: (codes_sig(self.line.gcodes), repr(self.line.comment), self.line.macro),
            lambda: (str(self.code), repr(self.code), self.code.description, [attr(self.code, l) for l in LETTERS]), lambda: (gsig(self.code), self.code.get_param_dict(), gsig(self.code.modal_copy())),
            lambda: (str(self.word), repr(self.word), self.word.value_str, self.word.description), lambda: hash(self.word) == hash(Word(self.word.letter, self.word.value)),
            lambda: (str(self.comment), repr(self.comment)),
            lambda: (repr(self.pos), pos_sig(self.pos), [wsig(w) for w in self.pos.words], self.pos.vector.xyz), lambda: [pos_sig(p) for p in (self.pos * 2, self.pos + self.pos, Position.max(self.pos, Position('XYZA', Y=1)))],
            lambda: self.pos == Position('XYZA', X=1.5), lambda: (snap(copy(self.m)), str(deepcopy(self.block)), str(deepcopy(self.line)), str(copy(self.code)), str(copy(self.word)), pos_sig(copy(self.pos))),
        ]
        if n is not None:
            return every[n % len(every)]()
        return [f() for f in every]


def run_bench(c, ctx):
    (kind, letters, ops, looks) = c
    (seen, alone) = (Bench(kind, letters), Bench(kind, letters))
    for (i, (op, a, v)) in enumerate(ops):
        for n in looks[i % 3::2]:
            seen.look(n)
        seen.edit(op, a, v)
        alone.edit(op, a, v)
        ctx.label('edit %d' % op)
    (x, y) = (seen.look(), alone.look())
    for (k, (p, q)) in enumerate(zip(x, y)):
        ctx.eq(p, q, "look %d at things looked at before (%s), against things never looked at, after the same changes %s" % (k, looks, ops))
    ctx.eq(seen.look(), x, "looking again, after changes %s" % ops)
    fresh = Bench(kind, letters)
    for (op, a, v) in ops:
        fresh.edit(op, a, v)
    for n in reversed(range(len(y))):
        ctx.eq(fresh.look(n), y[n], "look %d, the last one first, after changes %s" % (n, ops))


# ---------------------------------------------------------------- what looking returned is one's own
def scribble(r, v, words=True):
    """change all of it"""
    if isinstance(r, Position):
        for a in sorted(r.axes):
            setattr(r, a, v)
        r.unit = 1 - r.unit
        r.axes.clear()
    elif isinstance(r, dict):
        for k in list(r):
            r[k] = v
        r['new'] = v
    elif isinstance(r, list):
        del r[:]
        r += [v, v]
    elif isinstance(r, G.GCode):
        r.word.value = abs(v) % 90
        for w in r.params.values():
            w.value = abs(v)
        r.params.clear()
    elif isinstance(r, Word):
        r.value = abs(v) % 90
    elif isinstance(r, tuple):
        for x in r:
            scribble(x, v)


def modal_made(e):
    """the code made of words given for it"""
    g = e.m.modal_gcode([copy(w) for w in e.block.modal_params])
    return () if g is None else (g,)


TAKES = [
    ('values of a position', lambda e, a, b: pos(e, a).values),
    ('words of a position', lambda e, a, b: tuple(pos(e, a).words)),
    ('list of words of a position', lambda e, a, b: pos(e, a).words),
    ('position of the machine', lambda e, a, b: e.m.pos),
    ('work position', lambda e, a, b: (e.m.abs2work(pos(e, a)), e.m.work2abs(e.other), e.m.abs2work(e.other))),
    ('arithmetic', lambda e, a, b: (pos(e, a) + pos(e, b), pos(e, a) - pos(e, b), pos(e, a) * 1, pos(e, a) / 1, pos(e, a) - e.m.Position(axes=e.m.axes, unit=pos(e, a).unit))),
    ('smallest and largest', lambda e, a, b: (Position.min(pos(e, a), pos(e, b)), Position.max(pos(e, a), pos(e, b)), Position.min(pos(e, a), pos(e, a)))),
    ('copies', lambda e, a, b: (copy(pos(e, a)), deepcopy(code(e, a)), copy(word(e, b)), copy(e.m).abs_pos, copy(e.m.state).offset, copy(e.m.state).coord_systems[b % 9 + 1].offset)),
    ('codes of a copied mode', lambda e, a, b: tuple(copy(e.m.mode).gcodes)),
    ('codes of a copied machine', lambda e, a, b: tuple(copy(e.m).mode.gcodes)),
    ('list of codes of the mode', lambda e, a, b: e.m.mode.gcodes),
    ('parameters as dict', lambda e, a, b: (code(e, a).get_param_dict(), code(e, b).get_param_dict('XYZ', lc=True))),
    ('modal copy', lambda e, a, b: code(e, a).modal_copy()),
    ('modal code', lambda e, a, b: modal_made(e)),
    ('list of modal codes of the block', lambda e, a, b: e.m.block_modal_gcodes(e.block)),
    ('parts of a split', lambda e, a, b: tuple(list(G.split_gcodes(e.codes, type(code(e, a)))))),
    ('words as dict', lambda e, a, b: W.words2dict(e.block.words)),
    ('another code made of a text', lambda e, a, b: tuple(Block(str(e.block)).gcodes) + tuple(Line(e.line.text).block.words)),
    ('default word', lambda e, a, b: type(code(e, a))() if type(code(e, a)).word_key is not None or type(code(e, a)).default_word is not None else ()),
]


def run_taken(c, ctx):
    (kind, prog, takes, offs) = c
    cls = AX[kind]
    b = gens.build(prog, axes=''.join(sorted(cls.axes)), default=kind != 3)
    (m, alone) = (cls(), cls())
    for x in (m, alone):
        for (i, (sysno, axis, v)) in enumerate(offs):
            target = x.state.offset if sysno == 9 else x.state.coord_systems[sysno + 1].offset
            axes = sorted(x.axes)
            target.update(**{axes[axis % len(axes)]: v / 1000.})
    last = Line('')
    for (i, x) in enumerate(b.lines):
        line = Line(x.text)
        e = Env(m, line, last)
        before = e.look()
        what = "before line %d %r of %r" % (i + 1, x.text, [y.text for y in b.lines])
        for (k, p, q, v) in takes[i::max(len(b.lines), 1)]:
            (name, fn) = TAKES[k]
            r = fn(e, p, q)
            scribble(r, v)
            ctx.eq(e.look(), before, "everything, after changing what was returned: %s (%d, %d) %s" % (name, p, q, what))
            ctx.label(name)
        m.process_block(line.block)
        alone.process_block(Line(x.text).block)
        ctx.eq(snap(m), snap(alone), "the machine that was looked at, against one that was not, after line %d of %r" % (i + 1, [y.text for y in b.lines]))
        last = line
    ctx.trivial = not takes


PROPERTY = Property(
    'C50', "Random programs on five kinds of machines, with random offsets; before each line, some of 33 ways to look at machine, mode, state, positions, "
    "codes, words, block and line (texts, attributes, comparisons, sorting, arithmetic, conversions, copies, splitting): each twice with the same result, "
    "everything observable as before, and the machine like one nobody looked at. Also machines, modes, blocks, lines, codes, words, comments and positions "
    "changed by hand in random ways (29) and looked at (23 ways) in between, against the same never looked at; and what looking returned (19 ways) being changed. Non-trivial: something was looked at.",
    [Test('look', st.tuples(
        st.sampled_from([0, 0, 1, 2, 3, 4]), gens.program(NAMES, min_lines=1, max_lines=6),
        st.lists(st.tuples(st.integers(0, len(LOOKS) - 1), st.integers(0, 50), st.integers(0, 50)).map(list), min_size=1, max_size=20),
        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 8), gens.small).map(list), max_size=3), st.one_of(st.none(), st.integers(0, len(HAND) - 1))).map(list), run, quick=2500),
     Test('changed', st.tuples(st.sampled_from([0, 0, 1, 2, 4]), st.integers(0, 59), st.lists(st.tuples(st.integers(0, 28), st.integers(0, 50), st.integers(-9999, 9999)).map(list), min_size=1, max_size=8),
                               st.lists(st.integers(0, 22), min_size=1, max_size=8)).map(list), run_bench, quick=2500),
     Test('taken', st.tuples(
        st.sampled_from([0, 0, 1, 2, 3, 4]), gens.program(NAMES, min_lines=1, max_lines=6),
        st.lists(st.tuples(st.integers(0, len(TAKES) - 1), st.integers(0, 50), st.integers(0, 50), st.integers(-99, 99)).map(list), min_size=1, max_size=20),
        st.lists(st.tuples(st.integers(0, 9), st.integers(0, 8), gens.small).map(list), max_size=3)).map(list), run_taken, quick=2000)],
)
