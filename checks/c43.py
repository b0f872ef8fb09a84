"""C43: copies of words, positions, states, modes and blocks are equal and independent."""
from copy import copy, deepcopy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, Line, Machine, NullMachine, Mode, Comment, Position, State, M, G, U, wsig, gsig
from vlib import gens
from .c15 import full_snap, apply, change
from .c17 import block_snap

NAMES = gens.MODES + gens.STOPS + gens.RARE_MODES
KINDS = ['word', 'position', 'system', 'state', 'mode', 'block', 'line', 'gcode', 'machine', 'null machine', 'comment', 'modal copy']
op = st.tuples(st.integers(0, 9), st.integers(0, 8), st.integers(-99999, 99999)).map(list)
LETTERS = 'XYZABCUVW'


def pos_sig(p):
    return (sorted(p.axes), p.unit, dict(p.values), [str(w) for w in p.words])


class Kind(object):
    """how to make, change and look at something"""
    shallow = True     # copy() is independent


class KWord(Kind):
    def make(self, c):
        return Word('XYZFSIJK'[c['n'] % 8], c['v'] / 7000.)     # (more decimals than are printed)

    def change(self, w, o):
        w.value = o[2] / 7000.

    def look(self, w):
        return (wsig(w), str(w), hash(w), w.description)


class KPosition(Kind):
    def make(self, c):
        axes = ['XYZ', 'XYZABC', 'XYZABCUVW', 'XZ'][c['n'] % 4]
        return Position(axes=axes, unit=c['n'] % 2, **dict((a, c['v'] / 1000. + i) for (i, a) in enumerate(axes)))

    def change(self, p, o):
        axes = sorted(p.axes)
        a = axes[o[1] % len(axes)]
        if o[0] < 4:
            setattr(p, a, o[2] / 1000.)
        elif o[0] < 8:
            p.update(**{a: o[2] / 1000.})
        else:
            p.unit = 1 - p.unit

    look = staticmethod(pos_sig)


class KSystem(KPosition):
    def make(self, c):
        cs = M.CoordinateSystem(axes='XYZ' if c['n'] % 2 else None)
        cs.offset.update(X=c['v'] / 1000.)
        return cs

    def change(self, cs, o):
        KPosition.change(self, cs.offset, o)

    def look(self, cs):
        return (pos_sig(cs.offset), repr(cs))


class KState(KPosition):
    def make(self, c):
        s = State(axes='XYZ' if c['n'] % 2 else None)
        s.coord_systems[c['n'] % 9 + 1].offset.X = c['v'] / 1000.
        s.cur_coord_sys = c['n'] % 9 + 1
        return s

    def change(self, s, o):
        if o[0] < 4:
            KPosition.change(self, s.coord_systems[o[1] + 1].offset, o)
        elif o[0] < 7:
            KPosition.change(self, s.offset, o)
        else:
            s.cur_coord_sys = o[1] + 1

    def look(self, s):
        return (s.cur_coord_sys, pos_sig(s.offset), dict((k, pos_sig(v.offset)) for (k, v) in s.coord_systems.items()), pos_sig(s.coord_sys.offset), repr(s))


class KMode(Kind):
    def make(self, c):
        m = Mode(set_default=bool(c['n'] % 3))
        for x in gens.build(c['prog']).lines:
            m.set_mode(*Line(x.text).gcodes)
        return m

    def change(self, m, o):
        codes = ['G1', 'G81 X1 R2 Z-1', 'G18', 'G91', 'F20', 'S30', 'T4', 'M3', 'M8', 'G64 P0.5', 'G43 H2', 'G55']
        if o[0] < 3:
            m.set_mode(*Block(codes[o[2] % len(codes)]).gcodes)
        elif o[0] < 5:
            m.motion = None
        elif o[0] < 6:
            m.feed_rate = G.GCodeFeedRate(abs(o[2]))
        else:
            for g in m.gcodes:
                if g.word.letter in 'FS':
                    g.word.value = abs(o[2])
                for l in sorted(g.params):
                    setattr(g, l, o[2] / 1000.)

    def look(self, m):
        return (str(m), [gsig(g) for g in m.gcodes], repr(m))


def code_change(g, o):
    letters = sorted(g.params)
    if letters and o[0] < 6:
        letter = letters[o[1] % len(letters)]
        setattr(g, letter, abs(o[2]) // 1000 if letter in 'LT' else o[2] / 7000.)
    elif g.word.letter in 'FSN':
        g.word.value = abs(o[2])
    elif g.param_letters and o[0] >= 6:
        setattr(g, sorted(g.param_letters)[o[1] % len(g.param_letters)], abs(o[2]) // 1000)


class KGcode(Kind):
    shallow = False

    def make(self, c):
        codes = Block(gens.join_words(gens.soup_valid(c['soup']))).gcodes
        g = codes[c['n'] % len(codes)] if codes else G.GCodeLinearMove(X=c['v'])
        if c['n'] >= 25:    # one that prints without its word, as it's the same as the previous code's
            return list(U.omit_redundant_modes([g, deepcopy(g)]))[1]
        return g

    def change(self, g, o):
        code_change(g, o)

    def look(self, g):
        return (gsig(g), str(g), repr(g))


class KModalCopy(Kind):
    '''modal_copy() of a code with modal parameters only is an independent copy (in both modes of copying)'''
    CODES = ['G81 X1 Y2 R3 Z-1', 'G83 X1 Y2 R3 Z-1 Q0.5', 'G82 X1 R3 Z-1 P2', 'F100', 'S20', 'T3', 'G17', 'G54', 'G43 H3', 'G64 P0.1 Q0.2', 'G73 X1 Z-2 R1 Q1', 'G1']

    def make(self, c):
        return Block(self.CODES[c['n'] % len(self.CODES)]).gcodes[-1].modal_copy()

    def change(self, g, o):
        letters = sorted(set(g.params) & set(g.modal_param_letters))
        if letters:
            setattr(g, letters[o[1] % len(letters)], o[2] / 7000.)
        elif g.word.letter in 'FSN':
            g.word.value = abs(o[2])

    def look(self, g):
        return (gsig(g), str(g), repr(g))


class KBlock(Kind):
    shallow = False

    def make(self, c):
        return Block(gens.join_words(gens.soup_valid(c['soup'])))

    def change(self, b, o):
        if o[0] < 5 and b.gcodes:
            code_change(b.gcodes[o[1] % len(b.gcodes)], o)
        elif o[0] < 7 and b.modal_params:
            b.modal_params.pop(o[1] % len(b.modal_params))
        elif o[0] < 8:
            b.gcodes.append(G.GCodeLinearMove(X=o[2]))
        elif b.words:
            b.words.pop()

    def look(self, b):
        return (block_snap(b), b.text, len(b), bool(b), b.dialect, b.X and wsig(b.X), b.G and wsig(b.G))


class KLine(KBlock):
    def make(self, c):
        (text, _, _, _) = gens.decorate(gens.soup_valid(c['soup']), 0, c['comments'])
        return Line(text)

    def change(self, line, o):
        if o[0] < 8:
            KBlock.change(self, line.block, o)
        elif o[0] < 9:
            line.comment = Comment('(changed)')
        else:
            line.macro = '%changed%'

    def look(self, line):
        return (KBlock.look(self, line.block), str(line), line.text, line.comment and (str(line.comment), line.comment.text), line.macro)


class KComment(Kind):
    def make(self, c):
        return Comment(['(text %d)', ';text %d'][c['n'] % 2] % c['v'])

    def change(self, x, o):
        pass

    def look(self, x):
        return (str(x), x.text, repr(x), type(x))


class KMachine(Kind):
    cls = Machine

    def make(self, c):
        m = self.cls()
        for x in gens.build(c['prog'], default=self.cls is Machine).lines:
            m.process_block(Line(x.text).block)
        return m

    def change(self, m, o):
        if o[0] < 6:
            apply(m, [o[0], o[1], 'XYZ'[o[1] % 3], o[2]])
        else:
            apply(m, ['G1 X%d' % o[2], 'G55 G0 Y%d' % o[1], 'G91 G1 Z%d' % o[1], 'F%d M3' % o[1]][o[0] - 6])

    def look(self, m):
        return full_snap(m)


class KNull(KMachine):
    cls = NullMachine


THINGS = dict(zip(KINDS, [KWord(), KPosition(), KSystem(), KState(), KMode(), KBlock(), KLine(), KGcode(), KMachine(), KNull(), KComment(), KModalCopy()]))


def run(c, ctx):
    (kind, n, v, prog, soup, comments, ops, deep) = c
    k = THINGS[kind]
    case = {'n': n, 'v': v, 'prog': prog, 'soup': soup, 'comments': comments}
    n_before = len(ops) // 3
    cp = (lambda g: g.modal_copy()) if kind == 'modal copy' else (deepcopy if deep else copy)
    what = "%s of a %s" % ('deep copy' if deep else 'copy', kind)
    ctx.label(kind, 'deep' if deep else 'shallow')

    def fresh(seq):
        x = k.make(case)
        for o in seq:
            k.change(x, o)
        return x

    head = [o[1:] for o in ops[:n_before]]
    a = fresh(head)
    want = k.look(fresh(head))
    ctx.eq(k.look(a), want, kind)
    b = cp(a)
    ctx.check(type(b) is type(a) and b is not a, "%s is %r", what, b)
    ctx.eq(k.look(b), want, what)
    ctx.eq(k.look(a), want, "%s that was copied" % kind)
    if kind in ('word', 'position', 'gcode', 'modal copy'):
        ctx.check(a == b and not (a != b), "%s is not equal to it", what)
    third = cp(b)
    ctx.trivial = not ops[n_before:] or kind == 'comment'
    if not (deep or k.shallow):
        return
    seqs = {0: list(head), 1: list(head)}
    for o in ops[n_before:]:
        who = o[0]
        k.change([a, b][who], o[1:])
        seqs[who].append(o[1:])
        if who == 0:
            ctx.eq(k.look(b), k.look(fresh(seqs[1])), "%s after the original changed by %r" % (what, o))
        else:
            ctx.eq(k.look(a), k.look(fresh(seqs[0])), "%s, after its copy changed by %r" % (kind, o))
    ctx.eq(k.look(a), k.look(fresh(seqs[0])), "original %s, at the end" % kind)
    ctx.eq(k.look(b), k.look(fresh(seqs[1])), "%s, at the end" % what)
    ctx.eq(k.look(third), want, "copy of the copy of a %s" % kind)


ops = st.lists(st.tuples(st.integers(0, 1), st.integers(0, 9), st.integers(0, 8), st.integers(-99999, 99999)).map(list), max_size=8)
PROPERTY = Property(
    'C43', "Words, positions, coordinate systems, states, modes, codes, blocks, lines, comments and machines (and modal_copy() of codes), changed in random ways, copied (copy or deepcopy), "
    "then original and copy changed in turn; each compared with a new object given its own changes only. Non-trivial: changed after the copy.",
    [Test('copy', st.tuples(st.sampled_from(KINDS), st.integers(0, 40), st.integers(-99999, 99999), gens.program(NAMES, max_lines=3, with_comments=False), gens.soup, gens.comments, ops, st.booleans()).map(list), run, quick=5000)],
    ["copy() of a code, block or line is only claimed to be equal to it (they share their parameters, as copies of lists do)"],
)
