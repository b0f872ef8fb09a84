"""C53: what a text means depends on the text alone, and everything read is the reader's own."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import subclasses, Word, Block, Line, Machine, G, M, W, U, gsig, wsig, mode_sig, machine_class, GCodeWordStrError, GCodeParameterError, MachineInvalidState, MachineInvalidAxis
from vlib import gens, ref, fresh
from pygcode.gcodes import text2gcodes, words2gcodes
from pygcode.comment import split_line
from .c42 import malformed, KINDS as TYPOS
from .c51 import CONFLICTS, UNASSIGNED

READERS = ['Line', 'Block', 'Block unverified', 'text2words', 'text2gcodes', 'words2gcodes', 'split_line', 'str2word', 'Word', 'half of text2words']
REFUSED = (GCodeWordStrError, GCodeParameterError, AssertionError)
Ignoring = machine_class('XYZ', ignore=True)


def bsig(b):
    return ([(gsig(g), str(g)) for g in b.gcodes], [wsig(w) for w in b.modal_params], [wsig(w) for w in b.words], str(b), b.text, len(b), bool(b))


def tsig(t):
    return None if t is None else (type(t).__name__, t.text, str(t))


def read(kind, text):
    """:return: (object read or None, its meaning)"""
    try:
        if kind == 'Line':
            o = Line(text)
            return (o, (bsig(o.block), tsig(o.comment), o.macro, str(o), o.text))
        if kind.startswith('Block'):
            o = Block(text, verify=kind == 'Block')
            return (o, bsig(o))
        if kind == 'text2words':
            o = list(W.text2words(text))
            return (o, [(wsig(w), str(w)) for w in o])
        if kind == 'half of text2words':
            it = W.text2words(text)
            o = [w for (w, _) in zip(it, range(2))]
            return (o, [(wsig(w), str(w)) for w in o])
        if kind == 'text2gcodes':
            o = text2gcodes(text)
            return (o, [(gsig(g), str(g)) for g in o])
        if kind == 'words2gcodes':
            o = words2gcodes(list(W.text2words(text)))
            return (o, ([(gsig(g), str(g)) for g in o[0]], [wsig(w) for w in o[1]]))
        if kind == 'split_line':
            o = split_line(text)
            return (o, (o[0], tsig(o[1])))
        first = text.split(' ')[0]
        o = W.str2word(text if kind == 'str2word' else first) if kind == 'str2word' else Word(first or 'X1')
        return (o, None if o is None else (wsig(o), str(o), o.description))
    except REFUSED as e:
        return (None, ('refused', type(e).__name__, str(e)))
    except (ValueError, KeyError) as e:     # Word('?')
        if kind != 'Word':
            raise
        return (None, ('refused', type(e).__name__))


def meaning(kind, o, was):
    """the meaning of what was read before"""
    if o is None:
        return was
    if kind == 'Line':
        return (bsig(o.block), tsig(o.comment), o.macro, str(o), o.text)
    if kind.startswith('Block'):
        return bsig(o)
    if kind.endswith('text2words'):
        return [(wsig(w), str(w)) for w in o]
    if kind == 'text2gcodes':
        return [(gsig(g), str(g)) for g in o]
    if kind == 'words2gcodes':
        return ([(gsig(g), str(g)) for g in o[0]], [wsig(w) for w in o[1]])
    if kind == 'split_line':
        return (o[0], tsig(o[1]))
    return (wsig(o), str(o), o.description)


def parts(kind, o):
    """(codes, words, blocks, lists, comment)"""
    if kind == 'Line':
        return (o.block.gcodes, o.block.modal_params + o.block.words, [o.block], [o.block.gcodes, o.block.modal_params, o.block.words], o.comment)
    if kind.startswith('Block'):
        return (o.gcodes, o.modal_params + o.words, [o], [o.gcodes, o.modal_params, o.words], None)
    if kind.endswith('text2words'):
        return ([], o, [], [o], None)
    if kind == 'text2gcodes':
        return (o, [g.word for g in o] + [w for g in o for w in g.params.values()], [], [o], None)
    if kind == 'words2gcodes':
        return (o[0], o[1], [], list(o), None)
    if kind == 'split_line':
        return ([], [], [], [], o[1])
    return ([], [o], [], [], None)


def abuse(how, v, kind, o):
    """change what was read, as its owner may"""
    (codes, words, blocks, lists, comment) = parts(kind, o)
    if how == 0:
        for w in words:
            w.value = abs(v) % 1000
    elif how == 1:
        for g in codes:
            g.word.value = abs(v) % 90
            for w in g.params.values():
                w.value = abs(v) % 77
    elif how == 2:
        for g in codes:
            for l in sorted(g.param_letters)[:3]:
                setattr(g, l, abs(v) % 50)
    elif how == 3:
        for g in codes:
            g.params.clear()
        for l in lists:
            del l[:]
    elif how == 4:
        for b in blocks:
            if any(w.letter == 'L' and w.value > 1000 for w in words):
                continue    # a machine would make every one of the repeats
            m = (Ignoring if v % 2 else Machine)()
            try:
                m.process_str(['G1', 'G80', 'G2', 'G81 R1 Z-1'][v % 4])
                m.clean_block(b)
                m.process_block(b)
                m.clean_block(b)
                for g in m.mode.gcodes:
                    g.word.value = 9
                    for w in g.params.values():
                        w.value = 5
            except (MachineInvalidState, MachineInvalidAxis) + REFUSED:
                pass
    elif how == 5:
        for l in lists:
            l.reverse()
            l.extend(l[:1])
        if comment is not None:
            comment.text = 'changed'
    elif how == 6:
        if kind == 'Line':
            o.macro = '%changed%'
            o.comment = None
            o.block = Block('G3 X7')
        for b in blocks:
            b.gcodes = []
            b.modal_params = []
    else:
        for g in U.omit_redundant_modes(iter([g for g in codes if not isinstance(g, G.GCodeCannedCycle)])):
            g._whitespace_prefix = True
        for g in codes:
            for k in sorted(g.params):
                del g.params[k]


def texts(specs):
    out = []
    for s in specs:
        if s[0] == 0:
            out.append(gens.decorate(gens.soup_valid(s[1]), s[2], s[3])[0])
        elif s[0] == 1:
            out.append(gens.join_words(gens.soup_words(s[1]), s[2]).rstrip('\n'))
        elif s[0] == 2:
            out.append('XYZFSRPGMNL'[s[1] % 11] + malformed(s[2], 'XYZFSRPGMNL'[s[1] % 11], s[3], s[4]))
        elif s[0] == 3:
            out.append((CONFLICTS + UNASSIGNED)[s[1] % len(CONFLICTS + UNASSIGNED)])
        else:
            # one that reads almost like another: the next value, or another letter, or case, or layout
            out.append(('G1 X%d.%d Y%d' % (s[1], s[2], s[1])).replace(' ', ['', ' ', '  '][s[2] % 3]))
    return out


def run(c, ctx):
    (specs, order) = c
    ts = texts(specs)
    first = {}
    held = []
    again = 0
    for (i, k, how, v) in order:
        text = ts[i % len(ts)]
        kind = READERS[k % len(READERS)]
        (o, m) = read(kind, text)
        what = "%s of %r (history %r)" % (kind, text, [(ts[a % len(ts)], READERS[b % len(READERS)], h) for (a, b, h, _) in order])
        if (kind, text) in first:
            again += 1
            ctx.eq(m, first[(kind, text)], "meaning, read again, of " + what)
        first[(kind, text)] = m
        ctx.label(kind, 'refused' if o is None and m and m[0] == 'refused' else 'read')
        if o is not None and how < 8:
            ctx.label('change %d' % how)
            abuse(how, v, kind, o)
        elif o is not None:
            held.append((kind, text, o, m))
        for (k2, t2, o2, m2) in held:
            ctx.eq(meaning(k2, o2, m2), m2, "%s of %r, still held, after reading %s" % (k2, t2, what))
    ctx.trivial = not again


def history(arg):
    """:return: what the last reading gives"""
    for (text, kind, how, v) in arg:
        (o, m) = read(kind, text)
        if o is not None and how < 8:
            abuse(how, v, kind, o)
    return repr(m)


def run_fresh(c, ctx):
    (specs, order) = c
    ts = texts(specs)
    steps = [[ts[i % len(ts)], READERS[k % len(READERS)], how, v] for (i, k, how, v) in order]
    last = steps[-1]
    for t in ts[:1]:
        # and once as a line
        steps[:-1] += [[t, 'Line', 2, 5]]
    ctx.eq(fresh.call(__name__, 'history', steps), fresh.call(__name__, 'history', [last]), "%s of %r after %r, against alone in a process of its own" % (last[1], last[0], [s[:3] for s in steps[:-1]]))
    ctx.label(last[1])
    ctx.trivial = len(order) < 2


CLASSES = sorted((k for k in subclasses(G.GCode) if k.word_key or k.default_word), key=lambda k: k.__name__)


def run_classes(c, ctx):
    """codes made from their classes are their owner's as well"""
    for (n, how, v) in c:
        k = CLASSES[n % len(CLASSES)]
        g = k()
        was = (gsig(g), str(g), repr(g), g.description)
        ctx.eq(gsig(g)[2], [], "words of a new %s" % k.__name__)
        abuse(how % 4, v, 'text2gcodes', [g])
        if how > 3:
            m = Machine()
            try:
                m.process_gcodes(g)
            except REFUSED:
                pass
        x = k()
        ctx.eq((gsig(x), str(x), repr(x), x.description), was, "another %s, after changing the first" % k.__name__)
        back = text2gcodes(was[1])
        ctx.eq([type(b).__name__ for b in back], [k.__name__], "class of %s read after changing one" % was[1])
        ctx.label(['words', 'codes', 'parameters', 'lists'][how % 4])


text = st.one_of(
    st.tuples(st.just(0), gens.soup, st.integers(0, 999), gens.comments).map(list),
    st.tuples(st.just(0), gens.soup, st.integers(0, 999), st.just([])).map(list),
    st.tuples(st.just(1), gens.soup, st.integers(0, 999)).map(list),
    st.tuples(st.just(2), st.integers(0, 10), st.sampled_from(TYPOS), st.integers(1, 9999), st.integers(1, 9999)).map(list),
    st.tuples(st.just(3), st.integers(0, 100)).map(list),
    st.tuples(st.just(4), st.integers(0, 3), st.integers(0, 9)).map(list),
)
PROPERTY = Property(
    'C53', "Histories of reading a few texts (valid, refused, with comments, nearly alike) again and again in ten ways, changing what was read in eight ways "
    "in between: every reading gives what the first one gave, and what is held stays as it was; the last reading of a history gives what it gives in a process where nothing else was done. Codes of every class made, changed and made again. "
    "Non-trivial: some text is read again.",
    [Test('history', st.tuples(st.lists(text, min_size=1, max_size=3), st.lists(st.tuples(
        st.integers(0, 2), st.one_of(st.integers(0, 2), st.integers(0, len(READERS) - 1)), st.integers(0, 11), st.integers(0, 9999)).map(list), min_size=2, max_size=14)).map(list), run, quick=2500),
     Test('classes', st.lists(st.tuples(st.integers(0, len(CLASSES) - 1), st.integers(0, 7), st.integers(0, 9999)).map(list), min_size=1, max_size=12), run_classes, quick=500),
     Test('fresh', st.tuples(st.lists(text, min_size=1, max_size=4), st.lists(st.tuples(
        st.integers(0, 3), st.one_of(st.integers(0, 2), st.integers(0, len(READERS) - 1)), st.integers(0, 11), st.integers(0, 9999)).map(list), min_size=2, max_size=8)).map(list), run_fresh, quick=1600, fresh=True)],
)
