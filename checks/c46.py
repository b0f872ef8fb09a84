"""C46: user-defined codes behave like built-in ones."""
import re
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, Machine, G, Word, gsig, ref_gsig, check_pos, mode_sig, ref_mode_sig
from vlib import gens, ref
from .c12 import Recorder, check_order

CALLS = []
MADE = {}
USER = {'M101': 'PQ', 'M102': 'PQ', 'M150': 'PQ', 'M199': 'PQ', 'M110': 'PX', 'M120': '', 'M103': 'PQ',
        'M45': 'PQ', 'M160': 'PQ', 'M161': 'PQ', 'M162': 'PQX'}
BASES = {'M160': 'M150', 'M161': 'M160', 'M162': 'M161'}     # classes inheriting from other user-defined ones
MOTIONS = {'G1': 'G201', 'G81': 'G281'}                      # motion inheriting from the built-in one
UNGROUPED = 'M103'
# ranges of numbers (one of them around built-in codes, which stay what they are)
RANGES = {'M120': (120, 129, ['M12%d' % i for i in range(10)]), 'M45': (45, 55, ['M45', 'M46', 'M47', 'M54', 'M55'])}


def define():
    """the user's classes (made once: they'd otherwise stay in the list of subclasses)"""
    if MADE:
        return
    # (defined after text has been read)
    Machine().process_str('M3 M101' if G.word_gcode_class(Word('M101')) else 'M3')
    for (name, letters) in USER.items():
        attrs = {'__doc__': name + ': a user defined code', 'word_key': Word(name), '_process': lambda self, machine: CALLS.append((gsig(self), machine))}
        if letters != 'PQ':
            attrs['param_letters'] = set(letters)
        if name == UNGROUPED:
            attrs['modal_group'] = None
        if name in RANGES:
            del attrs['word_key']
            attrs['word_matches'] = classmethod(lambda cls, w, low=RANGES[name][0], high=RANGES[name][1]: w.letter == 'M' and low <= w.value <= high)
            attrs['default_word'] = Word(name)
        MADE[name] = type('User' + name, (MADE[BASES[name]] if name in BASES else G.GCodeUserDefined,), attrs)
        for n in RANGES[name][2] if name in RANGES else [name]:
            ref._add(n, 'user_defined' if name != UNGROUPED else None, letters, 130)
            gens.EXTRA_PARAMS[n] = list(letters)
    for (name, user) in MOTIONS.items():
        MADE[user] = type('User' + user, (G.word_gcode_class(Word(name)),), {'__doc__': user + ': user defined motion', 'word_key': Word(user)})
    ref.GROUPS.append('user_defined')
    G.build_maps()


ALL_USER = [n for n in USER] + ['M125', 'M129', 'M46', 'M54', 'M55']
NAMES = ALL_USER * 3 + gens.MODES + gens.NONMODAL + gens.STOPS


def run(c, ctx):
    define()
    b = gens.build(c)
    m = Machine()
    n = 0
    for x in b.lines:
        what = "line %r of %r" % (x.text, [y.text for y in b.lines])
        block = Line(x.text).block
        ctx.eq([gsig(g) for g in block.gcodes], [ref_gsig(it) for it in x.items], "codes of " + what)
        again = Block(str(block))
        ctx.eq([gsig(g) for g in again.gcodes], [gsig(g) for g in block.gcodes], "codes of the printed text %r of %s" % (str(block), what))
        for g in block.gcodes:
            name = g.word.letter + ref.fmt(gens.Decimal(str(g.word.value)))
            if g.word.letter == 'M' and name in ALL_USER:
                n += 1
                cls = MADE.get(name) or MADE[[k for k in RANGES if name in RANGES[k][2]][0]]
                ctx.check(type(g) is cls, "%r is a %s, %s", g, type(g), what)
                ctx.check(g.description == cls.__doc__ and cls.__name__ in repr(g), "description of %r", g)
                made = cls(Word(name), **g.get_param_dict())
                ctx.check(made == g and str(made) == str(g), "made in Python %r, read %r, %s", made, g, what)
        del CALLS[:]
        with Recorder() as r:
            m.process_block(block)
        check_order(ctx, r.seen, "processing of " + what)
        users = [s for s in r.seen if s[0] == 'M' and ref.fmt(gens.Decimal(str(s[1]))) in [u[1:] for u in ALL_USER]]
        ctx.eq([s for (s, _) in CALLS], users, "user codes executed by " + what)
        ctx.check(all(mm is m for (_, mm) in CALLS), "user codes got another machine, " + what)
        ctx.eq(sorted(repr(s) for s in users), sorted(repr(ref_gsig(it)) for it in x.items if it.name in ALL_USER), "user codes processed by " + what)
        check_pos(ctx, m.pos, x.after.pos, "after " + what)
        want = ref_mode_sig(x.after)
        ctx.eq(mode_sig(m.mode), want, "mode after " + what)
    ctx.label('user codes' if n else 'none')
    ctx.trivial = not n


def run_line(c, ctx):
    """conflicts, and parameters"""
    define()
    (names, soup, params, lay) = c
    words = gens.soup_valid(soup)
    for (i, k) in enumerate(names):
        name = ALL_USER[k % len(ALL_USER)]
        words.append((name[0], gens.Decimal(name[1:])))
        words += [(l, gens.soup_value(l, v)) for (l, v) in params[i:i + 2]]
    text = gens.join_words(words, lay)
    (items, rest) = ref.assign(words)
    bad = ref.conflicts(items)
    ctx.label('refused: ' + bad if bad else 'accepted')
    try:
        block = Block(text)
    except (G.GCodeParameterError, AssertionError) as e:
        if not bad:
            ctx.fail("%r is refused: %s" % (text, e))
        return
    if bad:
        ctx.fail("%r is not refused (%s)" % (text, bad))
    ctx.eq([gsig(g) for g in block.gcodes], [ref_gsig(it) for it in items], "codes of %r" % text)
    ctx.eq(len(block.modal_params), len(rest), "modal parameters of %r" % text)
    check_order(ctx, [gsig(g) for g in sorted(block.gcodes)], "sorted codes of %r" % text)


def run_motion(c, ctx):
    """motion inheriting from built-in motion"""
    define()
    b = gens.build(c)
    m = Machine()
    n = 0
    for x in b.lines:
        text = re.sub(r'([gG])\s*0*(1|81)(\.0*)?(?![0-9.])', lambda g: MOTIONS['G' + g.group(2)], x.text)
        what = "line %r of %r" % (text, [y.text for y in b.lines])
        n += text != x.text
        block = Line(text).block
        own = dict(((k[0], float(k[1:])), (v[0], float(v[1:]))) for (k, v) in MOTIONS.items())
        want = [own.get(s[:2], s[:2]) + s[2:] for s in map(ref_gsig, x.items)]
        ctx.eq([gsig(g) for g in block.gcodes], want, "codes of " + what)
        ctx.eq([type(g) for g in block.gcodes if g.word.letter == 'G' and g.word.value > 200], [MADE['G%d' % s[1]] for s in want if s[0] == 'G' and s[1] > 200], "classes of " + what)
        ctx.eq(str(Block(str(block))), str(block), "printed and read " + what)
        m.process_block(block)
        check_pos(ctx, m.pos, x.after.pos, "after " + what)
        want = ref_mode_sig(x.after)
        if 'motion' in want:
            want['motion'] = own.get(want['motion'][:2], want['motion'][:2]) + want['motion'][2:]
        ctx.eq(mode_sig(m.mode), want, "mode after " + what)
    ctx.label('user motion' if n else 'none')
    ctx.trivial = not n


PROPERTY = Property(
    'C46', "Ten user-defined classes (plain, other parameters, none, ranges of numbers, one of them around built-in codes, no modal group, inheriting from each other) and motion inheriting from G1 and G81 used in random programs and lines next to "
    "built-in codes: recognition, parameters, printing, conflicts, order, calls, mode. Non-trivial: a user code occurs.",
    [Test('program', gens.program(NAMES, max_lines=6, max_extras=5), run, quick=1500),
     Test('motion', gens.program(gens.MODES, max_lines=6, with_comments=False), run_motion, quick=700),
     Test('line', st.tuples(st.lists(st.integers(0, 20), min_size=1, max_size=3), gens.soup, st.lists(st.tuples(st.sampled_from('PQXYR'), gens.value).map(list), max_size=4), gens.layout).map(list), run_line, quick=2000)],
)
