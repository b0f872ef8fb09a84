"""C44: a mode's groups can only be set to codes of that group."""
from copy import copy
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, Machine, Mode, G, Word, gsig, ref_value, MachineInvalidState, mode_sig
from vlib import gens, ref

GROUPS = ref.GROUPS + ['user_defined']
CODES = sorted(c.word for c in ref.CODES.values()) + ['F12', 'S3', 'T2', 'N5']
NOT_CODES = ['G1', 1, 0.0, False, (), Word('G', 1), [], object]
UNKNOWN = ['foo', 'MOTION', 'Motion', 'mode', 'x', 'gcode', 'feed', 'spindles', '_motion']
op = st.one_of(
    st.tuples(st.just('set'), st.integers(0, len(GROUPS) - 1), st.integers(0, len(CODES) - 1), st.lists(st.tuples(st.integers(0, 30), gens.value).map(list), max_size=3)),
    st.tuples(st.just('set own'), st.integers(0, 1000), st.lists(st.tuples(st.integers(0, 30), gens.value).map(list), max_size=3)),
    st.tuples(st.just('set own'), st.integers(0, 1000), st.lists(st.tuples(st.integers(0, 30), gens.value).map(list), max_size=3)),
    st.tuples(st.just('clear'), st.integers(0, len(GROUPS) - 1)),
    st.tuples(st.just('bad'), st.integers(0, len(GROUPS) - 1), st.integers(0, len(NOT_CODES) - 1)),
    st.tuples(st.just('mode'), gens.soup),
    st.tuples(st.just('unknown'), st.integers(0, len(UNKNOWN) - 1)),
    st.tuples(st.just('touch'), st.integers(1, 500)),
    st.tuples(st.just('same'), st.integers(0, len(GROUPS) - 1)),
    st.tuples(st.just('copy')),
).map(list)


def make(name, params):
    """:return: (code made in Python, Code of the reference, what its mode is to be)"""
    letter = name[0]
    (v, code) = (gens.Decimal(name[1:]), ref.code_of(letter, gens.Decimal(name[1:])))
    letters = sorted(code.params)
    ps = {}
    for (i, x) in params:
        if letters:
            l = letters[i % len(letters)]
            ps[l] = gens.soup_value(l, x)
    cls = G.word_gcode_class(Word(letter, float(v)))
    g = cls(Word(letter, float(v)) if letter in 'GM' else Word(letter, ref.fmt(v)), **dict((l, ref_value(l, x)) for (l, x) in ps.items()))
    keep = ref.STICKY.get(name, '')
    return (g, code, (letter, ref_value(letter, v), sorted((l, ref_value(l, x)) for (l, x) in ps.items() if l in keep)))


def run(c, ctx):
    (default, ops) = c
    m = Mode() if default else Mode(set_default=False)
    model = dict((g, s) for (g, s) in mode_sig(m).items())
    given = []
    done = set()
    for (n, o) in enumerate(ops):
        what = "op %d %r of %r" % (n, o, ops)
        kind = o[0]
        if kind in ('set', 'set own'):
            if kind == 'set':
                (group, name, params) = (GROUPS[o[1]], CODES[o[2]], o[3])
            else:
                name = CODES[o[1] % len(CODES)]
                group = ref.code_of(name[0], gens.Decimal(name[1:])).group or GROUPS[o[1] % len(GROUPS)]
                params = o[2]
            (g, code, sig) = make(name, params)
            before = gsig(g)
            if code.group == group:
                setattr(m, group, g)
                model[group] = sig
                given.append(g)
                done.add('set')
                ctx.check(getattr(m, group) is not g, "%s: mode holds the given code itself", what)
            else:
                try:
                    setattr(m, group, g)
                except MachineInvalidState:
                    done.add('refused')
                else:
                    ctx.fail("%s: mode %s accepts %r" % (what, group, g))
            ctx.eq(gsig(g), before, "given code, " + what)
        elif kind == 'clear':
            setattr(m, GROUPS[o[1]], None)
            model.pop(GROUPS[o[1]], None)
            done.add('clear')
        elif kind == 'bad':
            try:
                setattr(m, GROUPS[o[1]], NOT_CODES[o[2]])
            except MachineInvalidState:
                done.add('refused')
            else:
                ctx.fail("%s: mode %s accepts %r" % (what, GROUPS[o[1]], NOT_CODES[o[2]]))
        elif kind == 'mode':
            (items, _) = ref.assign(gens.soup_valid(o[1], modal=False))
            text = gens.join_words(gens.soup_valid(o[1], modal=False))
            codes = Block(text).gcodes
            sigs = [gsig(g) for g in codes]
            changed = m.set_mode(*codes)
            want = {}
            for it in items:
                if it.code.group:
                    keep = ref.STICKY.get(it.name, '')
                    model[it.code.group] = want[G.MODAL_GROUP_MAP[it.code.group]] = (it.letter, ref_value(it.letter, it.value), sorted((l, ref_value(l, v)) for (l, v) in it.params if l in keep))
            ctx.eq(dict((k, gsig(g)) for (k, g) in changed.items()), want, "modes reported as changed by %r, %s" % (text, what))
            ctx.eq([gsig(g) for g in codes], sigs, "codes given, " + what)
            given += codes
            done.add('set')
        elif kind == 'unknown':
            try:
                v = getattr(m, UNKNOWN[o[1]])
            except AttributeError:
                pass
            else:
                ctx.fail("%s: a mode has %r: %r" % (what, UNKNOWN[o[1]], v))
        elif kind == 'same':
            # what the mode holds already
            setattr(m, GROUPS[o[1]], getattr(m, GROUPS[o[1]]))
            m.set_mode(*m.gcodes)
            done.add('same')
        elif kind == 'touch':
            # codes that were given are the caller's
            for g in given:
                for l in sorted(g.params):
                    setattr(g, l, o[1])
                if g.word.letter in 'FS':
                    g.word.value = o[1]
        else:
            m = copy(m)
        ctx.eq(mode_sig(m, GROUPS), model, "mode after " + what)
        ctx.eq(sorted(map(repr, [gsig(g) for g in m.gcodes])), sorted(map(repr, model.values())), "codes of the mode after " + what)
        for g in GROUPS:
            code = getattr(m, g)
            ctx.check(code is None or code.modal_group == G.MODAL_GROUP_MAP[g], "%s: mode %s is %r", what, g, code)
    for d in done:
        ctx.label(d)
    ctx.trivial = 'set' not in done


PROPERTY = Property(
    'C44', "Sequences of assignments of any code, None, or something that is no code to any group of a mode, set_mode with any codes, changes of "
    "the codes given, and copies, against a dict of what each group is to hold. Non-trivial: some group set.",
    [Test('mode', st.tuples(st.booleans(), st.lists(op, min_size=1, max_size=8)).map(list), run, quick=3000)],
)
