"""C41: exactly the documented codes are supported."""
from decimal import Decimal
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, G, Mode, gsig, ref_value, GCodeWordStrError
from vlib import gens, ref
from pygcode.gcodes import MODAL_GROUP_MAP, word_gcode_class, text2gcodes, words2gcodes

GROUP_NAMES = dict((v, k) for (k, v) in MODAL_GROUP_MAP.items())
PARAM_LETTERS = [l for l in ref.LETTERS if l not in 'GMO']


def numbers(n, extra):
    out = [Decimal(n)] + [Decimal(n * 10 + d) / 10 for d in range(1, 10)]
    for e in extra:
        # two to six decimals
        out.append(Decimal(n) + Decimal(e).scaleb(-6))
    return out


def run(c, ctx):
    (letter, n, extra) = c
    found = 0
    for v in numbers(n, extra):
        code = ref.CODES.get((letter, v))
        text = letter + ref.fmt(v)
        word = Word(text)
        cls = word_gcode_class(word)
        if code is None:
            ctx.eq(cls, None, "class of unsupported code %s" % text)
            if (v * 10) % 1:
                # the language has no such codes
                for t in (text, text + ' X1', 'F1 ' + text):
                    try:
                        Block(t)
                    except GCodeWordStrError:
                        continue
                    ctx.fail("%r is not refused" % t)
                continue
            block = Block(text)
            ctx.eq(([gsig(g) for g in block.gcodes], [str(w) for w in block.modal_params]), ([], [str(word)]), "block of unsupported code %s" % text)
            ctx.eq(words2gcodes([word])[0], [], "codes of unsupported %s" % text)
            continue
        found += 1
        check_code(ctx, text, word, cls, code)
    ctx.label('supported' if found else 'none supported')
    ctx.trivial = not found


def check_code(ctx, text, word, cls, code):
    if cls is None:
        ctx.fail("%s is not supported" % text)
    g = cls(word)
    ctx.eq(gsig(g), (word.letter, word.value, []), "code of %s" % text)
    ctx.eq([gsig(x) for x in Block(text).gcodes], [gsig(g)], "codes of block %s" % text)
    ctx.check(type(Block(text).gcodes[0]) is cls, "class of block %s", text)
    ctx.eq(GROUP_NAMES.get(g.modal_group), code.group, "modal group of %s" % text)
    # parameters
    for l in PARAM_LETTERS:
        (gcodes, unused) = words2gcodes([word, Word(l, 1)])
        own = l in code.params
        if own:
            ctx.eq([gsig(x) for x in gcodes], [(word.letter, word.value, [(l, ref_value(l, 1))])], "codes of %s with a %s word" % (text, l))
            ctx.eq(unused, [], "unused words of %s with a %s word" % (text, l))
            ctx.check(getattr(gcodes[0], l) == ref_value(l, 1) and getattr(g, l) is None, "attribute %s of %s", l, text)
        else:
            ctx.check(not gcodes[0].params, "%s takes %s as a parameter: %r", text, l, gcodes[0])
            ctx.eq(len(gcodes) + len(unused), 2, "codes and unused words of %s %s1" % (text, l))
            try:
                getattr(g, l)
            except AttributeError:
                pass
            else:
                ctx.fail("%s has an attribute %s" % (text, l))
    # default word of its class: a code of the class (line numbers have none)
    d = cls(word) if word.letter == 'N' else cls()
    ctx.check(type(d) is cls and word_gcode_class(d.word) is cls, "code made of %s is %r", cls.__name__, d)
    if ref.code_of(word.letter, Decimal(0)) is None or word.letter in 'GM':
        dc = ref.CODES.get((d.word.letter, Decimal(str(d.word.value))))
        ctx.check(dc is not None and dc.group == code.group and dc.params == code.params, "code made of %s is %r, class is also used for %s", cls.__name__, d, text)
        if cls.word_key is not None:
            ctx.eq(d.word, word, "code made of the class of %s" % text)
    ctx.check(isinstance(g.description, str) and g.description, "description of %s is %r", text, g.description)
    # it sets its group's mode, no other
    m = Mode(set_default=False)
    m.set_mode(g)
    ctx.eq([k for k in MODAL_GROUP_MAP if getattr(m, k) is not None], [code.group] if code.group else [], "modes set by %s" % text)


def run_letters(c, ctx):
    """codes that are any value of a letter"""
    (letter, v) = c
    value = abs(v) // 1000 if letter in 'NT' else gens.milli(abs(v))
    text = letter + (str(value) if letter in 'NT' else ref.fmt(value))
    word = Word(text)
    check_code(ctx, text, word, word_gcode_class(word), ref.ANY[letter])
    for l in PARAM_LETTERS:
        if l not in 'FSTNO':
            w = Word(l, 1)
            ctx.eq(word_gcode_class(w), None, "class of %s" % w)
    ctx.label(letter)


PROPERTY = Property(
    'C41', "Every G and M number from 0 to 250 with each first decimal, and random ones with up to 6 decimals; every value of F, S, T and N: "
    "class, modal group, each of the 23 parameter letters, default word and mode compared with a table of the standard. Non-trivial: at least one supported code among the tested numbers.",
    [Test('numbers', st.tuples(st.sampled_from('GGM'), st.one_of(st.integers(0, 100), st.integers(0, 100), st.integers(0, 250)), st.lists(st.integers(1, 999999), max_size=6)).map(list), run, quick=4000),
     Test('letters', st.tuples(st.sampled_from('FSTN'), gens.value).map(list), run_letters, quick=300)],
)
