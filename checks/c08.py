"""C08: codes built in Python equal the same codes parsed from text."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, G, GCodeParameterError, gsig, ref_value
from vlib import gens, ref

NAMES = gens.ALL_CODES + ['F', 'S', 'T', 'N'] * 4
ops = st.lists(st.tuples(st.sampled_from(['kw', 'word', 'add', 'set', 'set', 'badadd', 'dup', 'badkw', 'get']), st.integers(0, 30), gens.value).map(list), max_size=7)
case = st.tuples(st.integers(0, len(NAMES) - 1), ops, st.booleans(), st.booleans(), gens.value).map(list)


def py_value(l, v):
    v = gens.soup_value(l, v)
    return str(v) if l == 'T' else int(v) if l in 'LN' else float(v)


def text_of(l, v):
    return l + ref.fmt(gens.soup_value(l, v))


def parsed(name_word, params):
    """the code, parsed from text"""
    text = name_word + ''.join(' ' + t for t in params)
    block = Block(text)
    assert len(block.gcodes) == 1 and not block.modal_params, "%r parsed as %r" % (text, block.gcodes)
    return (text, block.gcodes[0])


def run(c, ctx):
    (ni, oplist, default_word, lc) = c[:4]
    name = NAMES[ni]
    code = ref.ANY[name] if name in ref.ANY else ref.CODES[(name[0], gens.Decimal(name[1:]))]
    letters = sorted(code.params)
    own = abs(c[4]) if len(c) > 4 else None    # the code's own value (of F, S, T & N)
    own_text = '7' if own is None else ref.fmt(gens.soup_value(name[0], own)).lstrip('-')
    word_text = name + (own_text if name in ref.ANY else '')
    cls = type(parsed(word_text, [])[1])
    first_kw, first_words, rest = {}, [], []
    model = {}
    for (op, i, v) in oplist:
        l = letters[i % len(letters)] if letters else None
        if op in ('kw', 'word') and l and l not in model and not rest:
            model[l] = v
            (first_kw.__setitem__(l, py_value(l, v)) if op == 'kw' else first_words.append(Word(l, py_value(l, v))))
        else:
            rest.append((op, i, l, v))
    word = Word(name[0], name[1:] if len(name) > 1 else own_text)
    if name in ref.ANY and default_word:
        args = [float(own_text) if '.' in own_text else int(own_text)]
    elif default_word and cls.word_key is not None and not first_words:
        args = []
    else:
        args = [word]
    g = cls(*(args + first_words), **first_kw)
    ctx.label('params' if model else 'bare')
    ctx.trivial = not letters

    def compare(what):
        (text, p) = parsed(word_text, [text_of(l, model[l]) for l in sorted(model)])
        ctx.eq(type(g), type(p), "class of %r" % text)
        ctx.eq(gsig(g), gsig(p), "%s: built code against parsed %r" % (what, text))
        ctx.check(g == p and p == g and not (g != p), "%s: %r is not equal to parsed %r", what, g, text)
        ctx.eq(str(g), str(p), "%s: print of built and parsed %r" % (what, text))
        if name == 'N':
            ctx.eq(g.number, int(own_text), "number of %r" % text)
        ctx.eq(repr(g), repr(p), "%s: repr of built and parsed %r" % (what, text))
        want = dict((l, py_value(l, v)) for (l, v) in model.items())
        ctx.eq(g.get_param_dict(), want, "%s: parameters of %s" % (what, text))
        ctx.eq(g.get_param_dict(lc=True), dict((l.lower(), v) for (l, v) in want.items()), "lower case parameters of %s" % text)
        ctx.eq(g.get_param_dict(letters='XYZRP'), dict((l, v) for (l, v) in want.items() if l in 'XYZRP'), "some parameters of %s" % text)
        ctx.eq(g.get_param_dict('IJLXQD', lc), dict((l.lower() if lc else l, v) for (l, v) in want.items() if l in 'IJLXQD'), "some parameters of %s" % text)
        for some in ('', [], set(list(want)[1:]), 'GMN'):
            ctx.eq(g.get_param_dict(some), dict((l, v) for (l, v) in want.items() if l in some), "parameters %r of %s" % (some, text))
        for l in ref.LETTERS:
            if l in code.params:
                ctx.eq(getattr(g, l), want.get(l), "%s: attribute %s of %s" % (what, l, text))
            else:
                ctx.check(not hasattr(g, l), "%s has an attribute %s", text, l)

    def refuse(what, fn):
        try:
            fn()
        except GCodeParameterError:
            return
        ctx.fail("%s of %r is not refused" % (what, g))

    compare('constructed')
    for (op, i, l, v) in rest:
        bad = [x for x in ref.LETTERS if x not in code.params and x != 'O']
        b = bad[i % len(bad)]
        if op in ('kw', 'word', 'add'):
            if l is None:
                continue
            if l in model:
                ctx.label('repeated')
                refuse("second %s" % l, lambda: g.add_parameter(Word(l, py_value(l, v))))
            else:
                model[l] = v
                g.add_parameter(Word(l, py_value(l, v)))
        elif op == 'set' and l:
            ctx.label('changed' if l in model else 'set')
            model[l] = v
            setattr(g, l, py_value(l, v))
        elif op == 'badadd':
            refuse("adding %s" % b, lambda: g.add_parameter(Word(b, py_value(b, v))))
            ctx.label('refused letter')
        elif op == 'badkw':
            refuse("constructing with %s" % b, lambda: cls(word, **{b: py_value(b, v)}))
            refuse("constructing with word %s" % b, lambda: cls(word, Word(b, py_value(b, v))))
        elif op == 'dup' and l:
            refuse("constructing with two %s" % l, lambda: cls(word, Word(l, py_value(l, v)), Word(l, py_value(l, v))))
            refuse("constructing with %s as word and keyword" % l, lambda: cls(word, Word(l, py_value(l, v)), **{l: py_value(l, 1000)}))
        compare(op)


PROPERTY = Property(
    'C08', "Every supported code, constructed from its class with random parameters (keywords and words), then a random history of "
    "adding, setting and refused operations; after each step compared with the same code parsed from text. Non-trivial: the code accepts parameters.",
    [Test('build', case, run, quick=8000)],
)
