"""C06: any single line of text is parsed, or refused with a documented error."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError
from vlib import gens

ANY = st.characters(codec='utf-8', exclude_characters='\n', exclude_categories=('Cs',))
CODEY = st.sampled_from(list('GGMMXYZIJRFSTNOLPQH0123456789.- ()%;\t') + ['G1', 'G02', 'M3', 'X1.5', 'G81', 'O', '(', ')', '%', ';', '.', '-', 'G91.1', 'T01', '\u00e9', '\u0663', '\u00b2', '\u017f', '\u212a', '\x00', '\r', '\u2028'])
raw = st.one_of(
    st.lists(CODEY, max_size=90).map(''.join),
    st.text(alphabet=ANY, max_size=60),
    st.lists(st.one_of(CODEY, ANY), max_size=60).map(''.join),
    st.tuples(st.sampled_from(list('(;%GX-.9 )') + ['(;', '()', '%(', ';(', 'X1', '((', ');']), st.integers(1, 256)).map(lambda t: t[0] * t[1]),
    st.tuples(st.sampled_from(list('(;%)') + ['((', '(()', '(%']), st.integers(1, 120), st.sampled_from(['', 'X', ')', '%', ';', 'G1X1']), st.integers(0, 100)).map(lambda t: t[0] * t[1] + t[2] * t[3]),
)
# valid lines, damaged
damage = st.tuples(gens.soup, gens.layout, gens.comments, st.lists(st.tuples(st.integers(0, 200), st.integers(0, 3), st.one_of(CODEY, ANY)).map(list), max_size=4)).map(list)


def check(text, ctx):
    text = text[:256]
    try:
        line = Line(text)
    except (GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError):
        ctx.label('refused')
        return
    except AssertionError as e:
        if 'cannot be in the same block' not in str(e):
            raise
        ctx.label('verification')
        return
    ctx.label('parsed')
    if line.block.words:
        ctx.label('words')
    if line.comment is not None:
        ctx.label('comment')
        (str(line.comment), repr(line.comment), line.comment.text + '')
    for part in (line, line.block):
        (str(part), part.text)
        ctx.check(isinstance(str(part), str), "print of %r", text)
    (len(line.block), bool(line.block), line.gcodes, line.macro)
    for w in line.block.words:
        (str(w), repr(w), w.description, hash(w))
    for g in line.gcodes:
        (str(g), repr(g), g.description, g.get_param_dict())
    for l in 'GXYZNO':
        getattr(line.block, l)


def run_raw(text, ctx):
    ctx.trivial = len(text) < 3
    check(text, ctx)


def run_damage(c, ctx):
    (soup, lay, comm, edits) = c
    s = gens.decorate(gens.soup_words(soup), lay, comm)[0].replace('\n', ' ')
    for (pos, kind, t) in edits:
        i = pos % (len(s) + 1)
        if kind == 0:
            s = s[:i] + t + s[i:]
        elif kind == 1:
            s = s[:i] + s[i + 1:]
        elif kind == 2:
            s = s[:i] + t + s[i + 1:]
        else:
            s = s[i:] + s[:i]
    ctx.trivial = len(s) < 3
    check(s, ctx)


PROPERTY = Property(
    'C06', "Single lines up to 256 characters: random Unicode text, G-code fragments, repeated delimiters, and valid lines with "
    "characters inserted, removed, replaced or rotated. Non-trivial: at least 3 characters.",
    [Test('raw', raw, run_raw, quick=10000), Test('damage', damage, run_damage, quick=10000)],
)
