"""C01: word values survive being parsed and printed."""
import re
from decimal import Decimal
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, W, Line
from vlib import ref

PLAIN = re.compile(r'^([A-Z])(-?\d+(?:\.\d+)?)$')
FLOAT_LETTERS = [l for l in ref.LETTERS if l not in 'GMNLTO']

digits = st.one_of(st.integers(0, 99), st.integers(0, 10 ** 5), st.integers(0, 10 ** 9),
                   st.sampled_from([10 ** k for k in range(10)] + [10 ** k - 1 for k in range(1, 10)] + [123456, 1234567, 999999]))
integers = st.one_of(st.integers(10 ** 9, 10 ** 20), st.integers(1, 25).map(lambda k: 10 ** k), st.integers(10 ** 15, 10 ** 40))
case = st.tuples(
    st.one_of(st.sampled_from(FLOAT_LETTERS), st.sampled_from('NLTGM')),
    st.booleans(),                     # negative
    digits,
    st.one_of(st.text('0123456789', max_size=7), st.text('0123456789', max_size=24)),  # fraction
    st.one_of(st.integers(0, 3), st.integers(0, 12)),                 # leading zeros
    st.integers(0, 2),                 # form of the decimal point
    st.integers(0, 4),                 # how it's read
    st.one_of(st.none(), st.none(), integers),     # for letters that take integers of any size
).map(list)


def number_text(letter, neg, whole, frac, zeros, form):
    if letter in 'NLT':
        return '0' * zeros + str(whole)
    if letter in 'GM':
        return '0' * zeros + str(whole) + ('.' + frac[0] if frac else '')
    s = '0' * zeros + str(whole)
    if frac:
        if whole == 0 and form == 1:
            s = ''
        s += '.' + frac
    elif form == 2:
        s += '.'
    return ('-' if neg else '') + s


def read(text, how):
    if how == 0:
        return Word(text)
    if how == 1:
        return Word(text[0], text[1:])
    if how == 2:
        ws = list(W.text2words(text))
    elif how == 3:
        ws = Line('%s (comment)' % text).block.words
    else:
        return W.str2word(text)
    assert len(ws) == 1, "%r read as %d words" % (text, len(ws))
    return ws[0]


def run(c, ctx):
    (letter, neg, whole, frac, zeros, form, how) = c[:7]
    if letter in 'NLT' and c[7:] and c[7] is not None:
        whole = c[7]
    num = number_text(letter, neg, whole, frac, zeros, form)
    text = letter + num
    want = Decimal(num)
    ctx.label('float' if letter in FLOAT_LETTERS else 'letter ' + letter)
    if abs(want) >= 10 ** 5:
        ctx.label('large')
    if 0 < abs(want) < 1:
        ctx.label('below one')
    ctx.trivial = len(num) < 2
    w = read(text, how)
    ctx.eq(w.letter, letter, "letter of %r" % text)
    out = str(w)
    m = PLAIN.match(out)
    ctx.check(m is not None and m.group(1) == letter, "%r prints as %r: not a plain word", text, out)
    if letter == 'T':
        ctx.eq(out, text, "tool word")
        return
    got = Decimal(m.group(2))
    if letter in 'NLGM':
        ctx.check(got == want, "%r prints as %r", text, out)
    else:
        ctx.check(abs(got - want) <= Decimal('0.00050001'), "%r prints as %r", text, out)
        ctx.check(abs(w.value - float(want)) <= 1e-9 * max(1, abs(float(want))), "%r has value %r", text, w.value)
    # and the printed word is read the same way
    again = read(out, how)
    ctx.eq(str(again), out, "%r printed twice" % text)
    if letter in 'NLGM':
        ctx.check(again == w, "%r and %r are not the same word", text, out)


def run_python(c, ctx):
    """Words made of numbers in Python (any float), and values assigned later"""
    (letter, value, assign) = c
    w = Word(letter, 0) if assign else Word(letter, value)
    if assign:
        w.value = value
    ctx.trivial = abs(value) < 1e-3
    ctx.label('tiny' if abs(value) < 1e-3 else 'large' if abs(value) > 1e5 else 'usual')
    out = str(w)
    m = PLAIN.match(out)
    ctx.check(m is not None and m.group(1) == letter, "%s of %r prints as %r", letter, value, out)
    ctx.check(abs(Decimal(m.group(2)) - Decimal(value)) <= Decimal('0.000501'), "%s of %r prints as %r", letter, value, out)


PROPERTY = Property(
    'C01', "One word: a letter and a decimal text (up to 10^9, 0-24 decimals, leading zeros, '.5', '5.') or any Python "
    "float up to 10^9. Non-trivial: the number has more than one character (or magnitude >= 0.001), distinct by letter, text and way of reading.",
    [
        Test('text', case, run, quick=24000),
        Test('python', st.tuples(st.sampled_from(FLOAT_LETTERS),
                                 st.one_of(st.floats(-1e9, 1e9), st.floats(-10, 10), st.floats(-1e-2, 1e-2)), st.booleans()).map(list),
             run_python, quick=8000),
    ],
)
