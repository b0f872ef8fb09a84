"""C42: a malformed number is refused, never read as another number."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Block, Line, Machine, W, GCodeWordStrError
from vlib import gens, ref
from pygcode.gcodes import text2gcodes
from .c15 import snap

NUM = st.integers(1, 99999)
KINDS = ['empty', 'minus', 'dot', 'minus dot', 'plus', 'two minus', 'two dots', 'comma', 'minus after', 'space', 'slash', 'star', 'hash', 'bracket', 'own', 'trailing', 'minus space', 'tab', 'minus dot space', 'percent', 'own trailing', 'inside', 'inside']


def malformed(kind, letter, a, b):
    """:return: text after the letter that is no number of that letter (digits left are not all zero)"""
    s = ref.fmt(gens.milli(a)) if letter not in 'GMNLT' else str(a)
    t = str(b)
    if kind == 'own':
        # fine for other letters
        if letter in 'NLT':
            return '%d.%s' % (a, t) if b % 2 else '-%d' % a
        if letter in 'GM':
            return '%d.%d%d' % (a % 100, b % 10, b // 10 + 1) if b % 3 else '-%d' % a
        return s + '.' + t if '.' in s else s + ' ' + t
    return {
        'empty': '', 'minus': '-', 'dot': '.', 'minus dot': '-.', 'plus': '+' + s, 'two minus': '--' + s,
        'percent': s + [' %', '%', '% ', '%%'][b % 4], 'own trailing': s + [' "', ' :', '|', '<', '{', '@', '\\', '_', ' ~', '^', '\u00b0', ')', ' >', '$', '!', '`'][b % 16],
        'two dots': s + '..' + t, 'comma': s + ',' + t, 'minus after': s + '-' + t, 'space': s + ' ' + t,
        'trailing': s + ['-', '/', '*', '+', '=', ',', '..', '#', '[', ']', ' .', ' -', '?', '&', "'"][b % 15],
        'minus space': '- ' + s, 'tab': s + '\t' + t, 'minus dot space': '-. ' + t,
        'inside': s + '_\'":^~!|\\&=+<>@`'[a % 16] + t,
        'slash': s + '/' + t, 'star': s + '*' + t, 'hash': '#' + t, 'bracket': '[' + s + ']',
    }[kind]


def run(c, ctx):
    (soup, at, kind, a, b, gap, prog) = c
    words = gens.soup_valid(soup) or [('G', gens.Decimal(1)), ('X', gens.Decimal(1))]
    at = at % len(words) if kind not in ('trailing', 'own trailing', 'percent') else len(words) - 1
    parts = [gens.fmt_word(l, v) for (l, v) in words]
    letter = words[at][0]
    parts[at] = (letter if b % 2 else letter.lower()) + malformed(kind, letter, a, b)
    text = ['', ' ', '  '][gap].join(parts)
    if kind in ('space', 'own') and letter in 'NLT' or kind == 'own':
        ctx.label('own ' + letter)
    ctx.label(kind, 'last word' if at == len(words) - 1 else 'first word' if not at else 'middle word')
    ctx.trivial = len(words) < 2
    m = Machine()
    for x in gens.build(prog).lines:
        m.process_block(Line(x.text).block)
    before = snap(m)
    readers = [
        ('Block', lambda: Block(text)), ('Block unverified', lambda: Block(text, verify=False)), ('Line', lambda: Line(text)),
        ('Line with a comment', lambda: Line(text + ' (1)')), ('text2words', lambda: list(W.text2words(text))),
        ('text2gcodes', lambda: text2gcodes(text)), ('a machine', lambda: m.process_str(text)),
    ]
    if kind == 'percent':
        # (on a line that's a macro)
        readers = [r for r in readers if 'Line' not in r[0] and 'machine' not in r[0]]
    if len(words) == 1:
        readers.append(('str2word', lambda: W.str2word(text)))
    for (name, f) in readers:
        try:
            r = f()
        except GCodeWordStrError:
            continue
        ctx.fail("%r is not refused by %s%s" % (text, name, ': gives %r' % [str(w) for w in r.words] if isinstance(r, Block) else ''))
    ctx.eq(snap(m), before, "machine refusing %r" % text)


PROPERTY = Property(
    'C42', "Valid lines with the number of one word replaced by something that is no number for its letter (nothing, lone signs and dots, two dots, "
    "commas, signs or operators inside, digits after a space, fractions or signs where the letter takes none, two decimals for G and M) read in eight ways. Non-trivial: two or more words.",
    [Test('malformed', st.tuples(gens.soup, st.integers(0, 40), st.sampled_from(KINDS), NUM, NUM, st.integers(0, 2), gens.program(['G91', 'G18', 'F', 'S'], max_lines=2, with_comments=False)).map(list), run, quick=4000)],
    ["what is left of the number contains a digit other than zero", "text that spells other words (X1E5, X1Y2) is not malformed"],
)
