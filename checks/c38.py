"""C38: the selected default dialect is the one used."""
import re
import types
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, Line, W, G, dialects, Machine
from vlib import gens, ref
from pygcode.dialects.utils import WordType

BASE = dialects.linuxcnc.WORD_MAP
LETTERS = 'XYZFSPRIE'      # letters whose definition the made-up dialects vary
NUM = re.compile(r'^\s*-?(\d+\.?\d*|\.\d+)')


class Tenths(float):
    """value class of a made-up dialect"""


KINDS = {
    'own': None,
    'int': (int, re.compile(r'^\s*-?\d+'), lambda v: '%d' % v),
    'tenth': (Tenths, NUM, lambda v: '%.1f' % v),
    'text': (str, NUM, lambda v: v),
    'plus': (float, NUM, lambda v: '%+.5f' % v),
}
NAMES = sorted(KINDS)
ABSENT = (None,)     # the dialect doesn't have the letter
KINDS['zz absent'] = ABSENT
NAMES += ['zz absent']


def make(name, kinds):
    """a dialect like linuxcnc, with other definitions for LETTERS"""
    words = dict(BASE)
    for (l, k) in zip(LETTERS, kinds):
        k = KINDS[NAMES[k % len(NAMES)]]
        if k:
            if k == ABSENT:
                del words[l]
                continue
            words[l] = WordType(cls=k[0], value_regex=k[1], clean_value=k[2], description='%s of %s' % (l, name))
    return types.SimpleNamespace(WORD_MAP=words)


def value_text(kind, v):
    return ref.fmt(ref.Decimal(v // 1000)) if kind == 'int' else ref.fmt(ref.milli(v))


def run(c, ctx):
    (kinds, ops) = c
    names = ['linuxcnc', 'vtest_a', 'VTest_B', 'vtestC']
    maps = {'linuxcnc': dict.fromkeys(LETTERS, 'own')}
    for (n, ks) in zip(names[1:], kinds):
        maps[n] = dict((l, NAMES[k % len(NAMES)]) for (l, k) in zip(LETTERS, ks))
        setattr(dialects, n, make(n, ks))
    before = dialects.get_default()
    history = []
    made = []      # (word, text)
    default = before

    def refused(call, what):
        try:
            got = call()
        except Exception:
            return
        ctx.fail("%s: there is no such word in the dialect, and it reads as %s" % (what, got))

    def expect(w, letter, text, d, what):
        kind = maps[d].get(letter, 'own')
        (cls, _, clean) = KINDS[kind] or (BASE[letter].cls, None, BASE[letter].clean_value)
        ctx.check(w.letter == letter, "%s: letter of %r", what, w)
        ctx.check(type(w.value) is cls and w.value == cls(text), "%s: value of %s%s is %r, in dialect %s it is %r", what, letter, text, w.value, d, cls(text))
        ctx.eq(str(w), letter + clean(cls(text)), "%s: text of %s%s in dialect %s" % (what, letter, text, d))
        ctx.eq(w.description, '%s: %s' % (letter, getattr(dialects, d).WORD_MAP[letter].description), "%s: description" % what)
        made.append((w, str(w)))

    try:
        ctx.eq(before, 'linuxcnc', "default dialect at first")
        n = 0
        for (op, di, letters, values) in ops:
            d = names[di % 4]
            explicit = di >= 4
            if op == 0:
                dialects.set_default(d)
                default = d
                history.append('set_default(%s)' % d)
                ctx.eq(dialects.get_default(), d, "default after %s" % history)
                continue
            ctx.eq(dialects.get_default(), default, "default after %s" % history)
            if not explicit or op in (3, 6, 7):
                (d, explicit) = (default, False)
            kw = {'dialect': d} if explicit else {}
            ls = []
            for l in letters:
                if LETTERS[l % len(LETTERS)] not in ls:
                    ls.append(LETTERS[l % len(LETTERS)])
            ws = [(l, value_text(maps[d][l], v)) for (l, v) in zip(ls, values)]
            (l, t) = ws[0]
            text = ([' ', ' ', ' ', '', ' ' * 50][values[-1] % 5]).join(a + b for (a, b) in ws)
            what = "%s, then %s of %r%s" % (history, ['', 'Word(l, v)', 'Word(s)', 'str2word', 'text2words', 'Block', 'Line', 'code class'][op], text, ' as ' + d if explicit else '')
            n += d != 'linuxcnc' or default != d
            ctx.label(['', 'Word(l, v)', 'Word(s)', 'str2word', 'text2words', 'Block', 'Line', 'code class'][op] + (' explicit' if explicit else ''),
                      'same as default' if d == default else 'other than default')
            history.append(what.rsplit(', then ', 1)[1])
            lack = [(a, b) for (a, b) in ws if maps[d].get(a) == 'zz absent']
            if lack:
                ctx.label('letter absent')
                (la, lb) = lack[0]
                if op == 1:
                    refused(lambda: Word(la, lb, **kw), what)
                elif op == 2:
                    refused(lambda: Word(la + lb, **kw), what)
                elif op == 3:
                    refused(lambda: W.str2word(la + lb), what)
                elif op == 7:
                    refused(lambda: G.GCodeLinearMove(**{la: lb}), what)
                elif re.search('[1-9]', lb):
                    code = 'G1 ' + text
                    refused(lambda: list(W.text2words(code, **kw)) if op == 4 else Block(code, **kw) if op == 5 else Line(code), what)
                continue
            if op == 1:
                expect(Word(l, t, **kw), l, t, d, what)
            elif op == 2:
                expect(Word(l + t, **kw), l, t, d, what)
            elif op == 3:
                expect(W.str2word(l + t), l, t, d, what)
            elif op == 4:
                got = list(W.text2words(text, **kw))
                ctx.eq(len(got), len(ws), "words: %s" % what)
                for (w, (a, b)) in zip(got, ws):
                    expect(w, a, b, d, what)
            elif op in (5, 6):
                code = 'G1 ' + text
                block = Block(code, **kw) if op == 5 else Line(code + ' (comment)').block
                ctx.eq(block.dialect, d, "dialect of the block: %s" % what)
                ctx.eq(len(block.words), len(ws) + 1, "words: %s" % what)
                for (w, (a, b)) in zip(block.words[1:], ws):
                    expect(w, a, b, d, what)
                held = {}
                for g in block.gcodes:
                    if g.word.letter in LETTERS:
                        held[g.word.letter] = g.word
                    for (a, w) in g.params.items():
                        held[a] = w
                for w in block.modal_params:
                    held[w.letter] = w
                for (a, b) in ws:
                    expect(held[a], a, b, d, what)
                    ctx.check(str(held[a]) in str(block), "%s: printed as %r", what, str(block))
            elif op == 7:
                ps = [(a, b) for (a, b) in ws if a in 'XYZ']
                if not ps:
                    continue
                g = G.GCodeLinearMove(**dict(ps))
                for (a, b) in ps:
                    expect(g.params[a], a, b, d, what)
        for (w, s) in made:
            ctx.eq(str(w), s, "text of a word made before the end of %s" % history)
        ctx.trivial = not n
    finally:
        dialects.set_default(before)
        for n in names[1:]:
            delattr(dialects, n)


PROPERTY = Property(
    'C38', "Three made-up dialects (value class, value pattern, printing and description of nine letters varied, some of them absent) next to linuxcnc; random "
    "sequences of selecting the default and making words, blocks, lines and codes with and without a dialect. Non-trivial: a dialect other "
    "than linuxcnc is involved.",
    [Test('dialects', st.tuples(st.lists(st.lists(st.sampled_from([0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5]), min_size=9, max_size=9), min_size=3, max_size=3),
                                st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 5, 6, 7]), st.integers(0, 7), st.lists(st.integers(0, 8), min_size=1, max_size=4),
                                                   st.lists(st.integers(-99999, 99999), min_size=4, max_size=4)).map(list), min_size=2, max_size=8)).map(list), run, quick=3000)],
    ["G, M, N, O and T words keep their linuxcnc definition"],
)
