"""C09: words and codes compare, sort and hash consistently."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Word, Block, G, gsig
from vlib import gens, ref

# few letters and values, so that many are equal
num = st.one_of(st.sampled_from([0, 1000, -1000, 500, 10000, 2000, 100, 90100, 90000, 1001, 2001]), st.integers(-3000, 3000))
word = st.tuples(st.sampled_from('XXYGGMNTFL' * 3 + ref.LETTERS.replace('O', '')), num, st.integers(0, 5), st.sampled_from([0, 0, 0, 1, -1, 300])).map(list)


def value_of(l, v):
    if l in 'GM':
        return gens.milli(abs(v) // 100 * 100)
    return gens.soup_value(l, v)


def make(w):
    """:return: (Word, key)"""
    (l, v, how, fine) = w
    d = value_of(l, v)
    if l not in 'GMNLT':
        d += gens.Decimal(fine).scaleb(-6)  # words may differ by less than what's printed
    s = ref.fmt(d)
    if how > 3:
        how -= 3
        if d == 0 and l not in 'GMNLT':
            s = '-0'  # equal to 0
    if l == 'T':
        s = '0' * (how % 2) + s
    key = (l, s if l == 'T' else d)
    if how == 0 or l == 'T':
        return (Word(l + s), key, s)
    if how == 1:
        return (Word(l.lower(), int(d) if l in 'NL' else float(s)), key, s)
    if how == 2:
        return (Word(l, s), key, s)
    w = Word(l, 0)
    w.value = s
    return (w, key, s)


def order(key):
    return (key[0], key[1])


def run_words(c, ctx):
    ws = [make(w) for w in c]
    equal = 0
    for (i, (a, ka, sa)) in enumerate(ws):
        for (j, (b, kb, sb)) in enumerate(ws):
            eq = ka == kb
            equal += eq and i < j
            ctx.eq(a == b, eq, "%r == %r" % (a, b))
            ctx.eq(a != b, not eq, "%r != %r" % (a, b))
            if eq:
                ctx.eq(hash(a), hash(b), "hashes of %r, %r" % (a, b))
            (lt, gt) = (ka < kb, ka > kb)
            ctx.eq((a < b, a <= b, a > b, a >= b), (lt, lt or eq, gt, gt or eq), "<, <=, >, >= of %r and %r" % (a, b))
            text = kb[0] + sb
            ctx.eq(a == text, eq, "%r == %r (text)" % (a, text))
            ctx.eq(a != text, not eq, "%r != %r (text)" % (a, text))
            ctx.eq(a == '  %s  ' % text.lower(), eq, "%r == %r (text)" % (a, text.lower()))
    ctx.label('%d equal' % min(equal, 3))
    keys = set(k for (_, k, _) in ws)
    ctx.eq(len(set(w for (w, _, _) in ws)), len(keys), "size of the set of %r" % [w for (w, _, _) in ws])
    d = {}
    for (w, k, _) in ws:
        d[w] = k
    for (w, k, _) in ws:
        ctx.eq(d.get(w), k, "dict item of %r" % w)
        ctx.eq(w in d, True, "%r in dict" % w)
    ctx.eq(len(d), len(keys), "size of dict")
    got = [(w.letter, w.value) for w in sorted(w for (w, _, _) in ws)]
    want = [(k[0], k[1] if k[0] == 'T' else float(k[1])) for k in sorted((k for (_, k, _) in ws), key=order)]
    ctx.eq(got, want, "sorted words")
    ctx.trivial = len(ws) < 2


def run_codes(c, ctx):
    """codes are equal exactly when word and parameters are"""
    (a, b, mut) = c
    (kind, i, v) = mut
    wa = gens.soup_valid([a], modal=False)
    if not wa:
        ctx.trivial = True
        return
    wb = list(wa)
    if kind == 0:
        wb = gens.soup_valid([b], modal=False) or wa
    elif kind == 1 and len(wb) > 1:
        del wb[1 + i % (len(wb) - 1)]
    elif kind == 2 and len(wb) > 1:
        j = 1 + i % (len(wb) - 1)
        l = wb[j][0]
        wb[j] = (l, gens.soup_value(l, v) if i < 4 or l in 'NLT' else wb[j][1] + gens.Decimal(i - 3).scaleb(-5))
    elif kind == 3:
        wb = [wb[0]] + wb[:0:-1]

    def code(ws):
        return Block(gens.join_words(ws)).gcodes[0]

    def key(ws):
        (items, _) = ref.assign(ws)
        return (items[0].letter, items[0].value, sorted(items[0].params))
    (ga, gb) = (code(wa), code(wb))
    eq = key(wa) == key(wb)
    ctx.label('equal' if eq else 'different')
    ctx.trivial = len(wa) < 2
    ctx.eq((ga == gb, gb == ga, ga != gb, gb != ga), (eq, eq, not eq, not eq), "==, != of %r and %r" % (ga, gb))
    (oa, ob) = (ref.assign(wa)[0][0].code.order, ref.assign(wb)[0][0].code.order)
    if oa != ob and not (set((ref.assign(wa)[0][0].name, ref.assign(wb)[0][0].name)) & set(LOOSE)):
        ctx.eq((ga < gb, ga > gb, ga <= gb, ga >= gb), (oa < ob, oa > ob, oa < ob, oa > ob), "order of %r and %r" % (ga, gb))


LOOSE = ('G7', 'G8', 'G90.1', 'G91.1', 'M19', 'G96', 'G97', 'G53')

entry = st.tuples(st.just('c'), st.integers(0, len(gens.ALL_CODES) - 1), st.lists(st.tuples(st.integers(0, 30), num).map(list), max_size=4)).map(list)

PROPERTY = Property(
    'C09', "Lists of words from few letters and values made in different ways (many equal), all pairs compared with a "
    "(letter, value) model, as well as with text; pairs of codes differing in a word, parameter or order only. Non-trivial: at least two words / a parameter.",
    [Test('words', st.lists(word, max_size=6), run_words, quick=6000),
     Test('codes', st.tuples(entry, entry, st.tuples(st.integers(0, 4), st.integers(0, 5), num).map(list)).map(list), run_codes, quick=8000)],
)
