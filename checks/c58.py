"""C58: the scripts compose."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, ref, scripts, normal
from .c30 import nonblank, DEFAULT
from . import c32, c36

MOTIONS = [gens.linear(), gens.linear(), gens.arc, gens.canned, gens.canned, gens.cancel, gens.bare, gens.other]
OPTS = ['-s', '-f', '-rc', '-rb', '-rws', '-al', '-ce', '-rmim']


def remark(t):
    (code, comments, macro) = ref.strip_comments(t)
    return (ref.words(code), [c.strip() for c in comments], macro)


def remarks(lines):
    return [r for r in map(remark, lines) if any(r)]


def run_again(c, ctx):
    (mask, sel, mode, prog) = c
    prog = [c32.above(s) for s in normal.tagged([nonblank(s) for s in prog])]
    start = c32.MODES[mode % len(c32.MODES)]
    more = ['--machine_mode', start] if start else []
    b = gens.Builder(default=start or DEFAULT)
    for spec in prog:
        b.add(spec)
    texts = [x.text for x in b.lines]
    opts = more + [o for (i, o) in enumerate(OPTS) if mask & (1 << i)]
    if mask & 64 and sel:
        opts += ['-cc', ','.join(n for (i, n) in enumerate(gens.CANNED_CODES) if sel & (1 << i))]
    if mask & 32 and sel % 3:
        opts += ['-alm', 'iom'[sel % 3 - 1], '-alp', ['0.05', '0.5', '5'][sel % 3]]
    one = scripts.norm('\n'.join(texts) + '\n', *opts)
    two = scripts.norm('\n'.join(one) + '\n', *opts)
    what = "norm %s of %r gives %r, and of that %r" % (' '.join(opts), texts, one, two)
    ctx.eq(remarks(two), remarks(one), what)
    ctx.label(*opts)
    ctx.trivial = one == texts


def run_crop(c, ctx):
    (k, to, mask, prog) = c
    b = gens.Builder(default=False, axes=c36.AXES)
    for spec in prog:
        b.add(nonblank(spec))
    texts = [x.text for x in b.lines]
    n = len(texts)
    k = k % n
    last = n if to is None else k + to % (n - k + 1)
    rng = '%d:%d' % (k + 1, last + 1)
    opts = [o for (i, o) in enumerate(['-f', '-rc', '-rws']) if mask & (1 << i)]
    text = '\n'.join(texts) + '\n'
    whole = scripts.norm(text, *opts)
    what = "%r, cropped at %r and norm %s" % (texts, rng, ' '.join(opts))
    ctx.eq(len(whole), n, "lines of norm: %s" % what)
    a = scripts.crop('\n'.join(whole) + '\n', rng)
    part = scripts.crop(text, rng)
    z = scripts.norm('\n'.join(part) + '\n', *opts)
    count = last - k

    def body(lines):
        return remarks([] if not count else lines[-count:])
    if mask & 1:       # (a line relying on the modal motion relies on its mode's words, in the cropped one)
        ctx.eq([len(body(a))], [len(body(z))], "lines: %s" % what)
    else:
        ctx.eq(body(a), body(z), "cropped after norm, and before: %s" % what)
    if not mask:
        ctx.eq(remarks(a[:len(a) - count]), remarks(z[:len(z) - count]), "beginnings of cropped after norm, and before: %s" % what)
    # nothing is cut
    everything = scripts.crop(text, ':')
    ctx.eq(remarks(everything[-n:]), remarks(scripts.norm(text)[-n:]), "crop of everything: %s" % what)
    ctx.label(*opts)
    ctx.trivial = not count


PROPERTY = Property(
    'C58', "Random programs (arcs and cycles too) through pygcode-norm, and the result through it again with the same options; and through pygcode-norm "
    "and pygcode-crop in both orders. Words, comments and macros are compared line by line. Non-trivial: the first pass changes something.",
    [Test('again', st.tuples(st.integers(0, 255), st.integers(0, 63), st.integers(0, 11), gens.program(c32.NAMES, MOTIONS, min_lines=2, max_lines=7)).map(list), run_again, quick=2500),
     Test('crop', st.tuples(st.integers(0, 20), st.one_of(st.none(), st.integers(0, 20)), st.integers(0, 7), gens.program(c36.NAMES, c36.MOTIONS, min_lines=2, max_lines=7)).map(list), run_crop, quick=1500)],
    ["white space and blank lines aside"],
)
