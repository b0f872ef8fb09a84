"""C47: the scripts read every form of the same file alike."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, scripts

NAMES = gens.ALL_EXTRAS + ['G43', 'G64']
OPTS = ['--singles', '--full', '--rm_comments', '--rm_blanks', '--rm_whitespace', '--arc_linearize', '--canned_expand', '--zero_xy', '--spindle_off']
RANGES = ['1:3', '2:', ':4', 'n>=2:z<0', 'x!=0:y>5', '3:3', ':', '5:2']


def tidy(text):
    """lines without what looks like a line end to some readers"""
    return ''.join(ch for ch in text if ch >= ' ' or ch == '\t')


def run(c, ctx, runner=scripts.attempt):
    (which, mask, rng, prog, blank, start) = c
    texts = [tidy(x.text) for x in gens.build(prog, default=not which).lines] + [''] * blank
    if start:
        texts = [''] * start + texts
    lf = '\n'.join(texts)
    forms = {'line feeds': lf + '\n', 'carriage returns': '\r\n'.join(texts) + '\r\n'}
    if texts and texts[-1]:
        forms['no last line end'] = lf
        forms['carriage returns, no last line end'] = '\r\n'.join(texts)
    if which:
        (name, opts) = ('pygcode-crop', [RANGES[rng]])
    else:
        (name, opts) = ('pygcode-norm', [o for (i, o) in enumerate(OPTS) if mask & (1 << i)])
    what = '%s %s of %r' % (name, opts, texts)
    def result(r):
        # (a refusal's text contains a traceback when it is a process)
        return r if r[0] == 0 else (r[0], r[1], '')

    (rc, want, err) = scripts.attempt(name, ['@'] + opts, forms['line feeds'])
    # some canned cycles cannot be expanded (eg: outside the XY plane); then no form can be processed
    ctx.check(rc in (0, 1) if '--canned_expand' in opts else rc == 0, "%s exits with %r: %s", what, rc, err)
    expect = (rc, want, '')
    ctx.check(want == '' or want.endswith('\n'), "end of the output of " + what)
    ctx.check('\r' not in want, "carriage return in the output of %s: %r", what, want)
    ctx.label(name if rc == 0 else name + ' refuses')
    ctx.trivial = not want.strip()
    for (form, text) in forms.items():
        if runner is not scripts.attempt and form in ('line feeds', 'no last line end'):
            if form == 'no last line end':
                continue
        got = runner(name, ['@'] + opts, text)
        ctx.eq(result(got), expect, "with %s: %s" % (form, what))
    ctx.eq(result(runner(name, ['-'] + opts, '', stdin=forms['line feeds'])), expect, "from standard input: " + what)


def run_process(c, ctx):
    run(c, ctx, runner=scripts.process)


case = st.tuples(st.integers(0, 1), st.integers(0, 511), st.integers(0, len(RANGES) - 1), gens.program(NAMES, max_lines=8), st.integers(0, 2), st.integers(0, 1)).map(list)
PROPERTY = Property(
    'C47', "Random programs written with LF or CRLF line ends, with or without the last one, given as a file or on "
    "standard input, to pygcode-norm (512 sets of options) and pygcode-crop, in this process and as separate processes: same output. Non-trivial: there is output.",
    [Test('forms', case, run, quick=800), Test('process', case, run_process, quick=16, thorough=400)],
)
