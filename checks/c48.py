"""C48: malformed options are refused before anything is output."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib import gens, scripts

num = st.integers(-999, 9999).map(lambda n: '%g' % (n / 10.))
integer = st.integers(0, 50).map(str)
good = st.one_of(
    st.tuples(st.sampled_from(['', '=', 'n=', 'N>=', 'n<', 'n!=', 'n==']), integer).map(''.join),
    st.tuples(st.sampled_from('abcxyzABCXYZ'), st.sampled_from(['=', '==', '!=', '<', '<=', '>', '>=']), num).map(''.join),
)
bad = st.one_of(
    st.tuples(st.sampled_from('defghijklmopqrstuvwDEFGUVW#_.'), st.sampled_from(['=', '<', '>=']), num).map(''.join),     # no such variable
    st.tuples(st.sampled_from('nxyz'), st.sampled_from(['=', '==', '!=', '<', '<=', '>', '>='])).map(''.join),             # no value
    st.tuples(st.sampled_from('xyzabc'), st.sampled_from(['=>', '=<', '!', '<>', '===', '~', '<<', '>>', '=!', '']), num.filter(lambda s: s[0] != '-')).map(''.join).filter(lambda s: len(s) > 1),
    st.tuples(st.sampled_from(['n=', 'n>', '', '=', 'N<=']), st.integers(0, 50), st.integers(1, 9)).map(lambda t: '%s%d.%d' % t),   # fraction of a line
    st.tuples(st.sampled_from(['x=', 'y<', 'n>=', '']), st.sampled_from(['1e3', '1.', '.5', '+1', '--1', 'nan', 'inf', '1.2.3', '0x1', '1,', ',1', '1_0', '1 2', 'x', 'one'])).map(''.join),
    st.sampled_from(['xx=1', 'xy>2', 'x = = 1', 'x>1y>1', 'x>1 y>1', 'x>1;y>1', '(x>1)', '1-5', '-', '*', '=', '!=', '<', 'x', 'n']),
)


def join(conds, extra, at):
    cs = list(conds)
    if extra is not None:
        cs.insert(at % (len(cs) + 1), extra)
    return ','.join(cs)


def run_range(c, ctx):
    (first, last, wrong, side, at, colons, prog, attached) = c
    texts = [x.text for x in gens.build(prog, default=False).lines]
    text = '\n'.join(texts) + '\n'
    a = join(first, wrong if side == 0 else None, at)
    b = join(last, wrong if side == 1 else None, at)
    if side == 2:
        # fine, but not as a range
        rng = [a + b, a + ':' + b + ':', ':' + a + ':' + b, a + '-' + b, ''][colons % 5]
        if rng.count(':') == 1:
            rng += ':'
        ctx.label('colons')
    else:
        rng = a + ':' + b
        ctx.label('condition')
    if rng.startswith('-'):
        rng = ' ' + rng     # (not an option)
    ctx.trivial = not (first or last)
    (rc, out, err) = scripts.attempt('pygcode-crop', ['@', rng], text)
    ctx.eq((rc, out), (2, ''), "exit and output of pygcode-crop with range %r (%s)" % (rng, err[-300:]))
    ctx.check('usage' in err and 'range' in err.split('error:')[-1], "message of pygcode-crop with range %r: %s", rng, err[-300:])
    # the same without what's wrong is fine
    if side != 2:
        rng = join(first, None, 0) + ':' + join(last, None, 0)
        (rc, out, err) = scripts.attempt('pygcode-crop', ['@', ' ' + rng if rng.startswith('-') else rng], text)
        ctx.eq((rc, err), (0, ''), "exit of pygcode-crop with range %r" % rng)


WORDS = ['G81', 'G73', 'M6', 'F1', 'g2', 'S0', 'G91.1', 'X1', 'M30']
BAD_WORDS = ['', '1', 'foo', 'G', 'GG1', 'M6 M7', '#1', 'G1;', '(G1)', '-G1', 'Xa', 'G1-', '.', 'm', 'G 1 2', '%']
OPTIONS = {
    'method': (['--arc_lin_method', '-alm'], ['x', 'i,x', 'x,i', 'i,o,m', 'io', 'i;o', ',', 'i,', ',o', 'mid', 'inner', 'n', '1', 'i o', 'i, o']),
    'precision': (['--arc_precision', '-alp'], ['0', '0.0', '-0', 'abc', '', 'nan', '1e', '1,5', '0x1', '1 2', '1mm', '--', '-1', '-0.01', '-1e-9']),
    'height': (['--rapid_safety_height', '-rsh'], ['abc', '', '1,5', '1mm', '0x1', '1 2', 'Z5', '1e', '..5']),
    'expand': (['--canned_codes', '-cc'], None),
    'remove': (['--rm_gcodes', '-rmg'], None),
    'unknown': (['--foo', '--single_', '-x', '--arc_linearise', '--rm_all', '--Full'], ['']),
}


def run_option(c, ctx):
    (kind, name, value, words, at, flags, prog) = c
    texts = [x.text for x in gens.build(prog).lines]
    text = '\n'.join(texts) + '\n'
    (names, values) = OPTIONS[kind]
    if values is None:
        ws = [WORDS[w % len(WORDS)] for w in words]
        ws.insert(at % (len(ws) + 1), BAD_WORDS[value % len(BAD_WORDS)])
        v = ','.join(ws)
    else:
        v = values[value % len(values)]
    n = names[name % len(names)]
    if kind == 'unknown':
        opts = [n]
    else:
        opts = [n + '=' + v] if n.startswith('--') else [n + v] if v and v[0] == '-' else [n, v]
        if n == '-alp' and v.startswith('-') and v not in ('--',):
            opts = ['--arc_precision=' + v]
    opts += [f for (i, f) in enumerate(['-al', '-ce', '-f', '-s', '-zxy']) if flags & (1 << i)]
    ctx.label(kind)
    ctx.trivial = not flags
    (rc, out, err) = scripts.attempt('pygcode-norm', ['@'] + opts, text)
    ctx.eq((rc, out), (2, ''), "exit and output of pygcode-norm %r (%s)" % (opts, err[-300:]))
    ctx.check('usage' in err and 'error:' in err, "message of pygcode-norm %r: %s", opts, err[-300:])


NAMES = ['F', 'M3', 'G90', 'G91']
PROPERTY = Property(
    'C48', "Ranges with one malformed condition among valid ones, or with the wrong number of colons, and malformed values of every option of "
    "pygcode-norm, given with programs and other options: usage error, exit 2, no output. Non-trivial: something valid is given besides.",
    [Test('range', st.tuples(st.lists(good, max_size=2), st.lists(good, max_size=2), bad, st.integers(0, 2), st.integers(0, 3), st.integers(0, 4), gens.program(NAMES, max_lines=3, with_comments=False), st.booleans()).map(list), run_range, quick=1500),
     Test('option', st.tuples(st.sampled_from(sorted(OPTIONS)), st.integers(0, 9), st.integers(0, 30), st.lists(st.integers(0, 20), max_size=3), st.integers(0, 3), st.integers(0, 31), gens.program(NAMES, max_lines=3, with_comments=False)).map(list), run_option, quick=1000)],
)
