"""C57: no text, and no program, makes reading it take for ever."""
import signal
import time
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, W, GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError
from pygcode.comment import split_line

LIMIT = 2.0     # CPU seconds; what the tree needs is 0.2 at most
ANY = st.characters(codec='utf-8', exclude_characters='\n', exclude_categories=('Cs',))
PIECES = list('(((;;%%)) \t.-+0123459') + ['G1', 'G', 'X', 'X1', 'X-', 'X1.', 'X.', 'M3', 'F1', '()', '(a)', '(%', '%(', ';(', '(;', ' (', ') ', '. ', '  ', '-.', 'G1 X2', 'X1 Y2 ', 'O', 'N1', 'E', '_', '\u00e9', '\x0b', '\r']
piece = st.one_of(st.sampled_from(PIECES), st.sampled_from(PIECES), ANY)
part = st.lists(piece, max_size=3).map(''.join)
case = st.tuples(st.lists(st.tuples(part, st.one_of(st.integers(1, 4), st.integers(1, 2000), st.integers(500, 2000))).map(list), min_size=1, max_size=4), part).map(list)

# a number of a very long text, then something that isn't part of it
number = st.tuples(st.tuples(st.sampled_from(['X', 'G', 'N', 'T', 'F', 'M', 'S', 'Y1X', 'G1X', 'X-', 'X.', 'X1.', 'X 1']), st.sampled_from(['1', '0', '9', '12', '1 ', ' ', '.', '00', '-', '1.', '.1']), st.integers(30, 1000)),
                   st.sampled_from(['', '.', '..', '.5.', '.5.5', '-', '+', ',', '_', ' ', ')', '(', '%', ';', 'E', 'e5', '.Y', 'Y', '\t.', '. 5', '!', '.,']), st.booleans())
number = number.map(lambda t: [[[t[0][0], 1], [t[0][1], t[0][2]]] + ([[t[1], 1], ['1', t[0][2]]] if t[2] else []), t[1]])


slow = set()      # cases known to be slow
ENOUGH = 25       # (how many are tried, when looking for the smallest one)


class Slow(BaseException):
    pass


def alarm(*_):
    raise Slow()


def timed(ctx, key, call, what):
    """call(), within the limit"""
    (old, left) = (signal.signal(signal.SIGPROF, alarm), None)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    late = False
    t = time.process_time()
    try:
        try:
            return call()
        except (GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError):
            return None
        except AssertionError as e:
            if 'cannot be in the same block' not in str(e):
                raise
            return None
    except Slow:
        late = True
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    t = time.process_time() - t
    if late:
        slow.add(key)
    ctx.check(not late, "%s is not done after %.1f seconds", what, t)


def run(c, ctx):
    (parts, tail) = c
    text = ''
    for (p, n) in parts:
        text += p * min(n, 4000 // max(len(p), 1))
    text = text[:4000] + tail
    key = text
    if len(slow) >= ENOUGH and key not in slow:
        return
    short = '%s + %r' % (' + '.join('%r * %d' % (p, n) for (p, n) in parts), tail)
    ctx.label('%s characters' % (len(text) if len(text) < 10 else '10+' if len(text) < 100 else '100+' if len(text) < 1000 else '1000+'))
    ctx.trivial = len(text) < 100
    line = timed(ctx, key, lambda: Line(text), 'Line(%s)' % short)
    ctx.label('parsed' if line else 'refused')
    if line:
        again = timed(ctx, key, lambda: str(line), 'printing Line(%s)' % short)
        timed(ctx, key, lambda: Line(again), 'reading what is printed of Line(%s)' % short)
    timed(ctx, key, lambda: split_line(text), 'split_line(%s)' % short)
    timed(ctx, key, lambda: list(W.text2words(text)), 'text2words(%s)' % short)


PROPERTY = Property(
    'C57', "Lines of up to 4000 characters made of few pieces repeated many times (brackets, semicolons, percent signs, white space, numbers, words), and numbers of thousands of characters, "
    "read, printed and read again, each within %d CPU seconds. Non-trivial: 100 characters or more." % LIMIT,
    [Test('line', case, run, quick=4000),
     Test('number', number, run, quick=1500)],
    ["'for ever' is %d seconds of CPU time for 4000 characters (the tree needs 0.2 at most)" % LIMIT],
)
