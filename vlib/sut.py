"""Access to the code under test, and conversions of its results to plain values (public API only)."""
import warnings
warnings.simplefilter('ignore')

import pygcode                                                        # noqa: E402
from pygcode import Word, Block, Line, Machine, Mode, Comment          # noqa: E402
from pygcode import gcodes as G                                       # noqa: E402
from pygcode import machine as M                                      # noqa: E402
from pygcode import words as W                                        # noqa: E402
from pygcode import transform as TR                                   # noqa: E402
from pygcode import utils as U                                        # noqa: E402
from pygcode import dialects                                          # noqa: E402
from pygcode.machine import Position, NullMachine, State              # noqa: E402
from pygcode.exceptions import (GCodeParameterError, GCodeWordStrError, GCodeBlockFormatError,   # noqa: E402
                                MachineInvalidAxis, MachineInvalidState)

EPS = 5.0001e-4


def subclasses(cls):
    """all classes derived from the given one, and it"""
    out = [cls]
    for sub in sorted(cls.__subclasses__(), key=lambda k: k.__name__):
        out += [k for k in subclasses(sub) if k not in out]
    return out


def wsig(w):
    return (w.letter, w.value)


def gsig(g):
    """(letter, value, sorted params) of a code"""
    return (g.word.letter, g.word.value, sorted((l, w.value) for (l, w) in g.params.items()))


def ref_value(letter, v):
    """value pygcode is to hold for a reference value"""
    if letter == 'T':
        return str(v)
    if letter == 'O':
        return v
    if letter in 'NL':
        return int(v)
    return float(v)


def ref_gsig(item):
    return (item.letter, ref_value(item.letter, item.value),
            sorted((l, ref_value(l, v)) for (l, v) in item.params))


def close(a, b, eps=1e-9):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b))


def near(a, b, eps=EPS):
    """equal to printed resolution"""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= eps + 1e-12 * abs(a)


def mode_sig(mode, groups=None):
    """{group name: (letter, value, params)} of a machine's mode"""
    from .ref import GROUPS
    out = {}
    for g in (groups or GROUPS):
        code = getattr(mode, g)
        if code is not None:
            out[g] = gsig(code)
    return out


def pos_dict(p):
    return dict(p.values)


def ref_pos(d):
    return dict((k, float(v)) for (k, v) in d.items())


def check_pos(ctx, got, want, what, eps=1e-7):
    """got: Position; want: {axis: number}"""
    vals = got.values
    if set(got.axes) != set(want):
        ctx.fail("%s: axes %s, expected %s" % (what, sorted(got.axes), sorted(want)))
    for (k, v) in want.items():
        g = getattr(got, k)
        if not (abs(g - float(v)) <= eps):
            ctx.fail("%s: %s is %r, expected %s (all: %r)" % (what, k, g, v, vals))


def ref_mode_sig(m, groups=None):
    """same as mode_sig for a RefMachine"""
    from .ref import GROUPS
    from decimal import Decimal
    out = {}
    for g in (groups or GROUPS):
        if g not in m.mode:
            continue
        (name, value) = m.mode[g]
        st = m.sticky if g == 'motion' else m.extra.get(g, {})
        out[g] = (name[0], ref_value(name[0], value), sorted((l, ref_value(l, v)) for (l, v) in st.items()))
    return out


def machine_class(axes='XYZ', default_mode=None, ignore=False):
    attrs = {'axes': set(axes)}
    if default_mode is not None:
        attrs['MODE_CLASS'] = type('AMode', (Mode,), {'default_mode': default_mode})
    if ignore:
        attrs['ignore_invalid_modal'] = True
    return type('AMachine', (Machine,), attrs)
