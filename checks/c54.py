"""C54: machines of one process do not influence each other."""
import json
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Block, machine_class, mode_sig, Machine, NullMachine, MachineInvalidState, MachineInvalidAxis, GCodeParameterError, GCodeWordStrError
from vlib import gens, fresh
from .c15 import snap
from .c52 import default_text, AXES

NAMES = gens.MODES + gens.STOPS + gens.NONMODAL + ['G91', 'G99', 'G18', 'G20', 'G21']
REFUSED = (MachineInvalidState, MachineInvalidAxis, GCodeParameterError, GCodeWordStrError, AssertionError)


def make(kind, axes, text):
    if kind == 0:
        return Machine()
    if kind == 1:
        return NullMachine()
    return machine_class(axes, text or None, ignore=kind == 3)()


def one_line(m, text, change=0):
    """:param change: the words of the line are changed between reading it and processing it (1), or after that (2)"""
    try:
        block = Line(text).block
        words = [w for g in block.gcodes for w in list(g.params.values()) + [g.word] * (g.word.letter in 'FST')] + block.modal_params
        if change != 1:
            m.process_block(block)
        for w in words if change else []:
            w.value = '9' if w.letter == 'T' else w.value + 1
        if change == 1:
            m.process_block(block)
        return 'done'
    except REFUSED as e:
        return '%s %s' % (type(e).__name__, e)


def session(arg):
    """run machines line by line, in the order given
    :return: for each machine, what could be seen of it before and after every line"""
    (specs, order) = arg
    machines = [None] * len(specs)
    seen = [[] for _ in specs]
    done = [0] * len(specs)
    for i in list(order) + [i for i in range(len(specs)) for _ in range(len(specs[i][3]) + 1)]:
        (kind, axes, text, lines, offs) = specs[i][:5]
        change = specs[i][5] if len(specs[i]) > 5 else 0
        if machines[i] is None:
            m = machines[i] = make(kind, axes, text)
            gens.set_offsets(m, offs)
            seen[i].append(json.dumps(snap(m), sort_keys=True, default=repr))
        elif done[i] < len(lines):
            m = machines[i]
            r = one_line(m, lines[done[i]], change // 3 ** done[i] % 3)
            done[i] += 1
            seen[i].append(r + ' ' + json.dumps(snap(m), sort_keys=True, default=repr))
    return seen


def run(c, ctx):
    (raw, order) = c
    specs = []
    for r in raw:
        (kind, axes, picks, prog, offs, like) = r[:6]
        (text, codes) = default_text(picks)
        if kind < 2:
            (axes, text) = ('XYZ', '')
        b = gens.build(prog, axes=axes, offsets=gens.ref_offsets(offs))
        lines = [x.text for x in b.lines]
        if specs and like:
            # much like another one
            o = specs[-1]
            if like & 1:
                (kind, axes, text) = o[:3]
            if like & 2:
                lines = o[3] + lines
            if like & 4:
                lines = [l.replace('1', '2', 1) for l in o[3]]
        specs.append([kind, axes, text, lines, offs, r[6] if len(r) > 6 else 0])
    order = [i % len(specs) for i in order]
    together = fresh.call(__name__, 'session', [specs, order])
    for (i, (s, got)) in enumerate(zip(specs, together)):
        alone = fresh.call(__name__, 'session', [[s], []])[0]
        ctx.label(['Machine', 'NullMachine', 'own', 'ignoring'][s[0]])
        what = "machine %d of %r" % (i, [[x[0], x[1], x[2], x[3], x[5]] for x in specs])
        for (n, (a, b)) in enumerate(zip(got, alone)):
            ctx.eq(a, b, "%s, after %d lines, against alone in a process of its own" % (what, n))
        ctx.eq(len(got), len(alone), what)
        ctx.label('ran' if any(x.startswith('done') for x in alone) else 'did nothing', 'refused' if any(not x.startswith(('done', '{')) for x in alone) else 'never refused')
    ctx.trivial = not any(s[3] for s in specs)


spec = st.tuples(
    st.sampled_from([0, 0, 1, 2, 2, 2, 3]), st.sampled_from(AXES),
    st.lists(st.tuples(st.integers(0, 16), st.integers(0, 11), st.integers(0, 1023), st.integers(0, 9)).map(list), max_size=8),
    gens.program(NAMES, min_lines=0, max_lines=4), gens.work_offsets, st.sampled_from([0, 0, 1, 2, 3, 4, 5]), st.one_of(st.just(0), st.just(0), st.integers(0, 3 ** 7))).map(list)

PROPERTY = Property(
    'C54', "2-4 machines (plain, null, of random default modes and axes, ignoring invalid words or not; often alike) given random programs (now and then with the words of a line changed before or after it is processed), line by line in a random "
    "interleaving in one process; after every line each is in the state (or refuses the line as) it does when it is alone in a process of its own. Non-trivial: there are lines.",
    [Test('machines', st.tuples(st.lists(spec, min_size=2, max_size=4), st.lists(st.integers(0, 3), max_size=20)).map(list), run, quick=1600, fresh=True)],
    ["each process is forked from one that has imported the package and done nothing with it"],
)
