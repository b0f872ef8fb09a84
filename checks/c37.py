"""C37: machines do not share state and processing does not alter its inputs."""
from hypothesis import strategies as st
from vlib.runner import Test, Property
from vlib.sut import Line, Machine, NullMachine, machine_class, near
from vlib import gens, ref
from .c15 import snap, apply, change
from .c17 import block_snap

NAMES = gens.MODES + gens.STOPS + ['G18', 'G91', 'G99', 'F', 'S', 'G43', 'G64']
KINDS = [('XYZ', True, Machine), ('XYZ', True, Machine), ('XYZ', True, Machine), ('XYZABC', True, machine_class('XYZABC')), ('XYZ', False, NullMachine)]


def spoil(block, how, v):
    """change the codes of a block"""
    codes = list(block.gcodes)
    for g in codes:
        for (l, w) in g.params.items():
            if how & 1:
                w.value = v % 50 + 1
            else:
                setattr(g, l, v % 70 + 1)
        if how & 2 and g.word.letter in 'FS':
            g.word.value = v % 90 + 1
        if how & 4:
            g.params.clear()
    for w in block.modal_params:
        w.value = v % 30 + 1
    if how & 8:
        del block.gcodes[:]
        del block.modal_params[:]
    for w in block.words:
        if w.letter not in 'GMON':
            w.value = v % 20 + 1


def run(c, ctx):
    (kinds, progs, sched, changes, way) = c
    ms = []
    plans = []
    for (k, prog) in zip(kinds, progs):
        (axes, default, cls) = KINDS[k]
        b = gens.Builder(default=default, axes=axes)
        for spec in prog:
            b.add(spec)
        plans.append(b.lines)
        ms.append(cls())
    done = [0] * len(ms)
    changed = [[] for _ in ms]
    blocks = []    # [block, snapshot]
    shared = {}
    history = []
    for (step, (i, op, v)) in enumerate(sched):
        i = i % len(ms)
        others = [(j, snap(m)) for (j, m) in enumerate(ms) if j != i]
        if op >= 8 and changes:
            # a direct change of the machine
            ch = changes[v % len(changes)]
            ch = [ch[0] % 5] + ch[1:]
            apply(ms[i], ch)
            changed[i].append((done[i], ch))
            history.append((i, ch))
            what = "%r" % history
        elif done[i] < len(plans[i]):
            x = plans[i][done[i]]
            done[i] += 1
            history.append((i, x.text))
            what = "%r" % history
            key = x.text
            if way & 1 and key in shared:
                block = shared[key]
                ctx.label('block processed twice')
            else:
                block = Line(x.text).block
                shared[key] = block
                blocks.append([block, block_snap(block)])
            if way & 2:
                ms[i].process_gcodes(*block.gcodes, modal_params=block.modal_params)
            else:
                ms[i].process_block(block)
        else:
            continue
        for (j, s) in others:
            ctx.eq(snap(ms[j]), s, "machine %d, when only %d worked: %s" % (j, i, what))
        for (block, s) in blocks:
            ctx.eq(block_snap(block), s, "block processed before, after %s" % what)
        if op % 4 == 0 and blocks:
            n = (v if op else len(blocks) - 1) % len(blocks)
            (block, _) = blocks[n]
            before = [snap(m) for m in ms]
            spoil(block, v % 16, v)
            ctx.label('block changed')
            for (j, s) in enumerate(before):
                ctx.eq(snap(ms[j]), s, "machine %d after block %r is changed: %s" % (j, str(block), what))
            blocks[n][1] = block_snap(block)
            for k in [k for k in shared if shared[k] is block]:
                del shared[k]
    # each as if it had been alone
    for (i, m) in enumerate(ms):
        k = KINDS[kinds[i]][2]()
        p = 0
        for n in range(done[i] + 1):
            while p < len(changed[i]) and changed[i][p][0] == n:
                apply(k, changed[i][p][1])
                p += 1
            if n < done[i]:
                k.process_block(Line(plans[i][n].text).block)
        ctx.eq(snap(m), snap(k), "machine %d of %r, against a machine alone" % (i, history))
        if not changed[i] and done[i]:
            for (a, v) in plans[i][done[i] - 1].after.pos.items():
                ctx.check(near(getattr(m.pos, a), float(v), 1e-7), "machine %d of %r: %s is %r, not %s", i, history, a, getattr(m.pos, a), v)
    # new machines are not affected
    for k in set(kinds):
        (axes, default, cls) = KINDS[k]
        m = cls()
        ctx.check(all(v == 0 for v in m.pos.values.values()) and all(v == 0 for v in m.abs_range_max.values.values()) and all(v == 0 for v in m.abs_range_min.values.values()),
                  "a new machine, after %r: %r", history, snap(m))
        r = ref.RefMachine(default=default, axes=axes)
        got = sorted(g.word.letter + ref.fmt(gens.Decimal(str(g.word.value))) for g in m.mode.gcodes)
        want = sorted(n if n not in 'FST' else n + ref.fmt(gens.Decimal(v)) for (n, v) in r.mode.values())
        ctx.eq(got, want, "mode of a new machine, after %r" % history)
        ctx.eq(m.state.cur_coord_sys, 1 if default else snap(m)['system'], "coordinate system of a new machine")
        ctx.check(all(v == 0 for cs in m.state.coord_systems.values() for v in cs.offset.values.values()), "offsets of a new machine, after %r", history)
    ctx.label('%d machines' % len(ms), 'changed directly' if any(changed) else 'programs only')
    ctx.trivial = sum(1 for d in done if d) < 2


PROPERTY = Property(
    'C37', "2-3 machines of the same or different kinds, each with a program, run by a random schedule with direct changes of machines and of "
    "blocks processed before (codes, parameters, words, lists), blocks shared or not; all other machines and blocks compared with "
    "snapshots after every step, and each machine in the end with one that was alone. Non-trivial: at least two machines ran something.",
    [Test('interleaved', st.integers(2, 3).flatmap(lambda n: st.tuples(
        st.lists(st.integers(0, len(KINDS) - 1), min_size=n, max_size=n),
        st.lists(gens.program(NAMES, min_lines=2, max_lines=6, with_comments=False), min_size=n, max_size=n),
        st.lists(st.tuples(st.integers(0, 2), st.integers(0, 9), st.integers(0, 1000)).map(list), min_size=4, max_size=18),
        st.lists(change, max_size=3), st.integers(0, 3)).map(list)), run, quick=1500)],
)
