"""Runs the tests of one property: regressions and known findings first, then generated cases on
several processes. Everything random comes from Hypothesis seeded with VERIF_SEED."""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

from . import fresh

HANG_CPU_S = 40      # CPU seconds a single case may use before it counts as non-terminating
SHARDS = 8
SOFT_WALL = {'quick': 150, 'thorough': 5400}


class Violation(Exception):
    pass


class Ctx(object):
    """Given to every test run: classification of the case, and checks."""
    def __init__(self):
        self.labels = []
        self.trivial = False

    def label(self, *names):
        self.labels.extend(names)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation((msg % args) if args else msg)

    def eq(self, got, want, what):
        if got != want:
            raise Violation("%s: got %r, expected %r" % (what, got, want))


class Test(object):
    def __init__(self, name, strategy, run, quick=2000, thorough=None, fresh=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.fresh = fresh     # uses vlib.fresh
        self.n = {'quick': quick, 'thorough': thorough or quick * 40}


class Property(object):
    def __init__(self, pid, rule, tests, assumptions=()):
        self.pid, self.rule, self.tests, self.assumptions = pid, rule, tests, list(assumptions)

    def test(self, name):
        for t in self.tests:
            if t.name == name:
                return t
        raise KeyError(name)


# ---------------------------------------------------------------- single case
def run_case(test, case):
    """:return: (ctx, None or failure message)"""
    ctx = Ctx()
    try:
        test.run(case, ctx)
    except Violation as e:
        return (ctx, str(e))
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
        return (ctx, "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where))
    return (ctx, None)


def _jdefault(o):
    return str(o)


def dumps(case):
    return json.dumps(case, separators=(',', ':'), default=_jdefault)


class Slot(object):
    """Shared memory in which a shard notes the case it is running (readable after it dies)."""
    SIZE = 1 << 20

    def __init__(self):
        self.mm = mmap.mmap(-1, self.SIZE)

    def write(self, name, text):
        data = ('%s\n%s' % (name, text)).encode('utf-8')[:self.SIZE - 8]
        self.mm[:8] = b'%08d' % len(data)
        self.mm[8:8 + len(data)] = data

    def read(self):
        n = int(self.mm[:8] or b'0')
        (name, _, text) = self.mm[8:8 + n].decode('utf-8', 'replace').partition('\n')
        return (name, text)


def guarded(slot, test, case, text=None):
    slot.write(test.name, dumps(case) if text is None else text)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
    try:
        return run_case(test, case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# ---------------------------------------------------------------- shard
class _Fail(Exception):
    pass


def make_body(test, state, out, hashes, stop_flag, t_end, slot, n):
    def body(case):
        if state['fail'] is None and (stop_flag[0] != 0 or time.time() > t_end):
            out['skipped'] += 1
            return
        text = dumps(case)
        (ctx, msg) = guarded(slot, test, case, text)
        state['evals'] += 1
        if msg is not None:
            state['fail'] = (case, msg)
            stop_flag[0] = 1
            raise _Fail(msg)
        if state['fail'] is None:
            for lab in ctx.labels:
                out['labels'][test.name + ':' + lab] += 1
            if not ctx.trivial:
                h = hashlib.blake2b((test.name + text).encode(), digest_size=7).hexdigest()
                if h not in hashes:
                    hashes.add(h)
                    state['nt'] += 1
                    if state['samples'] < 2 and (state['evals'] > 20 or n < 40) and len(text) < 1500:
                        state['samples'] += 1
                        out['samples'].append({'test': test.name, 'case': json.loads(text)})
    return body


def shard_main(prop, tier, seed, shard, out_path, slot, stop_flag, t_end, only):
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    from hypothesis import errors as herrors
    try:
        from hypothesis.internal.conjecture import engine
        engine.MAX_SHRINKING_SECONDS = 25
    except Exception:
        pass
    out = {'evals': 0, 'hashes': [], 'labels': Counter(), 'samples': [], 'violations': [], 'per_test': {}, 'skipped': 0}
    hashes = set()
    if any(t.fresh for t in prop.tests):
        fresh.start()
    for test in prop.tests:
        if only and test.name != only:
            continue
        n = max(1, test.n[tier] // SHARDS)
        s = zlib.crc32(('%s/%s/%d/%d' % (prop.pid, test.name, seed, shard)).encode())
        state = {'fail': None, 'evals': 0, 'nt': 0, 'samples': 0}

        body = make_body(test, state, out, hashes, stop_flag, t_end, slot, n)
        f = given(test.strategy)(body)
        f = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                     report_multiple_bugs=False, print_blob=False,
                     suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate, Phase.shrink))(f)
        f = hseed(s)(f)
        try:
            f()
        except _Fail:
            pass
        except herrors.Flaky:
            pass
        except BaseException as e:
            if state['fail'] is None:
                raise
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        if state['fail'] is not None:
            (case, msg) = state['fail']
            out['violations'].append({'test': test.name, 'case': json.loads(dumps(case)), 'message': msg, 'shard': shard})
        out['evals'] += state['evals']
        out['per_test'][test.name] = [state['evals'], state['nt']]
        if out['violations']:
            break
    out['hashes'] = sorted(hashes)
    with open(out_path, 'w') as fh:
        json.dump(out, fh, default=_jdefault)


def spawn(fn, *args):
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        fn(*args)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


# ---------------------------------------------------------------- fixed cases (regressions, known findings)
def fixed_main(prop, items, out_path, slot):
    res = []
    if any(t.fresh for t in prop.tests):
        fresh.start()
    for it in items:
        (ctx, msg) = guarded(slot, prop.test(it['test']), it['case'])
        res.append(msg)
        with open(out_path, 'w') as fh:
            json.dump(res, fh)
    with open(out_path, 'w') as fh:
        json.dump(res, fh)


def run_fixed(prop, items, tmp):
    """Run given cases; :return: list of failure message or None"""
    results = []
    while len(results) < len(items):
        rest = items[len(results):]
        slot = Slot()
        path = os.path.join(tmp, 'fixed.json')
        if os.path.exists(path):
            os.unlink(path)
        pid = spawn(fixed_main, prop, rest, path, slot)
        (_, status) = os.waitpid(pid, 0)
        got = json.load(open(path)) if os.path.exists(path) else []
        results += got
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
            results.append("did not terminate within %d s of CPU time" % HANG_CPU_S)
        elif status:
            raise RuntimeError("fixed case runner ended with status %r" % status)
    return results


def load_prop(pid):
    return importlib.import_module('checks.' + pid.lower()).PROPERTY


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--test')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args(argv)
    t0 = time.time()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    pid = args.property
    evdir = os.path.join(here, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    try:
        return _main(args, tier, seed, pid, here, repo, evdir, t0)
    except Exception:
        traceback.print_exc()
        print("HARNESS ERROR in check of %s" % pid)
        return 2


def _main(args, tier, seed, pid, here, repo, evdir, t0):
    prop = load_prop(pid)
    for t in prop.tests:
        t.n[tier] = int(t.n[tier] * args.scale)

    if args.replay:
        it = json.load(open(args.replay))
        with tempfile.TemporaryDirectory() as tmp:
            msg = run_fixed(prop, [it], tmp)[0]
        if msg is None:
            print("replay of %s: property %s holds on this case" % (args.replay, pid))
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, args.replay))
        return 1

    violations = []
    known_lines = []
    tmpdir = tempfile.TemporaryDirectory(prefix='vchk')
    tmp = tmpdir.name

    # --- fixed cases
    reg_path = os.path.join(here, 'regress', pid + '.json')
    reg = json.load(open(reg_path)) if os.path.exists(reg_path) else []
    kf_path = os.path.join(here, 'known_findings.json')
    known = [k for k in json.load(open(kf_path))['known'] if k['property'] == pid] if os.path.exists(kf_path) else []
    n_fixed = 0
    if not args.test:
        for (it, msg) in zip(reg, run_fixed(prop, reg, tmp)):
            n_fixed += 1
            if msg is not None:
                violations.append({'test': it['test'], 'case': it['case'], 'message': 'regression: ' + msg})
        for (it, msg) in zip(known, run_fixed(prop, known, tmp)):
            n_fixed += 1
            if msg is not None:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, it['what']))
    known_cases = set((k['test'], dumps(k['case'])) for k in known)

    # --- generated cases
    evals = n_fixed
    labels = Counter()
    hashes = set()
    samples = []
    per_test = {}
    skipped = 0
    if not violations:
        stop_flag = mmap.mmap(-1, 16)
        stop_flag[0] = 0
        t_end = t0 + SOFT_WALL[tier]
        children = {}
        for shard in range(SHARDS):
            slot = Slot()
            path = os.path.join(tmp, 'shard%d.json' % shard)
            children[spawn(shard_main, prop, tier, seed, shard, path, slot, stop_flag, t_end, args.test)] = (shard, path, slot)
        bad = []
        while children:
            (p, status) = os.wait()
            if p not in children:
                continue
            (shard, path, slot) = children.pop(p)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGVTALRM:
                stop_flag[0] = 1
                (name, text) = slot.read()
                violations.append({'test': name, 'case': json.loads(text), 'shard': shard,
                                   'message': "did not terminate within %d s of CPU time" % HANG_CPU_S})
                continue
            if status:
                bad.append((shard, status))
                continue
            out = json.load(open(path))
            evals += out['evals']
            labels.update(out['labels'])
            hashes.update(out['hashes'])
            samples += out['samples']
            skipped += out['skipped']
            violations += out['violations']
            for (k, v) in out['per_test'].items():
                per_test[k] = [a + b for (a, b) in zip(per_test.get(k, [0, 0]), v)]
        if bad and not violations:
            raise RuntimeError("shards failed: %r" % bad)
    violations = [v for v in violations if (v['test'], dumps(v['case'])) not in known_cases]

    # --- evidence
    samples.sort(key=lambda s: (s['test'], dumps(s['case'])))
    pick, seen = [], Counter()
    for s in samples:
        if seen[s['test']] < 2:
            seen[s['test']] += 1
            pick.append(s)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(hashes),
            'rule': prop.rule,
            'samples': pick or [{'test': v['test'], 'case': v['case']} for v in violations[:1]],
            'per_test_evaluations_and_distinct_nontrivial': per_test,
            'distribution': dict(labels.most_common(80)),
            'regression_and_known_cases': n_fixed,
            'generated_but_skipped_after_stop_or_budget': skipped,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=_jdefault)

    for line in known_lines:
        print(line)
    if violations:
        v = min(violations, key=lambda v: (v['message'].startswith('did not'), len(dumps(v['case']))))
        path = os.path.join(evdir, 'replay', '%s-seed%d.json' % (pid, seed))
        with open(path, 'w') as fh:
            json.dump(dict(v, property=pid), fh, indent=1, default=_jdefault)
        print("%s [%s]: %s" % (pid, v['test'], v['message'][:1500]))
        print("minimal case: %s" % dumps(v['case'])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held on %d cases (%d distinct non-trivial) in %.1f s [%s]" % (pid, evals, len(hashes), wall, tier))
    return 0
