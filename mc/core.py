"""Exhaustive exploration of the real code: choice-prefix DFS, scenario pool, evidence, replay.

A check module offers
    ID, LEVEL, RULE, BOUNDS           text
    scenarios(tier) -> list of dicts  (JSON-able, simplest first; the finite configuration lattice)
    run(sc, ch, ctx)                  one execution of the real code; ch.choose(n) is every environment answer
The engine enumerates every choice sequence of every scenario (depth-first, replaying prefixes).
A different number of alternatives at a replayed choice point is a hard error (uncaught nondeterminism).
"""
import hashlib
import json
import os
import pathlib
import signal
import struct
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

import numpy as np

from . import load as _load

ROOT = pathlib.Path(__file__).resolve().parent.parent
CPU_LIMIT = 90.  # CPU seconds for one scenario slice without progress


class Violation(Exception):
    """The property does not hold in this execution."""


class Divergence(Exception):
    """A replayed prefix met a different choice point."""


class Hang(Exception):
    pass


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.choices = []
        self.sizes = []

    def choose(self, n, label=''):
        i = len(self.choices)
        if i < len(self.prefix):
            c, expect = self.prefix[i]
            if expect != n:
                raise Divergence('choice %d (%s): %d alternatives instead of %d' % (i, label, n, expect))
        else:
            c = 0
        self.choices.append(c)
        self.sizes.append(n)
        return c

    def pick(self, seq, label=''):
        return seq[self.choose(len(seq), label)]


def canon(obj):
    """Canonical bytes of an observable (floats rounded to 10 significant digits)."""
    if isinstance(obj, (list, tuple)):
        return b'(' + b','.join(canon(o) for o in obj) + b')'
    if isinstance(obj, dict):
        return b'{' + b','.join(canon(k) + b':' + canon(obj[k]) for k in sorted(obj, key=str)) + b'}'
    if obj is None:
        return b'N'
    if isinstance(obj, (str, bytes)):
        return obj.encode() if isinstance(obj, str) else obj
    if hasattr(obj, 'detach'):
        obj = obj.detach().cpu().numpy()
    a = np.asarray(obj)
    if a.dtype == object:
        return repr(obj).encode()
    if a.dtype.kind in 'fc':
        with np.errstate(all='ignore'):
            f = a.astype(np.float32)
        return str(a.shape).encode() + (f + np.float32(0)).tobytes()
    return str(a.shape).encode() + a.astype(np.int64).tobytes()


def digest(obj):
    return struct.unpack('<q', hashlib.blake2b(canon(obj), digest_size=8).digest())[0]


class Ctx:
    """Counters of what was explored; one per scenario slice, merged by the engine."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.known = {}
        self.capped = 0
        self._exec = hashlib.blake2b(digest_size=8)

    # model checking
    def state(self, *obs):
        d = digest(obs)
        self.states.add(d)
        self._exec.update(struct.pack('<q', d))

    def step(self, n=1):
        self.transitions += n

    # exploration
    def case(self, key, nontrivial=True, n=1):
        self.evaluations += n
        d = digest(key)
        if nontrivial:
            self.nontrivial.add(d)
        self._exec.update(struct.pack('<q', d))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop('_exec')
        return d

    def end(self):
        d = self._exec.digest()
        self.outcomes.add(d)
        self._exec = hashlib.blake2b(digest_size=8)
        self.executions += 1
        return d


def in_repo(fn):
    return os.path.realpath(fn).startswith(_load.REPO + os.sep)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    fr = [f for f in tb if in_repo(f.filename)]
    where = ''
    if fr:
        where = ' at %s:%d (%s)' % (os.path.relpath(fr[-1].filename, _load.REPO), fr[-1].lineno, fr[-1].name)
    else:
        where = ' at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
    return '%s: %s%s' % (type(exc).__name__, exc, where)


def execute(mod, sc, prefix, ctx):
    """One execution.  Returns (chooser, error or None)."""
    ch = Chooser(prefix)
    try:
        mod.run(sc, ch, ctx)
        err = None
    except Violation as e:
        err = str(e)
    except Divergence:
        raise
    except Hang:
        err = 'does not terminate within %g CPU seconds' % CPU_LIMIT
    except (KeyboardInterrupt, MemoryError, SystemExit):
        raise
    except Exception as e:  # a supported scenario must not raise
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        err = 'unexpected exception ' + describe(e)
    return ch, err


def _alarm(*_):
    raise Hang()


def explore(mod, sc, start=(), limit=None):
    """All executions of scenario sc whose choices extend `start`."""
    ctx = Ctx()
    stack = [list(start)]
    fails = []
    first = True
    t_end = time.process_time() + limit if limit else None
    while stack:
        prefix = stack.pop()
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            ch, err = execute(mod, sc, prefix, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        d = ctx.end()
        if first and err is None:  # ownership of nondeterminism: the same schedule twice, same observations
            first = False
            c2 = Ctx()
            ch2, err2 = execute(mod, sc, list(zip(ch.choices, ch.sizes)), c2)
            if err2 is None and (c2.end() != d or ch2.sizes != ch.sizes):
                err = 'the same schedule executed twice gives different observations'
        if err is not None:
            key = None
            if hasattr(mod, 'known'):
                key = mod.known(sc, ch.choices, err)
            if key is None:
                fails.append((ch.choices, ch.sizes, err))
                break
            ctx.known[key] = err
        bound = sc.get('dev')
        cost = sum(1 for c in ch.choices[:len(prefix)] if c)
        for i in range(len(ch.choices) - 1, len(prefix) - 1, -1):
            if bound is not None and cost + 1 > bound:
                continue
            for alt in range(ch.sizes[i] - 1, 0, -1):
                stack.append(list(zip(ch.choices[:i], ch.sizes[:i])) + [(alt, ch.sizes[i])])
        if t_end and time.process_time() > t_end:
            ctx.capped = len(stack)
            break
    return ctx, fails


_MOD = None
_SCS = None


def _work(i):
    t = time.time()
    try:
        ctx, fails = explore(_MOD, _SCS[i])
        return i, ctx, fails, None, time.time() - t
    except Divergence as e:
        return i, Ctx(), [([], [], 'uncaught nondeterminism: ' + str(e))], None, time.time() - t
    except BaseException:
        return i, Ctx(), [], traceback.format_exc(), time.time() - t


def load_known():
    p = ROOT / 'known_findings.json'
    return json.loads(p.read_text()) if p.exists() else {'findings': [], 'fixed': []}


def main(mod, argv):
    t0 = time.time()
    pid = mod.ID
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    global _MOD, _SCS
    _MOD = mod
    if '--replay' in argv:
        r = json.loads(pathlib.Path(argv[argv.index('--replay') + 1]).read_text())
        ch, err = execute(mod, r['scenario'], list(zip(r['choices'], r['sizes'])), Ctx())
        print('replay of %s: %s' % (r['scenario'], err or 'no violation'))
        return 1 if err else 0
    _SCS = scs = list(mod.scenarios(tier))
    if os.environ.get('VERIF_ONLY'):
        _SCS = scs = [s for s in scs if os.environ['VERIF_ONLY'] in json.dumps(s)]
    if os.environ.get('VERIF_STRIDE'):  # development: every k-th scenario only
        _SCS = scs = scs[::int(os.environ['VERIF_STRIDE'])]
    assert scs, 'no scenarios'
    json.dumps(scs)
    total = Ctx()
    fails, broken = {}, []
    slow = []
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    order = list(range(len(scs)))
    if nproc > 1 and len(scs) > 1:
        ex = ProcessPoolExecutor(min(nproc, len(scs)), mp_context=mp.get_context('fork'))
        try:
            res = ex.map(_work, order, chunksize=max(1, min(getattr(mod, 'CHUNK', 4), len(scs) // (4 * nproc))))
            for r in res:
                _merge(total, r, fails, broken, slow)
                if fails and not os.environ.get('VERIF_ALL'):
                    break
        finally:
            for p in list(getattr(ex, '_processes', {}).values()):
                if fails or broken:
                    p.terminate()
            ex.shutdown(wait=not (fails or broken), cancel_futures=True)
    else:
        for i in order:
            _merge(total, _work(i), fails, broken, slow)
            if fails and not os.environ.get('VERIF_ALL'):
                break
    if broken:
        print(broken[0], file=sys.stderr)
        print('ERROR: the check itself failed', file=sys.stderr)
        return 2
    known = {k['id']: k for k in load_known()['findings'] if k['property'] == pid}
    for key, msg in sorted(total.known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]['what'] if key in known else key))
    wall = round(time.time() - t0, 2)
    rc = 0
    rdir = ROOT / 'evidence' / 'replay'
    rdir.mkdir(parents=True, exist_ok=True)
    for i in sorted(fails)[:5]:
        choices, sizes, err = fails[i][0]
        path = rdir / ('%s-%d.json' % (pid, i))
        path.write_text(json.dumps(dict(property=pid, scenario=scs[i], choices=choices, sizes=sizes,
                                        message=err), indent=1))
        print('scenario %s choices %s' % (json.dumps(scs[i]), choices))
        print('  ' + err)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    samples = []
    for s in total.samples[:4]:
        samples.append(s)
    if not samples:
        samples = [json.dumps(scs[0]), json.dumps(scs[-1])]
    cov = dict(scenarios=len(scs), executions=total.executions, distinct_outcomes=len(total.outcomes),
               samples=samples, bounds=mod.BOUNDS, rule=mod.RULE,
               exhaustive=not total.capped and not fails)
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.executions)
        nz = len(total.states) > 1 and total.transitions > 0
    else:
        cov.update(evaluations=total.evaluations, distinct_nontrivial=len(total.nontrivial))
        nz = total.evaluations > 0 and len(total.nontrivial) > 1
    if total.capped:
        cov['capped_unexplored_prefixes'] = total.capped
    if not nz and not fails:
        print('ERROR: vacuous exploration', file=sys.stderr)
        return 2
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=wall,
              violations=len(fails),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    (ROOT / 'evidence' / (pid + '.json')).write_text(json.dumps(ev, indent=1))
    if os.environ.get('VERIF_SLOW'):
        for w, i in sorted(slow)[-8:]:
            print('%.2fs %s' % (w, scs[i]))
    print('%s %s: %d scenarios, %d executions, %s, %d distinct outcomes, %.1fs%s' % (
        pid, tier, len(scs), total.executions,
        '%d states, %d transitions' % (len(total.states), total.transitions) if mod.LEVEL == 'model_checking'
        else '%d evaluations, %d distinct' % (total.evaluations, len(total.nontrivial)),
        len(total.outcomes), wall, '' if rc == 0 else ' - VIOLATED'))
    return rc


def _merge(total, r, fails, broken, slow):
    i, ctx, fl, err, w = r
    slow.append((w, i))
    if err:
        broken.append('scenario %s\n%s' % (json.dumps(_SCS[i]), err))
        return
    if fl:
        fails[i] = fl
    total.states |= ctx.states
    total.outcomes |= ctx.outcomes
    total.nontrivial |= ctx.nontrivial
    total.transitions += ctx.transitions
    total.executions += ctx.executions
    total.evaluations += ctx.evaluations
    total.capped += ctx.capped
    total.known.update(ctx.known)
    if len(total.samples) < 4:
        total.samples.extend(ctx.samples[:1])
