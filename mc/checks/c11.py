"""Termination bookkeeping and freezing, for every pattern of criterion verdicts over several steps."""
import itertools

import numpy as np

from .. import dyns, env, keyed, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C11', 'model_checking'
RULE = ('lattice: every dynamic and variant x shape x batch x criteria; choices: the verdict of each criterion on each run at '
        'every check (re-activation included), noise answer')
BOUNDS = 'M<=3, N<=3, two to three criteria, 3 steps; whole optimisations with each built-in criterion up to 15 steps; copies with M=4, N=9, 6 steps and at most one deviation'
ASSUMPTIONS = ['the stored reason is judged only for runs that currently meet a criterion',
               'memory dynamics report the best of the initial particles with the first step, also for runs terminated before it']

FROZEN = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for b in dyns.kinds():
        for d in (2, 1, 3, [2, 2]):
            s = dyns.dim(b, d)
            if s is None:
                continue
            if d in (1, 3) and not th and s['kind'] not in ('MirrorCBO', 'HyperSurfaceCBO'):
                continue
            if d in (1, 3) and 'quadric' in s.get('cons', '') and d == 1:
                continue
            bts = [None] if dyns.unbatched(s) else list(dyns.batches(3, partial_only=dyns.partial_only(s)))
            for i, bt in enumerate(bts):
                if not th and (i % 3 or (i and d != 2)):
                    continue
                out.append(dict(s, M=3 if not i else 2, N=3, batch=bt, crits=1, depth=3, alpha=[0.7, 6., 50.]))
    for b in dyns.kinds(rich=False):
        s = dyns.dim(b, 2)
        out.append(dict(s, M=2, N=2, crits=2, depth=2, alpha=3.))
        out.append(dict(s, M=1, N=2, crits=3, depth=2, alpha=3.))
        for crit in (['max-eval', 17], ['energy-tol', 0.35], ['diff-tol', 0.12], ['energy-stagnation', 3, 0.05], ['max-time', 0.75]):
            out.append(dict(s, M=3, N=3, opt=crit, alpha=[0.7, 6., 50.]))
    return dyns.stretch(out, depth=6)


def run(sc, ch, ctx):
    if 'opt' in sc:
        return optimise(sc, ch, ctx)
    M, C = sc['M'], sc['crits']
    sw = [env.Switch(M) for _ in range(C)]
    S = lock.Session(dict(sc), ch, ctx, switch=sw[0], term_criteria=sw)
    dyn = S.dyn
    for s in range(sc['depth']):
        for c in sw:
            k = ch.choose(2 ** M, 'verdict') if s or C > 1 else 0
            c.mask[:] = [k >> m & 1 for m in range(M)]
        met = np.array([c.mask for c in sw])
        act = [m for m in range(M) if not met[:, m].any()]
        before = env.snap(dyn)
        done = dyn.terminate()
        need(bool(done) == (not act), 'terminate() reports %s with active runs %s' % (done, act))
        need_equal('active_runs_idx', np.asarray(dyn.active_runs_idx), np.array(act, dtype=int))
        need(int(dyn.num_active_runs) == len(act), 'num_active_runs is %s' % dyn.num_active_runs)
        for m in range(M):
            if m not in act:
                want = np.where(met[:, m])[0].tolist()
                got = dyn.term_reason[m]
                need(got is not None and np.asarray(got).tolist() == want, 'reason of run %d is %s, criteria %s are met' % (m, got, want))
        after = env.snap(dyn)
        for k in FROZEN:
            if before.get(k) is not None:
                need_equal('%s after the check' % k, after[k], before[k])
        ctx.state(met, act)
        if not act:
            return
        S.n0 = len(S.noise.calls)
        S.pat = 'gen'
        dyn.step()
        S.k += 1
        ctx.step()
        post = env.snap(dyn)
        ctx.state(env.public(post))
        for m in range(M):
            if m in act:
                need(post['num_f_eval'][m] > before['num_f_eval'][m], 'active run %d is not evaluated in step %d' % (m, s + 1))
                if sc.get('corr', 'no_correction') == 'no_correction' and not (sc.get('batch') and sc['noise'] != 'constant'):
                    need(not np.array_equal(post['x'][m], before['x'][m]) or not moves(sc), 'active run %d does not move in step %d' % (m, s + 1))
                continue
            for k in FROZEN:
                if s == 0 and sc['kind'] in ('CBOMemory', 'PSO') and k.startswith('best'):
                    continue
                if before.get(k) is not None and before[k].ndim:
                    need_equal('%s of terminated run %d after step %d' % (k, m, s + 1), post[k][m], before[k][m])
    ctx.sample('%s -> active %s' % (sc, act))


def moves(sc):
    return sc['kind'] not in ('HyperSurfaceCBO', 'MirrorCBO', 'PolarCBO')


def optimise(sc, ch, ctx):
    """A real criterion ends the runs one after another; each run stays frozen from then on."""
    from .c10 import crit
    from cbx.utils.termination import select_term
    S = lock.Session(sc, ch, ctx, term_criteria=[select_term(crit2(sc['opt'])), select_term(dict(name='max-it', max_it=15))])
    dyn = S.dyn
    frozen = {}
    steps = 0
    while True:
        done = dyn.terminate()
        act = np.asarray(dyn.active_runs_idx).tolist()
        need(bool(done) == (not act), 'terminate() reports %s with active runs %s' % (done, act))
        s = env.snap(dyn)
        for m in list(frozen):
            if m in act:
                frozen.pop(m)
        for m, f in frozen.items():
            for k in FROZEN:
                if s.get(k) is not None and s[k].ndim:
                    need_equal('%s of run %d, terminated %d steps ago' % (k, m, steps - f[0]), s[k][m], f[1][k][m])
        for m in range(sc['M']):
            if m not in act and m not in frozen:
                frozen[m] = (steps, s)
        if done:
            break
        need(steps < 15, 'the optimisation does not stop')
        S.n0, S.pat = len(S.noise.calls), 'gen'
        dyn.step()
        S.k += 1
        steps += 1
        ctx.step()
        ctx.state(sc['kind'], env.public(env.snap(dyn)))
    ctx.sample('%s -> runs end after %s steps' % (sc, {m: f[0] for m, f in frozen.items()}))


def crit2(c):
    from .c10 import crit
    return dict(name='max-time', max_time=c[1]) if c[0] == 'max-time' else crit(c)
