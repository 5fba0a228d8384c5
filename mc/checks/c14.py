"""Evaluation counters against a recording objective."""
import itertools

import numpy as np

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C14', 'model_checking'
RULE = ('lattice: every dynamic and correction x batch x shape x extras (stagnation criterion, resampling with best consensus, '
        'weighted penalty schedule, promoted objectives, no shape check); choices: terminated runs at every step')
BOUNDS = 'M<=3, N<=4, shapes (1),(2),(3),(2,2); 3 steps (4 thorough); copies with M=4, N=9, 12 steps and at most one deviation'
ASSUMPTIONS = ['points are attributed to runs by a tag coordinate that the dynamics preserve, where possible, else by rows',
               'the weighted penalty rule is judged with all runs active']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for b in dyns.kinds(rich=True):
        for d in (2, 1, 3, [2, 2]):
            s = dyns.dim(b, d)
            if s is None or (d == 1 and 'quadric' in s.get('cons', '')):
                continue
            if not th and d in (1, 3) and s.get('noise') not in ('isotropic', None):
                continue
            bts = [None] if dyns.unbatched(s) else list(dyns.batches(3, partial_only=dyns.partial_only(s)))
            for i, bt in enumerate(bts):
                if not th and i % 2 and d != 2 or not th and i > 4:
                    continue
                for extra in ('', 'stag', 'resample'):
                    if extra and (d != 2 or i > 2 or s.get('noise') not in ('isotropic', None)) and not th:
                        continue
                    if extra == 'resample' and s['kind'] not in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS') or extra == 'resample' and d == 1:
                        continue
                    out.append(dict(s, M=3 if not i else 2, N=3, batch=bt, extra=extra, alpha=[0.7, 6., 50.], steps=4 if th else 3))
    for k in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'CBS'):
        for fd in ('1D', '2D', '3D', 'cbx'):
            for M, N, d in ((1, 1, 1), (1, 3, 2), (2, 1, 2), (2, 3, 1), (3, 2, 3)):
                for corr in ('no_correction', 'heavi_side') if k in ('CBO', 'CBOMemory', 'PolarCBO') else ('no_correction',):
                    out.append(dict(kind=k, M=M, N=N, d=d, f_dim=fd, corr=corr, extra='', steps=2, alpha=2.))
                    out.append(dict(kind=k, M=M, N=N, d=d, f_dim=fd, corr=corr, extra='nocheck', steps=2, alpha=2.))
    for k in ('CBO', 'CBOMemory', 'AdamCBO'):
        for bt in dyns.batches(3):
            out.append(dict(kind=k, M=2, N=3, d=2, batch=bt, extra='penalty', steps=3, alpha=2.))
    return dyns.stretch(out, key='steps', depth=9)


def run(sc, ch, ctx):
    M, N = sc['M'], sc['N']
    shape = dyns.shape(sc)
    tagged = sc['kind'] in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'CBS') and shape[2:] != (1,) and not sc.get('f_dim')
    x = dyns.x0(sc)
    if tagged:
        for m in range(M):
            x[m, :, ..., -1] = 100 * m + 1.  # far apart: Adam turns rounding errors of a constant coordinate into steps of size one
    single = [0]
    q = env.quad(dyns.nd(sc))
    calls = []

    def f(p):
        fd = sc.get('f_dim', '3D')
        if fd == '1D':
            single[0] += 1
            calls.append(np.asarray(p)[None, None])
            return float(q(np.asarray(p)[None, None])[0, 0])
        if fd == '2D':
            single[0] += len(p)
            calls.append(np.asarray(p)[None])
            return q(np.asarray(p)[None])[0]
        single[0] += int(np.prod(p.shape[:2]))
        calls.append(np.array(p))
        return q(p)

    z = env.Noise()

    def provide(k, size):
        n = env.generic(size, 17 + k)
        if tagged:
            n[..., -1] = 0.
        return n
    z.provider = provide
    sw = env.Switch(M)
    over = dict(term_criteria=[sw])
    if sc['extra'] == 'nocheck':
        over['check_f_dims'] = False
    if sc['extra'] == 'stag':
        over['term_criteria'] = [sw, dict(name='energy-stagnation', patience=3, std_thresh=-1.)]
    if sc['extra'] == 'resample':
        from cbx.utils.resampling import resampling, ensemble_update_resampling
        from cbx.dynamics.pdyn import post_process_default
        rs, pp = resampling([ensemble_update_resampling(update_thresh=0.2)], sigma_indep=0.5, track_best_consensus=True), post_process_default()

        def post(dyn):
            pp(dyn)
            if dyn.consensus is not None:
                rs(dyn)
        over['post_process'] = post
    obj = f
    if sc.get('f_dim') == 'cbx':
        from cbx.utils.objective_handling import cbx_objective_fh
        obj = cbx_objective_fh(f)
        sc = dict(sc, f_dim='3D')
    if sc['extra'] == 'penalty':
        from cbx.regularizers import regularize_objective, regularization_paramter_scheduler
        obj = regularize_objective(f, 'Sphere', lamda=0.5)
        sched = regularization_paramter_scheduler(rule_mean='weighted')
    counts = np.zeros(M, dtype=int)
    seen = [0]

    def settle(active, when):
        for c in calls[seen[0]:]:
            if sc.get('f_dim') in ('1D', '2D'):
                continue
            if tagged and when != 'construction':
                t = c.reshape(c.shape[:2] + (-1,))[..., -1]
                ids = (t - 1) / 100
                need(np.allclose(ids, np.round(ids), rtol=0, atol=.2), 'harness: the tag was not preserved: %s' % t.tolist())
                for m in range(M):
                    counts[m] += int((np.round(ids) == m).sum())
            elif c.shape[0] == len(active):
                counts[active] += c.shape[1]
            elif c.shape[0] == M:
                counts[:] += c.shape[1]
            else:
                need(False, 'the objective is evaluated at %s points with %d active runs' % (c.shape, len(active)))
        seen[0] = len(calls)
        got = np.asarray(dyn.num_f_eval)
        need(got.shape == (M,), 'num_f_eval has shape %s' % (got.shape,))
        if sc.get('f_dim') not in ('1D', '2D'):
            need(np.array_equal(got, counts), 'num_f_eval is %s, the runs were evaluated at %s points (%s)' % (got.tolist(), counts.tolist(), when))
        need(int(got.sum()) == single[0], 'num_f_eval sums to %d, the objective was evaluated at %d points (%s)' % (int(got.sum()), single[0], when))
        if hasattr(dyn.f, 'num_eval') and sc['extra'] != 'penalty' and sc['kind'] != 'RegCombinationCBO':
            need(int(dyn.f.num_eval) == single[0], 'the objective reports %d evaluations, it was evaluated at %d points (%s)' % (dyn.f.num_eval, single[0], when))
    dyn = dyns.build({k: v for k, v in sc.items()}, obj, x=x, sampler=z, **over)
    z.live = True
    settle(list(range(M)), 'construction')
    active = list(range(M))
    for s in range(sc['steps']):
        term = lock.acts(ch, M) if s and sc['extra'] != 'penalty' else []
        sw.mask[:] = [m in term for m in range(M)]
        prev = active
        dyn.terminate()
        settle(prev, 'check before step %d' % (s + 1))
        active = [m for m in range(M) if m not in term]
        frozen = np.array(dyn.num_f_eval)
        dyn.step()
        ctx.step()
        settle(active, 'step %d' % (s + 1))
        for m in term:
            need(dyn.num_f_eval[m] == frozen[m], 'terminated run %d is charged in step %d' % (m, s + 1))
        if sc['extra'] == 'penalty':
            sched.update(dyn)
            settle(active, 'schedule after step %d' % (s + 1))
        ctx.state(sc['kind'], dyn.num_f_eval, active, env.as_np(dyn.x))
    ctx.sample('%s -> num_f_eval %s' % (sc, np.asarray(dyn.num_f_eval).tolist()))
