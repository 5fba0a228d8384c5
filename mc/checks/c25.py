"""Torch and numpy dynamics in lockstep on the same noise, batches, objective and terminated runs."""
import numpy as np
import torch

import cbx.dynamics as D
from cbx.scheduler import effective_sample_size as ess_np
from cbx.scheduler import multiply
from cbx.utils.resampling import consensus_stagnation, ensemble_update_resampling, loss_update_resampling, resampling
from cbx.utils.termination import diff_tol_term, energy_stagnation_term, energy_tol_term, max_eval_term, max_it_term, max_time_term
from cbx.utils.torch_utils import compute_consensus_torch, compute_polar_consensus_torch, norm_torch, post_process_default_torch, to_torch_dynamic
from cbx.utils.torch_utils import effective_sample_size as ess_torch

from .. import dyns, env, keyed, lock
from ..env import as_np, need, need_close, need_equal

torch.set_num_threads(1)
ID, LEVEL = 'C25', 'model_checking'
RULE = ('lattice: dynamic that supports tensors x noise x shape x batch x alpha form x objective (smooth, plateaus, infinite regions) x precision x '
        'way of conversion; choices: noise pattern and terminated runs per step; plus whole optimisations with every criterion, schedulers and resampling')
BOUNDS = 'M<=3, N<=4, particle shapes (1),(2),(3),(2,2); 3-4 lockstep steps, optimisations of up to 12 steps; tolerance 1e-9 (double), 2e-4 (single); step scenarios with M=4, N=9, 12 steps'
ASSUMPTIONS = ['CBOMemory, PSO, AdamCBO, CBS, covariance noise, Heaviside corrections and constraints do not accept tensors at all',
               'in single precision only smooth objectives are compared']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    base = [dict(kind='CBO', noise=n) for n in ('isotropic', 'anisotropic', 'constant')]
    base += [dict(kind='MirrorCBO', map=m, noise='isotropic') for m in ('None', 'L2', 'ElasticNet', 'ProjectionBall', 'ProjectionSphere', 'ProjectionSquare', 'NonsmoothBarrier', 'Entropy', 'EntropySimplex')]
    base += [dict(kind='PolarCBO', kernel=k, noise=n) for k, n in zip(dyns.KERNELS, ('isotropic', 'anisotropic', 'constant', 'isotropic', 'anisotropic'))]
    base += [dict(kind='PolarCBO', kernel='Gaussian', kmode='const'), dict(kind='DriftConstrainedCBO', cons='none'), dict(kind='RegCombinationCBO', cons='none', noise='anisotropic')]
    for b in base:
        for d in (2, 1, 3, [2, 2]):
            s = dyns.dim(b, d)
            if s is None:
                continue
            bts = list(dyns.batches(3, partial_only=dyns.partial_only(s)))
            for i, bt in enumerate(bts):
                for j, (al, fn, prec, conv) in enumerate([([.7, 6., 50.], 'quad', 64, 'cls'), (2., 'walls', 64, 'cls'), (3., 'quad', 32, 'cls'), (1e15, 'plateau', 64, 'cls'),
                                                          (5., 'quad', 64, 'kw'), ([.7, 6., 50.], 'plateau', 64, 'kw')]):
                    if not th and (i and j not in (0, 1) or d in (1, 3) and (i or j > 2) or b['kind'] != 'CBO' and (j > 1 and i or (i * 2 + j) % 3 == 2)):
                        continue
                    if 'map' in s and (fn == 'walls' or prec == 32):
                        continue
                    out.append(dict(s, fam='step', M=2 if i else 3, N=3, batch=bt, alpha=al, fun=fn, prec=prec, conv=conv, depth=4 if th else 3))
    for b in base:
        s = dyns.dim(b, 2)
        if s is not None and s.get('noise') != 'isotropic' and 'map' not in s:
            for M, prec in ((2, 64), (1, 32)):
                out.append(dict(s, fam='wild', M=M, N=3, batch=None, alpha=3., fun='quad', prec=prec, conv='cls'))
    crits = [['max-it', 6], ['max-eval', 17], ['energy-tol', 0.35], ['diff-tol', 0.12], ['energy-stagnation', 3, 0.05], ['max-time', .75]]
    for b in base[:4] + base[12:14]:
        for d in (2, [2, 2]):
            s = dyns.dim(b, d)
            if s is None:
                continue
            for c in crits:
                for extra in ('none', 'ess', 'mult', 'resample', 'post'):
                    if extra in ('resample', 'post') and s['kind'] == 'PolarCBO':
                        continue
                    for bt in (None, dict(size=2, partial=True, seed=3)):
                        if not th and bt and extra != 'none':
                            continue
                        out.append(dict(s, fam='opt', M=3, N=4, batch=bt, alpha=[.7, 6., 50.], fun='quad', prec=64, conv='cls', crit=c, extra=extra))
    step = [s for s in out if s['fam'] == 'step' and s['prec'] == 64]
    return out + dyns.stretch(list(step), depth=8)[len(step):]


class TNoise(env.Noise):
    dtype = torch.float64

    def __call__(self, size=None):
        need(all(isinstance(int(k), int) for k in size), 'noise size %r' % (size,))
        return torch.tensor(super().__call__(size), dtype=self.dtype)


def pair(sc, ch, ctx, **over):
    dt = torch.float64 if sc['prec'] == 64 else torch.float32
    nd = dyns.nd(sc)
    f = keyed.fun(sc['fun'], nd)
    x = dyns.x0(sc).astype(np.float64 if sc['prec'] == 64 else np.float32).astype(float)
    xt = torch.tensor(x, dtype=dt)
    keep = xt.clone()

    def ft(p):
        need(isinstance(p, torch.Tensor), 'the objective of a torch dynamic is called with %s' % type(p).__name__)
        need(p.dtype == dt, 'the objective is called with %s, particles have %s' % (p.dtype, dt))
        return torch.tensor(f(as_np(p).astype(float)), dtype=dt)
    kw = {}
    if isinstance(sc['alpha'], list):
        kw['alpha'] = torch.tensor(dyns.alpha_arr(sc, sc['M']), dtype=dt)[:, None]
    if sc['kind'] == 'PolarCBO':
        kw['compute_consensus'] = compute_polar_consensus_torch
    if sc['conv'] == 'cls':
        kw['cls'] = to_torch_dynamic(getattr(D, sc['kind']))
    else:
        kw.update(norm=norm_torch, copy=torch.clone, post_process=post_process_default_torch())
        kw.setdefault('compute_consensus', compute_consensus_torch)
    P = lock.Session(sc, ch, ctx, fun=f, x=x, patterns=('gen', 'big'), **over.get('np', {}))
    orig = env.Noise
    env.Noise = TNoise
    TNoise.dtype = dt
    try:
        T = lock.Session(sc, ch, ctx, fun=ft, x=xt, patterns=('gen',), **dict(kw, **over.get('torch', {})))
    finally:
        env.Noise = orig
    need(T.dyn.x.dtype == dt and isinstance(T.dyn.x, torch.Tensor), 'particles are %s' % type(T.dyn.x))
    need(T.dyn.x.data_ptr() != xt.data_ptr(), 'the dynamic works on the tensor of the user')
    return P, T, xt, keep


KEYS = ('x', 'y', 'energy', 'consensus', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'update_diff', 'alpha', 't')


def compare(what, a, b, sc, active):
    tol = dict(rtol=1e-9, atol=1e-9) if sc['prec'] == 64 else dict(rtol=2e-4, atol=2e-4)
    for k in KEYS:
        if a.get(k) is None:
            need(b.get(k) is None or k == 'y', '%s: %s is set in the torch dynamic only' % (what, k))
            continue
        u, v = a[k], b[k]
        need(v is not None, '%s: the torch dynamic has no %s' % (what, k))
        if k.startswith('best_cur'):
            u, v = u[active], v[active]
        need_close('%s: %s of the torch dynamic' % (what, k), np.asarray(v, float), np.asarray(u, float), **tol)
    for k in ('num_f_eval', 'it', 'active'):
        need_equal('%s: %s of the torch dynamic' % (what, k), b[k], a[k])


def run(sc, ch, ctx):
    if sc['fam'] == 'wild':
        return wild(sc, ch, ctx)
    if sc['fam'] == 'opt':
        return optimise(sc, ch, ctx)
    P, T, xt, keep = pair(sc, ch, ctx)
    compare('after construction', env.snap(P.dyn), env.snap(T.dyn), sc, list(range(sc['M'])))
    term = []
    for s in range(sc['depth']):
        if s == 1:
            term = lock.acts(ch, P.M)
        pat = ch.pick(('gen', 'big'), 'noise') if s < 2 else 'gen'
        a, b = P.step(term, pat), T.step(term, pat)
        if not np.all(np.abs(a.post['x']) < 1e6):
            return
        what = 'step %d' % (s + 1)
        need(a.csel == b.csel and a.psel == b.psel, '%s: other particles are selected' % what)
        need([z.shape for z in a.zs] == [z.shape for z in b.zs], '%s: other noise is sampled' % what)
        compare(what, a.post, b.post, sc, a.active)
        need(isinstance(T.dyn.x, torch.Tensor) and isinstance(T.dyn.consensus, torch.Tensor) and isinstance(T.dyn.best_particle, torch.Tensor), '%s: the state is not a tensor' % what)
        need_equal('tensor of the user', as_np(xt), as_np(keep))
    ctx.sample('%s -> x[0,0]=%s' % (sc, a.post['x'][0, 0].round(4).tolist()))


WILD = {'up': 1e30, 'down': -1e30, 'inf': np.inf, 'minf': -np.inf, 'nan': np.nan}


def wild(sc, ch, ctx):
    """Noise beyond all bounds: both default post-processings bring the particles back in the same way."""
    P, T, xt, keep = pair(sc, ch, ctx)
    for n, v in WILD.items():
        lock.PATTERNS[n] = lambda size, k, v=v: np.where(np.arange(int(np.prod(size))).reshape(size) % 3 == k % 3, v, env.generic(size, 100 + k))
    pat = ch.pick(list(WILD), 'noise')
    old = np.array(P.dyn.x)
    a, b = P.step([], pat), T.step([], pat)
    need(np.all(np.abs(a.post['x']) <= 1e8) and np.all(np.isfinite(a.post['x'])), 'numpy particles are out of bounds')
    need_close('particles of the torch dynamic after noise %s' % pat, b.post['x'], a.post['x'], rtol=1e-6 if sc['prec'] == 32 else 1e-9, atol=2e-4 if sc['prec'] == 32 else 1e-9)
    need_equal('tensor of the user', as_np(xt), as_np(keep))
    ctx.sample('%s, noise %s: x in [%g, %g]' % (sc['kind'], pat, a.post['x'].min(), a.post['x'].max()))
    return old


def mk(c):
    cls = {'max-it': max_it_term, 'max-eval': max_eval_term, 'energy-tol': energy_tol_term, 'diff-tol': diff_tol_term,
           'energy-stagnation': energy_stagnation_term, 'max-time': max_time_term}[c[0]]
    if c[0] == 'energy-stagnation':
        return cls(patience=c[1], std_thresh=c[2])
    return cls(c[1])


def optimise(sc, ch, ctx):
    crit = sc['crit']
    ex = sc['extra']
    over = {}
    for side in ('np', 'torch'):
        o = dict(term_criteria=[mk(crit), max_it_term(12)], track_args=dict(names=['x', 'energy', 'consensus', 'update_norm', 'drift'][:2 if sc['kind'] == 'PolarCBO' else 5], save_int=2))
        if ex == 'post':
            rs = resampling([loss_update_resampling(2)], sigma_indep=.3)
            o['post_process'] = lambda dyn, rs=rs: rs(dyn)
        over[side] = o
    P, T, xt, keep = pair(sc, ch, ctx, **over)
    P.pat = T.pat = 'gen'
    P.n0 = T.n0 = 0
    scheds = {}
    for name, S in (('np', P), ('torch', T)):
        if ex == 'ess':
            scheds[name] = (ess_np if name == 'np' else ess_torch)(eta=.6, maximum=1e5, solve_max_it=15)
        elif ex == 'mult':
            scheds[name] = multiply(factor=1.3, name='alpha', maximum=20.)
        elif ex == 'resample':
            scheds[name] = resampling([loss_update_resampling(2), consensus_stagnation(2, .2), ensemble_update_resampling(.1)], sigma_indep=.3, track_best_consensus=True)
    done = [False, False]
    s = 0
    while True:
        done = [bool(S.dyn.terminate()) for S in (P, T)]
        need(done[0] == done[1], 'after %d steps: terminate() is %s for torch, %s for numpy' % (s, done[1], done[0]))
        need_equal('after %d steps: active runs' % s, np.asarray(T.dyn.active_runs_idx), np.asarray(P.dyn.active_runs_idx))
        if done[0]:
            break
        act = [int(m) for m in P.dyn.active_runs_idx]
        for name, S in (('np', P), ('torch', T)):
            S.dyn.step()
            if name in scheds:
                (scheds[name].update if hasattr(scheds[name], 'update') else scheds[name])(S.dyn)
        s += 1
        ctx.step()
        compare('step %d of the optimisation (%s, %s)' % (s, crit, ex), env.snap(P.dyn), env.snap(T.dyn), sc, act)
        ctx.state(sc['kind'], crit, ex, P.dyn.x, P.dyn.num_f_eval)
    need(s > 0 and s <= 12, '%d steps' % s)
    need(set(P.dyn.history) == set(T.dyn.history), 'other histories')
    for k in P.dyn.history:
        a, b = P.dyn.history[k], T.dyn.history[k]
        need(len(a) == len(b), 'history of %s has %d entries for torch, %d for numpy' % (k, len(b), len(a)))
        for u, v in zip(a, b):
            if u is None or 'idx' in k:
                continue
            need_close('recorded %s' % k, np.asarray(as_np(v), float), np.asarray(u, float), rtol=1e-9, atol=1e-9)
    need_equal('tensor of the user', as_np(xt), as_np(keep))
    if ex == 'resample':
        need_equal('resampling counters', np.asarray(scheds['torch'].num_resampling), np.asarray(scheds['np'].num_resampling))
    ctx.sample('%s, criterion %s, %s: %d steps, active at the end of the last step %s' % (sc['kind'], crit, ex, s, act))
