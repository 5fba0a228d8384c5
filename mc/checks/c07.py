"""Drift-constrained and regularisation-combination steps against their implicit equations."""
import itertools

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C07', 'model_checking'
RULE = ('lattice: dynamic x constraint list x noise x eps/nu x batch x dimension x independent noise; choices: noise answer '
        '(generic, zero, large), terminated runs per step')
BOUNDS = 'M<=3, N<=3, d<=3, up to three constraints; 2-4 steps; steps with a numerically singular system (cond > 1e9) excluded; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01 checks it)']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    pars = [dict(), dict(dt=0.3, lamda=0.5, sigma=1.4, alpha=[0.5, 4., 20.]), dict(dt=0.02, sigma=0.)]
    for cons in env.CONSTR:
        for d in (2, 3, 1):
            if d == 1 and cons not in ('none', 'plane', 'sphere', 'plane+sphere'):
                continue
            for noise in dyns.NOISES:
                if not th and d != 2 and noise in ('constant', 'covariance'):
                    continue
                for j, par in enumerate(pars):
                    for eps in (0.01, 0.7, 2.5):
                        for i, b in enumerate(dyns.batches(3)):
                            if not th and i and (noise != 'isotropic' or j == 2 or (d != 2 and i % 2)):
                                continue
                            out.append(dict(kind='DriftConstrainedCBO', M=2, N=3, d=d, cons=cons, noise=noise, batch=b, eps=eps, depth=2, **par))
    for cons in ('none', 'plane', 'sphere', 'quadric', 'quadric_ns'):
        for d in (2, 3, 1):
            if d == 1 and cons.startswith('quadric'):
                continue
            for noise in dyns.NOISES:
                for j, par in enumerate(pars):
                    for eps, nu in ((0.9, 1), (0.25, 0.5), (4., 1.5), (1e16, 3.), ('default', 2.)):
                        for i, b in enumerate(dyns.batches(3)):
                            if not th and i and (noise != 'anisotropic' or j == 2 or (d != 2 and i % 2)):
                                continue
                            s = dict(kind='RegCombinationCBO', M=2, N=3, d=d, cons=cons, noise=noise, batch=b, eps=eps, nu=nu, depth=2, **par)
                            if eps == 'default':
                                s.pop('eps')
                            out.append(s)
    # independent noise: thresholds around the spread of the ensembles
    for cons in ('none', 'plane', 'plane+sphere'):
        for ei in (1e-3, 0.08, 0.5, 3.):
            for si in (0., 0.3, 1.5):
                if not th and ei == 3. and si == 0.3:
                    continue
                for d in (2, 3):
                    for b in [None, dict(size=2, partial=True, seed=1), dict(size=1, partial=False, seed=4)]:
                        out.append(dict(kind='DriftConstrainedCBO', M=3 if b is None else 2, N=3, d=d, cons=cons, noise='isotropic', eps=0.3,
                                        eps_indep=ei, sigma_indep=si, batch=b, depth=4 if th else 3, collapse=1, alpha=[1., 5., 30.]))
    for s in out:
        s['pats'] = ['gen', 'zero', 'big'] if th or s['noise'] == 'anisotropic' or s['M'] == 3 else ['gen', 'big']
    return dyns.stretch(dyns.magnify(out))


def singular(sc, pre, psel):
    """The implicit system of some selected particle has no well-conditioned solution."""
    cons = env.constr(sc.get('cons', 'none'), sc['d']) or []
    eps = sc.get('eps', 0.01)
    fac = float(pre['dt']) / eps if eps < 1e15 else 0.
    for m, ns in psel.items():
        for n in ns:
            x = pre['x'][m, n]
            A = np.eye(len(x))
            for k in cons:
                if sc['kind'] == 'RegCombinationCBO':
                    A = A + 2 * fac * ref.con_val(k, x) * ref.con_hess(k, x)
                else:
                    g = ref.con_grad(k, x)
                    A = A + 2 * fac * (np.outer(g, g) + ref.con_val(k, x) * ref.con_hess(k, x))
            if not np.linalg.cond(A) < 1e9:
                return True
    return False


def run(sc, ch, ctx):
    x = dyns.x0(sc)
    if sc.get('collapse'):  # run 0 nearly at a point, run 1 spread
        x[0] = x[0, :1] + 0.01 * x[0]
        if sc['M'] > 2:
            x[2] = x[2, :1] + 0.3 * x[2]
    fun = dyns.objective(sc)
    S = lock.Session(sc, ch, ctx, fun=fun, x=x.copy(), patterns=tuple(sc['pats']))
    last = {}
    for s in range(sc['depth']):
        if s == 1 or (s > 1 and sc.get('collapse') and S.M < 3):
            term = lock.acts(ch, S.M)
        r = S.step([] if s == 0 else term, pattern='gen' if s > 1 or sc.get('collapse') else None)
        indep(sc, S, r, last, s)
        if singular(sc, r.pre, r.psel) or not np.all(np.abs(r.pre['x']) < 1e4):
            return
        want = r.pre['x'].copy()
        for m in r.active:
            e = S.expect(r, m, observed_consensus=True)
            want[m] = e['x']
            if sc['kind'] == 'RegCombinationCBO':
                got = r.post['energy'][m][r.csel[m]]
                need_close('regularised energy of run %d' % m, got, e['energy'][r.csel[m]], rtol=1e-7)
        need_close('x after step %d' % (s + 1), r.post['x'], want, **lock.tol(sc, 1e-6, 1e-7))
        for m in r.active:
            for n in set(range(S.N)) - set(r.psel[m]):
                need_close('x of unselected particle %s' % [m, n], r.post['x'][m, n], r.pre['x'][m, n], rtol=1e-13, atol=0)
            last[m] = S.consensus(r, m)[0]
        lock.frozen(r, S.M, ['x'])
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))


def indep(sc, S, r, last, s):
    """Replays the independent-noise phase on r.pre['x'] and removes its draws from r.zs."""
    si, ei = sc.get('sigma_indep', 0.), sc.get('eps_indep', 0.001)
    if not si or not last:
        return
    x = r.pre['x'].copy()
    zs = list(r.zs)
    runs = [m for m in r.active]
    for m in runs:
        need(m in last, 'harness: run %d has no consensus yet' % m)
    while True:
        idx = [m for m in runs if np.mean([ref.norm2(p - last[m]) ** 2 for p in x[m]]) / sc['d'] < ei]
        if not idx:
            break
        need(zs and zs[0].shape == (len(idx),) + x.shape[1:],
             'step %d: runs %s are below the spread threshold and must be perturbed, draws were %s' % (s + 1, idx, [z.shape for z in r.zs]))
        z = zs.pop(0)
        for a, m in enumerate(idx):
            x[m] = x[m] + si * np.sqrt(float(r.pre['dt'])) * z[a]
    need(len(zs) == 1, 'step %d: noise draws %s, only runs below the threshold may be perturbed' % (s + 1, [z.shape for z in r.zs]))
    r.zs = zs
    r.pre['x'] = x
