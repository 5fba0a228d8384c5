"""Polarized consensus and kernels."""
import itertools
import math

import numpy as np

from .. import dyns, env, lock, ref
from ..core import Chooser
from ..env import need, need_close, need_equal

ID, LEVEL = 'C09', 'model_checking'
RULE = ('lattice: kernel x kappa x factor mode x alpha x noise x batch x shape x backend; choices: objective value of every '
        'evaluated point, terminated runs per step; kernels on all pairs of a point lattice')
BOUNDS = 'M<=3, N<=4, d<=3 and (2,2) for the Gaussian kernel; 1-2 steps; kernel tables on 5-point lattices per axis; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['pairs exactly at distance kappa of the constant kernel are not judged',
               'particles of which every visible neighbour has energy +inf have no consensus']

KAPPAS = [0.3, 1.0, 4.0]


def scenarios(tier):
    th = tier == 'thorough'
    out = [dict(kernels=k, kappa=kap, d=d) for k in dyns.KERNELS for kap in (0.3, 1.0, 2.7) for d in (1, 2, 3)]
    for k in dyns.KERNELS:
        for kap in KAPPAS + (['inf'] if k == 'Gaussian' else []):
            for km in ('alpha', 'const'):
                b = dict(kind='PolarCBO', kernel=k, kappa=kap, kmode=km)
                for d in (1, 2, 3) + (([2, 2],) if k == 'Gaussian' else ()):
                    for al in ([0.5, 3., 20.], 1e4, 1e-3):
                        for noise in (('isotropic', 'anisotropic', 'covariance') if d == 2 else ('constant',)):
                            out.append(dict(b, M=2, N=4, d=d, alpha=al, noise=noise, depth=2, act=1))
                        out.append(dict(b, M=3, N=2, d=d, alpha=al, depth=2, act=1))
                    out.append(dict(b, M=1, N=1, d=d, alpha=2., depth=2))
                    out.append(dict(b, M=2, N=4, d=d, alpha=[0.5, 9.], torch=1, depth=2, act=1))
                for c in ('heavi_side', 'heavi_side_reg'):
                    out.append(dict(b, M=2, N=3, d=2, alpha=[0.5, 9.], corr=c, correction_eps=0.4, depth=2, act=1))
                for bt in dyns.batches(4 if th else 3, partial_only=True):
                    if bt:
                        out.append(dict(b, M=2, N=4 if th else 3, d=2, alpha=[0.5, 9.], batch=bt, depth=3, act=1))
                for al in (1., 50.):
                    for alph in ([0., 2., 'inf'], [1e9, 1e9 + 1, 1e9 + 20], [-3., -3., 700.]):
                        out.append(dict(b, M=1, N=3, d=2, alpha=al, lazy=alph, budget=3, depth=1))
    return dyns.stretch(dyns.magnify(out))


def kernel_table(sc, ctx):
    """Every pair of a lattice: value, negative logarithm, symmetry, unit diagonal."""
    from cbx.dynamics.polarcbo import PolarCBO
    name, kap, d = sc['kernels'], sc['kappa'], sc['d']
    ks = [PolarCBO.kernel_dict[name](kappa=kap)]
    ax = [-1.9, -0.4, 0., 0.35, 1.2]
    pts = np.array(list(itertools.product(ax, repeat=d)), dtype=float)[:: 1 if d < 3 else 5]
    if d == 3:
        pts = pts + 1e-3 * np.arange(len(pts))[:, None]
    M = 2
    P = np.stack([pts, 0.5 * pts[::-1]])  # two runs of different extent
    for k in ks:
        K = env.as_np(k(P[:, None, ...], P[:, :, None, ...]))
        L = env.as_np(k.neg_log(P[:, None, ...], P[:, :, None, ...]))
        need(K.shape == (M, len(pts), len(pts)) and L.shape == K.shape, 'kernel %s: shapes %s and %s for %d x %d particles' % (name, K.shape, L.shape, M, len(pts)))
        R = np.sqrt(((P[:, None] - P[:, :, None]) ** 2).sum(-1))
        for m in range(M):
            rmax = float(R[m].max())
            for i, j in itertools.product(range(len(pts)), repeat=2):
                r = float(R[m, i, j])
                if name == 'Constant' and abs(r - kap) < 1e-9:
                    continue
                want = ref.neglog_kernel(name, kap, r, rmax)
                where = 'kernel %s(kappa=%s) at distance %.4f' % (name, kap, r)
                need(L[m, i, j] == want if want == math.inf else abs(L[m, i, j] - want) <= 1e-9 * (1 + want), '%s: negative logarithm %r, expected %r' % (where, L[m, i, j], want))
                need(abs(K[m, i, j] - math.exp(-want)) <= 1e-12, '%s: value %r, expected %r' % (where, K[m, i, j], math.exp(-want)))
            need_close('symmetry of ' + name, K[m], K[m].T)
            need_equal('value at distance zero', np.diagonal(K[m]), np.ones(len(pts)))
        ctx.step(M * len(pts) ** 2)
        ctx.state(name, kap, d, K)


def run(sc, ch, ctx):
    if 'kernels' in sc:
        return kernel_table(sc, ctx)
    lazy = env.Lazy(ch, [float(a) for a in sc['lazy']], budget=sc['budget']) if 'lazy' in sc else None
    if sc.get('torch'):
        S = torch_session(sc, ch, ctx)
    else:
        S = lock.Session(sc, ch, ctx, lazy=lazy)
    for s in range(sc['depth']):
        if s == 1 and sc.get('act'):
            term = lock.acts(ch, S.M)
        r = S.step(term if s and sc.get('act') else [])
        c = r.post['consensus']
        P = len(r.csel[r.active[0]])
        need(c is not None and c.shape == (len(r.active), P) + S.shape[2:], 'consensus has shape %s' % (None if c is None else c.shape,))
        want = r.pre['x'].copy()
        for a, m in enumerate(r.active):
            if lazy is not None and any(S.value(r.pre['x'][m][n]) == math.inf for n in r.csel[m]) and (
                    sc['kernel'] == 'Constant' or all(S.value(r.pre['x'][m][n]) == math.inf for n in r.csel[m])):
                return
            e = S.expect(r, m)
            scale = 1 + float(np.abs(r.pre['x'][m]).max())
            need_close('consensus of run %d seen by its particles after step %d' % (m, s + 1), c[a], e['consensus'], rtol=1e-7, atol=1e-7 * scale)
            if not sc.get('torch'):
                want[m] = S.expect(r, m, observed_consensus=True)['x']
        if not sc.get('torch'):
            need_close('x after step %d' % (s + 1), r.post['x'], want, **lock.tol(sc, 1e-7, 1e-7))
        lock.frozen(r, S.M, ['x'])
    if sc.get('kappa') == 'inf' and lazy is None and not sc.get('torch'):
        T = lock.Session(dict(sc, kind='CBO'), Chooser(list(zip(ch.choices, ch.sizes))), ctx)
        for s in range(sc['depth']):
            q = T.step(lock.acts(T.ch, S.M) if s == 1 and sc.get('act') else (term if s and sc.get('act') else []))
        if sc.get('noise') != 'covariance':
            need_close('x with an infinitely wide kernel', r.post['x'], q.post['x'], rtol=1e-7, atol=1e-8)
        need_close('consensus with an infinitely wide kernel', r.post['consensus'], np.broadcast_to(q.post['consensus'], r.post['consensus'].shape), rtol=1e-6, atol=1e-6)
    ctx.sample('%s -> consensus %s' % (sc, c.round(4).tolist()))


def torch_session(sc, ch, ctx):
    import torch
    from cbx.dynamics import PolarCBO
    from cbx.utils.torch_utils import to_torch_dynamic, compute_polar_consensus_torch
    # the numpy dynamic computes kernels and noise; the torch consensus function is fed with its inputs

    def cons(energy, x, neg_log_eval, alpha=1., kernel_factor=1.):
        t = lambda v: torch.tensor(np.asarray(v)) if not np.isscalar(v) else v
        c, e = compute_polar_consensus_torch(t(energy), t(x), t(neg_log_eval), alpha=t(alpha), kernel_factor=t(kernel_factor))
        need(isinstance(e, np.ndarray), 'the torch consensus returns energies as %s' % type(e))
        return c.numpy(), e
    return lock.Session(sc, ch, ctx, compute_consensus=cons)
