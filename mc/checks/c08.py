"""Covariance noise: S is reconstructed column by column from the moves of the real particles."""
import itertools
import math

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C08', 'model_checking'
RULE = ('lattice: dynamic (CBS modes, CBO, memory, swarm, polarized, mirror) x ensemble (generic, collinear, collapsed, '
        'tiny, huge, duplicates) x alpha x batch; choices: sampled vector (each basis vector, generic), energies, terminated '
        'runs; plus the matrix root on all integer Gram matrices of a box')
BOUNDS = 'M<=3, N<=4, d<=3, 1-2 steps; Gram matrices of all 2x2 and 3x3 matrices over {-1,0,1} (thorough: 2x2 over -3..3), scales 1e-12..1e12; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01, C09 check it)']

ENS = ['generic', 'collinear', 'collapsed', 'flat', 'tiny', 'huge', 'dup', 'far']


def ensemble(sc):
    x = env.generic(dyns.shape(sc), 3, 0.9)
    e = sc['ens']
    if e == 'collinear':
        t = env.generic(x.shape[:2] + (1,), 8)
        x = 0.2 + t * env.generic(x.shape[2:], 9)
    elif e == 'collapsed':
        x = np.repeat(x[:, :1], x.shape[1], axis=1)
    elif e == 'flat':
        x[..., 0] = 0.25
    elif e == 'tiny':
        x = 1e-7 * x
    elif e == 'huge':
        x = 1e5 * x
    elif e == 'dup':
        x[:, -1] = x[:, 0]
    elif e == 'far':
        x = 50 + 1e-4 * x
    return x


def scenarios(tier):
    th = tier == 'thorough'
    out = [dict(root=k) for k in range(8)]
    base = [dict(kind='CBS', mode='sampling'), dict(kind='CBS', mode='optimization'), dict(kind='CBO', noise='covariance'),
            dict(kind='CBO', noise='sampling'), dict(kind='CBO', noise='covariance', corr='heavi_side_reg', correction_eps=0.5),
            dict(kind='CBO', noise='covariance', corr='heavi_side'),
            dict(kind='CBOMemory', noise='covariance'), dict(kind='PSO', noise='covariance', m=0.2), dict(kind='AdamCBO', noise='covariance'),
            dict(kind='MirrorCBO', noise='covariance'),
            dict(kind='PolarCBO', noise='covariance'), dict(kind='PolarCBO', noise='covariance', kernel='Laplace', kmode='const'),
            dict(kind='PolarCBO', noise='covariance', kernel='Taz')]
    for b in base:
        for ens in ENS:
            for d in (2, 1, 3):
                for al in ([0.5, 3., 40.], 1e5, 1e-3):
                    for N in (3, 1, 4):
                        if (N == 4 or d == 3) and not th and (ens not in ('generic', 'dup') or al == 1e-3):
                            continue
                        out.append(dict(b, M=2 if N != 1 else 3, N=N, d=d, ens=ens, alpha=al, depth=2))
        if not dyns.unbatched(b):
            for bt in dyns.batches(3, partial_only=dyns.partial_only(b)):
                if bt:
                    out.append(dict(b, M=3, N=3, d=2, ens='generic', alpha=[0.5, 3., 40.], batch=bt, depth=2))
        for al in (1., 30.):
            for alph in ([0., 1., 'inf'], [1e9, 1e9 + 1, 1e9], [-5., 0.1, 0.1]):
                out.append(dict(b, M=1, N=3, d=2, ens='generic', alpha=al, lazy=alph, budget=3, depth=1))
    return dyns.stretch(out)


def roots(k, ctx):
    from cbx.dynamics.pdyn import compute_mat_sqrt
    if k < 2:
        d, vals = 2, (-3, -2, -1, 0, 1, 2, 3)
    else:
        d, vals = 3, (-1, 0, 1)
    A = []
    for n, B in enumerate(itertools.product(vals, repeat=d * d)):
        if n % (2 if k < 2 else 6) != (k if k < 2 else k - 2):
            continue
        B = np.array(B, dtype=float).reshape(d, d)
        A.append(B @ B.T)
    A = np.array(A)
    for scale in (1., 1e-12, 1e12):
        S = env.as_np(compute_mat_sqrt(scale * A))
        need(S.shape == A.shape and S.dtype.kind == 'f' and np.all(np.isfinite(S)), 'matrix root has shape %s, dtype %s' % (S.shape, S.dtype))
        s = math.sqrt(scale)
        need_close('symmetry of the root', S / s, np.moveaxis(S, -1, -2) / s, atol=1e-9)
        need_close('root squared', (S / s) @ (S / s), A, rtol=1e-9, atol=1e-9)
        lo = np.linalg.eigvalsh((S + np.moveaxis(S, -1, -2)) / 2).min() / s
        need(lo > -1e-7, 'the root has the negative eigenvalue %g' % lo)
        n = len(A) // 2 * 2
        T = env.as_np(compute_mat_sqrt(scale * A[:n].reshape(n // 2, 2, d, d)))
        need_close('root of a stack', T.reshape(n, d, d) / s, S[:n] / s, atol=1e-7)
    ctx.step(3 * len(A))
    for a in A[::97]:
        ctx.state(a)


def run(sc, ch, ctx):
    if 'root' in sc:
        return roots(sc['root'], ctx)
    lazy = env.Lazy(ch, [float(a) for a in sc['lazy']], budget=sc['budget']) if 'lazy' in sc else None
    x = ensemble(sc)
    d = sc['d']
    for j in range(d):
        lock.PATTERNS['e%d' % j] = lambda size, k, j=j: np.broadcast_to(np.eye(d)[j], size).copy()
    scale = float(np.abs(x).max()) or 1.
    fun = (lambda q, f=env.quad(1): f(q / scale)) if sc['ens'] == 'huge' else None
    S = lock.Session(sc, ch, ctx, fun=fun, x=x.copy(), lazy=lazy, patterns=tuple(['e%d' % j for j in range(d)] + ['gen']))
    names = ['x'] + (['v'] if sc['kind'] == 'PSO' else []) + (['y'] if sc['kind'] == 'MirrorCBO' else [])
    for s in range(sc['depth']):
        if s == 1:
            term = lock.acts(ch, S.M)
        pre_E = env.as_np(S.dyn.energy)
        if lazy is not None and sc['kind'] in ('CBOMemory', 'PSO') and not np.isfinite(pre_E).any():
            return
        r = S.step([] if s == 0 else term, pattern=None if s == 0 else ['gen', 'e0'][s % 2])
        for m in r.active:
            if lazy is not None and not any(np.isfinite(r.post['energy'][m][n]) for n in r.csel[m]):
                return
            e = S.expect(r, m, observed_consensus=True)
            spread = max([float(np.abs(q).max()) for q in np.asarray(e['drift'])] + [float(np.abs(r.pre['x'][m] - e['consensus'][0]).max() if sc['kind'] == 'PolarCBO' else np.abs(r.pre['x'][m] - e['consensus']).max())])
            amp = spread * (1 + math.sqrt(2 * 0.1 * (1 + float(r.pre['alpha'][m, 0]))) * 0.7)
            for k in names:
                got, want = r.post[k][m], e[k]
                need(np.all(np.isfinite(got)), '%s of run %d is not finite' % (k, m))
                tol = 2e-6 * amp + 1e-13 * (1 + float(np.abs(r.pre['x'][m]).max())) * (1 + math.sqrt(float(r.pre['alpha'][m, 0])))
                if k == 'v':
                    tol *= 10
                bad = np.abs(got - want).max()
                need(bad <= tol, '%s of run %d after step %d is off by %.3g (tolerance %.3g): %s, expected %s' % (
                    k, m, s + 1, bad, tol, got.tolist(), want.tolist()))
        lock.frozen(r, S.M, ['x'])
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(5).tolist()))
