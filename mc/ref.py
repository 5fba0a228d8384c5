"""Reference semantics of one step, run by run and particle by particle, written for obviousness.

step(sc, pre, m, csel, psel, zs, f, it) -> dict of what run m looks like after one step.
  pre   snapshot before the step (x, y, v, m, adam second moment, energy, alpha)
  csel  particles of run m the consensus is computed from, psel particles that are updated
  zs    the sampled vectors of this step for run m, one array (len(psel), *d) per draw
  f     objective on one particle (for RegCombination: the user's objective)
"""
import math

import numpy as np

from . import dyns, env


def gibbs(E, alpha):
    """exp(-alpha E) normalised, stable; E may contain +inf (not all) or -inf."""
    E = [float(e) for e in E]
    lo = min(E)
    if lo == -math.inf:
        w = [1. if e == -math.inf else 0. for e in E]
    else:
        w = [math.exp(-alpha * (e - lo)) if e != math.inf else (0. if alpha > 0 else 1.) for e in E]
    s = math.fsum(w)
    return [v / s for v in w]


def mean(w, pts):
    out = np.zeros_like(np.asarray(pts[0], dtype=float))
    for a, p in zip(w, pts):
        if a:
            out = out + a * np.asarray(p)
    return out


def norm2(v):
    return math.sqrt(math.fsum(float(a) ** 2 for a in np.ravel(v)))


def sqrtm(C):
    w, V = np.linalg.eigh((C + C.T) / 2)
    w = np.where(w > 0, w, 0)
    return V @ np.diag(np.sqrt(w)) @ V.T


def noise(sc, Ds, z, dt, E=None, alpha=None):
    """The noise vectors for the drifts Ds of the updated particles."""
    model = sc.get('noise', 'covariance' if sc['kind'] == 'CBS' else 'isotropic')
    out = []
    if model in ('covariance', 'sampling'):
        w = gibbs(E, alpha)
        C = sum(a * np.outer(D, D) for a, D in zip(w, Ds))
        S = sqrtm(C)
        mode = sc.get('mode', 'sampling')
        c = (1 + alpha) if mode == 'sampling' else 1.
        return [math.sqrt(2 * dt * c) * (S @ xi) for xi in z]
    for D, xi in zip(Ds, z):
        s = {'isotropic': lambda: norm2(D), 'anisotropic': lambda: D, 'constant': lambda: 1.}[model]()
        out.append(math.sqrt(dt) * s * xi)
    return out


def correct(sc, Ds, E, fc):
    c = sc.get('corr', 'no_correction')
    if c == 'no_correction':
        return list(Ds)
    out = []
    for i, D in enumerate(Ds):
        gap = E[i] - (fc[i] if isinstance(fc, list) else fc)
        if c == 'heavi_side':
            out.append(D if gap > 0 else 0. * D)
        else:
            out.append(D * (1 + math.tanh(gap / sc.get('correction_eps', 1e-3))) / 2)
    return out


# ------------------------------------------------------------------------------------------- kernels
def neglog_kernel(name, kappa, r, rmax=None):
    if name == 'Gaussian':
        return 0. if kappa == math.inf else r * r / (2 * kappa ** 2)
    if name == 'Laplace':
        return 0. if kappa == math.inf else r / kappa
    if name == 'Constant':
        return 0. if r < kappa else math.inf
    if name == 'InverseQuadratic':
        return math.log(1 + (r / kappa) ** 2)
    return (r / (kappa * rmax)) ** 2 if rmax > 0 else 0.


# --------------------------------------------------------------------------------------- mirror maps
def conj(sc, y):
    """The inverse mirror map on one dual particle."""
    mm = sc.get('map', 'None')
    kw = sc.get('mapkw', {})
    y = np.asarray(y, dtype=float)
    if mm in ('None', 'L2'):
        return y / kw.get('lamda', 1.)
    if mm == 'ElasticNet':
        l, de = kw.get('lamda', 1.), kw.get('delta', 1.)
        return np.where(y > l, de * (y - l), np.where(y < -l, de * (y + l), 0.))
    if mm == 'ProjectionBall':
        c, r = np.asarray(kw.get('center', 0.), dtype=float), kw.get('radius', 1.)
        q = y - c
        n = norm2(q)
        return y if n <= r else c + q * (r / n)
    if mm == 'ProjectionHyperplane':
        a = np.asarray(kw.get('a') if kw.get('a') is not None else np.ones(y.shape), dtype=float)
        return y - (float((a * y).sum()) - kw.get('b', 0.)) / float((a * a).sum()) * a
    if mm == 'ProjectionSphere':
        return kw.get('r', 1.) * y / norm2(y)
    if mm == 'ProjectionSquare':
        r = kw.get('r', 1.)
        q = np.clip(y, -r, r)
        i = int(np.argmax(np.abs(q)))
        q = q.copy()
        q[i] = -r if q[i] < 0 or (q[i] == 0 and np.signbit(q[i])) else r
        return q
    if mm == 'LogBarrierBox':
        return np.array([0. if t == 0 else (math.sqrt(1 + t * t) - 1) / t if abs(t) > 1e-4 else t / 2 - t ** 3 / 8
                         for t in y])
    if mm == 'NonsmoothBarrier':
        return np.array([math.copysign(max(1 - math.sqrt(1 / abs(t)), 0.), t) if t else 0. for t in y])
    if mm == 'Entropy':
        return np.exp(-(y + 1))
    if mm == 'EntropySimplex':
        z = np.exp(y - y.max())
        return z / z.sum()
    if mm == 'Stiefel':
        Y = y.reshape(tuple(sc['nk']))
        G = Y.T @ Y
        w, V = np.linalg.eigh(G)
        return (Y @ V @ np.diag(1 / np.sqrt(w)) @ V.T).reshape(y.shape)  # polar factor
    raise KeyError(mm)


def grad_map(sc, x):
    mm = sc.get('map', 'None')
    kw = sc.get('mapkw', {})
    x = np.asarray(x, dtype=float)
    if mm.startswith('Projection') or mm == 'Stiefel':
        return x.copy()
    if mm in ('None', 'L2'):
        return kw.get('lamda', 1.) * x
    if mm == 'ElasticNet':
        return x / kw.get('delta', 1.) + kw.get('lamda', 1.) * np.sign(x)
    if mm == 'LogBarrierBox':
        return 2 * x / (1 - x * x)
    if mm == 'NonsmoothBarrier':
        return np.sign(x) / (1 - np.abs(x)) ** 2
    if mm == 'Entropy':
        return -np.log(x) - 1
    if mm == 'EntropySimplex':
        return np.log(np.maximum(x, 1e-32)) + 1
    raise KeyError(mm)


# --------------------------------------------------------------------------------------- constraints
def con_val(c, x):
    if c['name'] == 'plane':
        return (float(np.dot(c['a'], x)) - c['b']) / norm2(c['a'])
    if c['name'] == 'sphere':
        return norm2(x) ** 2 - c['r'] ** 2
    return float(x @ c['A'] @ x) + float(np.dot(c['b'], x)) + c['c']


def con_grad(c, x):
    if c['name'] == 'plane':
        return np.asarray(c['a']) / norm2(c['a'])
    if c['name'] == 'sphere':
        return 2 * x
    return (c['A'] + c['A'].T) @ x + c['b']


def con_hess(c, x):
    d = len(x)
    if c['name'] == 'plane':
        return np.zeros((d, d))
    if c['name'] == 'sphere':
        return 2 * np.eye(d)
    return c['A'] + c['A'].T


# ------------------------------------------------------------------------------------ hypersurfaces
def surf_normal(sc, x):
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return x / norm2(x)
    if s == 'plane':
        a = dyns.hyper_spec(sc)['a']
        return a / norm2(a)
    return x  # Stiefel: the documented choice grad = x


def surf_tangent(sc, x, z):
    if sc.get('sdf', 'sphere') == 'Stiefel':
        X, Z = x.reshape(sc['nk']), z.reshape(sc['nk'])
        return (Z - 0.5 * X @ (Z.T @ X + X.T @ Z)).reshape(x.shape)
    n = surf_normal(sc, x)
    return z - float(np.dot(n, z)) * n


def surf_laplacian(sc, x):
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return (len(x) - 1) / norm2(x)
    if s == 'plane':
        return 0.
    n, k = sc['nk']
    return (2 * n - k - 1) / 2


def surf_proj(sc, x):
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return x / norm2(x)
    if s == 'plane':
        h = dyns.hyper_spec(sc)
        return x - (float(np.dot(h['a'], x)) - h['b']) / float(np.dot(h['a'], h['a'])) * h['a']
    return conj(dict(map='Stiefel', nk=sc['nk']), x)


def surf_dist(sc, x):
    """How far x is from satisfying the surface equation."""
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return abs(norm2(x) - 1)
    if s == 'plane':
        h = dyns.hyper_spec(sc)
        return abs(float(np.dot(h['a'], x)) - h['b'])
    X = x.reshape(sc['nk'])
    return float(np.abs(X.T @ X - np.eye(X.shape[1])).max())


# ---------------------------------------------------------------------------------------------- step
def step(sc, pre, m, csel, psel, zs, f, consensus=None):
    """consensus: use this observed value (array) instead of the computed one."""
    kind = sc['kind']
    p = dyns.params(sc)
    dt, lam, sig = p['dt'], p['lamda'], p['sigma']
    if kind == 'CBS':
        sig = 1.
    # current values (schedulers may have changed them)
    dt = float(pre['dt']) if pre.get('dt') is not None else dt
    lam = float(pre['lamda']) if pre.get('lamda') is not None else lam
    sig = float(pre['sigma']) if pre.get('sigma') is not None else sig
    alpha = float(pre['alpha'][m, 0])
    csel, psel = [int(i) for i in csel], [int(i) for i in psel]
    x = np.array(pre['x'][m], dtype=float)
    E = np.array(pre['energy'][m], dtype=float)
    out = dict(evals=0, points=[])
    fe = f

    def ev(pt, count=True):
        out['points'].append(np.array(pt))
        out['evals'] += 1
        return float(fe(pt))

    # ---- memory dynamics
    if kind in ('CBOMemory', 'PSO'):
        y = np.array(pre['y'][m], dtype=float)
        c = mean(gibbs([E[n] for n in csel], alpha), [y[n] for n in csel]) if consensus is None else consensus
        lm = sc.get('lamda_memory', 0.4)
        sm = sc.get('sigma_memory', lm * p['sigma'])
        D = [x[n] - c for n in psel]
        Ep = [E[n] for n in psel]
        fc = ev(c) if sc.get('corr', 'no_correction') != 'no_correction' else None
        if kind == 'CBOMemory':
            Dc = correct(sc, D, Ep, fc)
            n1 = noise(sc, Dc, zs[0], dt, Ep, alpha)
            for j, n in enumerate(psel):
                x[n] = x[n] - lam * dt * Dc[j] + sig * n1[j]
            D2 = [x[n] - y[n] for n in psel]
            n2 = noise(sc, D2, zs[1], dt, Ep, alpha)
            for j, n in enumerate(psel):
                x[n] = x[n] - lm * dt * D2[j] + sm * n2[j]
            out['drift'] = D2
        else:
            v = np.array(pre['v'][m], dtype=float)
            mass = sc.get('m', 0.001)
            gam = sc.get('gamma', 1 - mass)
            D2 = [x[n] - y[n] for n in psel]
            n1 = noise(sc, D, zs[0], dt, Ep, alpha)
            n2 = noise(sc, D2, zs[1], dt, Ep, alpha)
            Dc = correct(sc, [lam * dt * q for q in D], Ep, fc)
            for j, n in enumerate(psel):
                v[n] = (mass * v[n] - Dc[j] - lm * dt * D2[j] + sig * n1[j] + sm * n2[j]) / (mass + gam * dt)
                x[n] = x[n] + dt * v[n]
            out['v'] = v
            out['drift'] = D2
        for n in psel:
            e = ev(x[n])
            if e < E[n]:
                E[n], y[n] = e, x[n].copy()
        out.update(x=x, y=y, energy=E, consensus=c)
        return out

    # ---- all others evaluate the selected particles first
    if kind == 'RegCombinationCBO':
        cons = env.constr(sc.get('cons', 'none'), x.shape[-1]) or []
        nu = sc.get('nu', 1)
        g2 = lambda q: sum(con_val(c, q) ** 2 for c in cons) / nu
        fe = lambda q: float(f(q)) + g2(q)
    for n in csel:
        E[n] = ev(x[n])
    if kind == 'PolarCBO':
        kap = sc.get('kappa', 0.7)
        kap = math.inf if kap == 'inf' else kap
        kf = alpha if sc.get('kmode', 'alpha') == 'alpha' else 1.
        R = [[norm2(x[i] - x[j]) for j in csel] for i in csel]
        rmax = max(max(r) for r in R)
        name = sc.get('kernel', 'Gaussian')
        lo = min(E[j] for j in csel)
        gap = lambda j: E[j] - lo if E[j] != lo else 0.
        lw = [[kf * neglog_kernel(name, kap, r, rmax) + alpha * gap(j) for r, j in zip(row, csel)] for row in R]
        W = [gibbs(row, 1.) for row in lw]
        cs = [mean(w, [x[n] for n in csel]) for w in W] if consensus is None else list(consensus)
        D = [x[n] - cs[i] for i, n in enumerate(psel)]
        fc = [ev(c) for c in cs] if sc.get('corr', 'no_correction') != 'no_correction' else None
        Dc = correct(sc, D, [E[n] for n in psel], fc)
        if sc.get('noise') in ('covariance', 'sampling'):
            cc = (1 + alpha) if sc.get('mode', 'sampling') == 'sampling' else 1.
            nz = [math.sqrt(2 * dt * cc) * (sqrtm(sum(a * np.outer(q, q) for a, q in zip(w, Dc))) @ xi)
                  for w, xi in zip(W, zs[0])]
        else:
            nz = noise(sc, Dc, zs[0], dt)
        for j, n in enumerate(psel):
            x[n] = x[n] - lam * dt * Dc[j] + sig * nz[j]
        out.update(x=x, energy=E, consensus=np.array(cs), drift=Dc)
        return out

    c = mean(gibbs([E[n] for n in csel], alpha), [x[n] for n in csel]) if consensus is None else consensus
    D = [x[n] - c for n in psel]
    Ep = [E[n] for n in psel]
    out.update(energy=E, consensus=c)
    if kind in ('CBO', 'CBS', 'MirrorCBO'):
        fc = ev(c) if sc.get('corr', 'no_correction') != 'no_correction' else None
        D = correct(sc, D, Ep, fc)
    nz = noise(sc, D, zs[0], dt, Ep, alpha)
    out['drift'] = D
    if kind in ('CBO', 'CBS'):
        for j, n in enumerate(psel):
            x[n] = x[n] - lam * dt * D[j] + sig * nz[j]
    elif kind == 'MirrorCBO':
        y = np.array(pre['y'][m], dtype=float)
        for j, n in enumerate(psel):
            y[n] = y[n] - lam * dt * D[j] + sig * nz[j]
        x = np.array([conj(sc, q) for q in y])
        out['y'] = y
    elif kind == 'AdamCBO':
        b1, b2 = sc.get('betas', (0.9, 0.99))
        eps = sc.get('eps', 1e-8)
        it = int(pre['it']) + 1
        M1, M2 = np.array(pre['m'][m], dtype=float), np.array(pre['v'][m], dtype=float)
        for j, n in enumerate(psel):
            M1[n] = b1 * M1[n] + (1 - b1) * D[j]
            M2[n] = b2 * M2[n] + (1 - b2) * D[j] ** 2
            mh, vh = M1[n] / (1 - b1 ** it), M2[n] / (1 - b2 ** it)
            x[n] = x[n] - lam * mh / (np.sqrt(vh) + eps) + sig * nz[j]
        out['m'], out['v'] = M1, M2
    elif kind == 'HyperSurfaceCBO':
        for j, n in enumerate(psel):
            q = x[n] + surf_tangent(sc, x[n], lam * dt * c + sig * nz[j])
            if sc.get('noise', 'isotropic') == 'anisotropic':
                k = dt * sig ** 2 / 2 * (norm2(D[j]) ** 2 + D[j] ** 2 - 2 * norm2(D[j] * x[n]) ** 2) * x[n]
            else:
                k = dt * sig ** 2 / 2 * surf_laplacian(sc, x[n]) * norm2(D[j]) ** 2 * surf_normal(sc, x[n])
            x[n] = surf_proj(sc, q - k)
    elif kind == 'DriftConstrainedCBO':
        cons = env.constr(sc.get('cons', 'none'), x.shape[-1]) or []
        fac = dt / sc.get('eps', 0.01)
        for j, n in enumerate(psel):
            g = np.zeros(x.shape[-1])
            H = np.zeros((x.shape[-1],) * 2)
            for k in cons:
                val, gr = con_val(k, x[n]), con_grad(k, x[n])
                g = g + 2 * val * gr
                H = H + 2 * (np.outer(gr, gr) + val * con_hess(k, x[n]))
            rhs = lam * dt * D[j] + fac * g + sig * nz[j]
            x[n] = x[n] - np.linalg.solve(np.eye(len(g)) + fac * H, rhs)
    elif kind == 'RegCombinationCBO':
        cons = env.constr(sc.get('cons', 'none'), x.shape[-1]) or []
        eps = sc.get('eps', 0.01)
        fac = dt / eps if eps < 1e15 else 0.
        for j, n in enumerate(psel):
            rhs = x[n] - lam * dt * D[j] + sig * nz[j]
            A = np.eye(x.shape[-1])
            for k in cons:
                g = con_val(k, x[n])
                A = A + fac * 2 * g * con_hess(k, x[n])          # linear part of grad g(z)
                rhs = rhs - fac * 2 * g * con_grad(k, np.zeros(x.shape[-1]))  # constant part
            x[n] = np.linalg.solve(A, rhs)
    else:
        raise KeyError(kind)
    out['x'] = x
    return out


def clip_post(x, thresh=1e8):
    x = np.where(np.isnan(x), thresh, x)
    return np.clip(x, -thresh, thresh)
