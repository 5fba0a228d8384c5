"""Constraints on a lattice of points: derivatives, sums over all lists of constraints, linear solves."""
import itertools

import numpy as np

from cbx.constraints import MultiConstraint, NoConstraint, get_constraints

from .. import env, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C23', 'exploration'
RULE = ('every list of at most three (four thorough) constraints from a pool (with repetitions, all orders) x dimension x every lattice point x '
        'array shape x factor x right-hand side; gradients and Hessians also against central differences of the code\'s own value '
        '(exact for polynomials of degree two)')
BOUNDS = 'd<=3 (4 thorough); 5^d lattice points and points on the surfaces; factors 0, 0.05, 1, 30; systems with condition number > 1e9 excluded'
ASSUMPTIONS = []
FACTORS = [0., .05, 1., 30.]


def pool(d):
    g = lambda k, s=1.: env.generic((d,), k, s)
    A = env.generic((d, d), 5)
    out = [dict(name='plane', a=1.7 * g(1) + .1, b=.4), dict(name='plane', a=np.eye(d)[0] * -2., b=0.), dict(name='sphere', r=.8), dict(name='sphere'), dict(name='sphere', r=2.),
           dict(name='quadric', A=A @ A.T + .5 * np.eye(d), b=g(2, .5), c=-.4), dict(name='quadric', A=A, b=g(3), c=1.5), dict(name='quadric', A=np.zeros((d, d)), b=g(4), c=0),
           dict(name='quadric', A=np.diag(np.arange(1., d + 1)), b=np.zeros(d), c=-1.)]
    return out


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for d in (2, 1, 3) + ((4,) if th else ()):
        P = len(pool(d))
        out.append(dict(d=d, lst=[]))
        for k in range(P):
            out.append(dict(d=d, lst=[k]))
        for l in itertools.product(range(P), repeat=2):
            out.append(dict(d=d, lst=list(l)))
        for l in itertools.product(range(P), repeat=3):
            if th or sum(l) % 3 == d % 3:
                out.append(dict(d=d, lst=list(l)))
        if th and d == 2:
            for l in itertools.product(range(0, P, 2), repeat=4):
                out.append(dict(d=d, lst=list(l)))
    return out


def points(d, cons):
    t = [-1.5, -.5, 0., .7, 2.] if d < 4 else [-1., 0., .7]
    P = list(itertools.product(t, repeat=d))
    for k in cons:  # a point of the surface
        if k['name'] == 'plane':
            P.append(k['a'] * k['b'] / (k['a'] @ k['a']))
        if k['name'] == 'sphere':
            P.append(k.get('r', 1.) * np.eye(d)[-1])
    return np.array(P, float)


def full(k):
    k = dict(k)
    if k['name'] == 'sphere':
        k.setdefault('r', 1.)
    return k


def val(k, x):
    if k['name'] == 'plane':
        return sum(a * c for a, c in zip(k['a'], x)) / np.sqrt(sum(a * a for a in k['a'])) - k['b'] / np.sqrt(sum(a * a for a in k['a']))
    if k['name'] == 'sphere':
        return sum(c * c for c in x) - k['r'] ** 2
    return sum(k['A'][i][j] * x[i] * x[j] for i in range(len(x)) for j in range(len(x))) + sum(b * c for b, c in zip(k['b'], x)) + k['c']


def grad(k, x):
    d = len(x)
    if k['name'] == 'plane':
        return np.array(k['a']) / np.sqrt(sum(a * a for a in k['a']))
    if k['name'] == 'sphere':
        return np.array([2 * c for c in x])
    return np.array([sum((k['A'][i][j] + k['A'][j][i]) * x[j] for j in range(d)) + k['b'][i] for i in range(d)])


def hess(k, d):
    if k['name'] == 'plane':
        return np.zeros((d, d))
    if k['name'] == 'sphere':
        return 2 * np.eye(d)
    return np.array(k['A']) + np.array(k['A']).T


def run(sc, ch, ctx):
    d = sc['d']
    spec = [pool(d)[k] for k in sc['lst']]
    keep = [{a: np.array(b) if a != 'name' else b for a, b in k.items()} for k in spec]
    CS = get_constraints([dict(k) for k in spec])
    need(len(CS) == len(spec), 'get_constraints turns %d constraints into %d' % (len(spec), len(CS)))
    need(len(get_constraints([None] + [dict(k) for k in spec] + [None])) == len(spec), 'get_constraints keeps empty entries')
    need(get_constraints(None) == [], 'get_constraints(None)')
    G = MultiConstraint(CS)
    ks = [full(k) for k in keep]
    P = points(d, ks)
    n = len(P)
    V = np.array([[val(k, p) for k in ks] for p in P]).reshape(n, len(ks))
    D = np.array([[grad(k, p) for k in ks] for p in P]).reshape(n, len(ks), d)
    H = np.array([[hess(k, d) for k in ks] for p in P]).reshape(n, len(ks), d, d)
    sq = (V ** 2).sum(1)
    gs = (2 * V[..., None] * D).sum(1)
    hs = (2 * (D[..., :, None] * D[..., None, :] + V[..., None, None] * H)).sum(1)
    ch_ = (V[..., None, None] * H).sum(1)
    rhs = env.generic((n, d), 31, 2.)
    names = '+'.join(k['name'] for k in spec) or 'no constraint'
    T = dict(rtol=1e-9, atol=1e-9)

    def chk(what, got, want, lead):
        if not len(ks) and np.shape(got) == ():
            got = np.broadcast_to(got, want.shape)
        need_close('%s (%s, points of shape %s)' % (what, names, lead + (d,)), got, want, **T)
    one = len(ks) == 1
    full_sel = np.arange(n)
    shapes = [(n,)]
    shapes += [(), (1,), (3,), (1, 1), (1, 4), (3, 1), (2, 3), (2, 1, 3), (0,)]
    for si, shp in enumerate(shapes):
        k = int(np.prod(shp))
        idx = full_sel if si == 0 else (11 * si + 5 * np.arange(k)) % n
        x = P[idx].reshape(shp + (d,))
        x0 = x.copy()
        r = rhs[idx].reshape(shp + (d,))
        r0 = r.copy()
        chk('value', G(x), V.sum(1)[idx].reshape(shp), shp)
        chk('squared value', G.squared(x), sq[idx].reshape(shp), shp)
        chk('gradient of the squares', G.grad_squared_sum(x), gs[idx].reshape(shp + (d,)), shp)
        chk('Hessian of the squares', G.hessian_squared_sum(x), hs[idx].reshape(shp + (d, d)), shp)
        chk('Hessian', G.hessian_sum(x), H.sum(1)[idx].reshape(shp + (d, d)), shp)
        chk('value times Hessian', G.call_times_hessian_sum(x), ch_[idx].reshape(shp + (d, d)), shp)
        for fac in FACTORS:
            for name, A in (('solve_Id_call_times_hessian', ch_), ('solve_Id_hessian_squared_sum', hs)):
                M = np.eye(d) + fac * A
                good = np.linalg.cond(M) < 1e9
                if not good[idx].all():  # keep the shape, replace bad points by a good one
                    if not good.any():
                        continue
                    jdx = np.where(good[idx], idx, np.flatnonzero(good)[0])
                    x_, r_ = P[jdx].reshape(shp + (d,)), r
                else:
                    jdx, x_, r_ = idx, x, r
                y = getattr(G, name)(x_, r_, factor=fac)
                need(np.shape(y) == shp + (d,), '%s (%s) maps shape %s to %s' % (name, names, shp + (d,), np.shape(y)))
                Y = np.asarray(y).reshape(-1, d)
                want = np.array([np.linalg.solve(M[j], b) for j, b in zip(jdx, r_.reshape(-1, d))]).reshape(-1, d)
                scale = np.linalg.cond(M[jdx]).max() if len(jdx) else 1
                need_close('%s (%s, factor %g) at each point' % (name, names, fac), Y, want, rtol=1e-9 + 1e-13 * scale, atol=1e-9 + 1e-13 * scale)
                if one:
                    y1 = getattr(CS[0], name.replace('_sum', ''))(x_, r_, factor=fac)
                    need_close('%s of the constraint itself' % name, y1, y)
            if len(ks) <= 1:
                M = np.eye(d) + (2 * fac * ch_)
                good = np.linalg.cond(M) < 1e9
                if good[idx].all():
                    y = G.solve_Id_plus_call_grad(x, r, factor=fac)
                    need(np.shape(y) == shp + (d,), 'solve_Id_plus_call_grad (%s) maps shape %s to %s' % (names, shp + (d,), np.shape(y)))
                    Y = np.asarray(y).reshape(-1, d)
                    for j, b, yy in zip(idx, r.reshape(-1, d), Y):  # y + 2 factor c(x) grad c(y) = rhs
                        res = yy.copy()
                        for k_, v in zip(ks, V[j]):
                            res = res + 2 * fac * v * grad(k_, yy)
                        need_close('solve_Id_plus_call_grad (%s, factor %g) at %s: its left-hand side' % (names, fac, P[j].tolist()), res, b, rtol=1e-8,
                                   atol=1e-8 * (1 + fac * np.abs(V[j]).max(initial=0) * (1 + np.abs(yy).max())))
        need_equal('the points', x, x0)
        need_equal('the right-hand side', r, r0)
        if one:
            c, k_ = CS[0], ks[0]
            chk('value', c(x), V[idx, 0].reshape(shp), shp)
            chk('squared', c.squared(x), sq[idx].reshape(shp), shp)
            chk('gradient', c.grad(x), D[idx, 0].reshape(shp + (d,)), shp)
            chk('Hessian', c.hessian(x), H[idx, 0].reshape(shp + (d, d)), shp)
            chk('gradient of the square', c.grad_squared(x), gs[idx].reshape(shp + (d,)), shp)
            chk('Hessian of the square', c.hessian_squared(x), hs[idx].reshape(shp + (d, d)), shp)
            chk('value times Hessian', c.call_times_hessian(x), ch_[idx].reshape(shp + (d, d)), shp)
            h = .25
            for j in range(d):
                e = np.zeros(d)
                e[j] = h
                need_close('difference quotient of the value (%s)' % names, (c(x + e) - c(x - e)) / (2 * h), c.grad(x)[..., j], **T)
                need_close('difference quotient of the gradient (%s)' % names, (c.grad(x + e) - c.grad(x - e)) / (2 * h), c.hessian(x)[..., j], **T)
        ctx.case((d, tuple(sc['lst']), shp), n=max(1, k))
    if len(ks) > 1:
        try:
            G.solve_Id_plus_call_grad(P, rhs)
            need(False, 'solve_Id_plus_call_grad accepts several constraints')
        except ValueError:
            pass
    if not ks:
        c = NoConstraint()
        need_equal('NoConstraint', c(P), np.zeros(n))
        need_equal('gradient of NoConstraint', c.grad(P), np.zeros((n, d)))
        need_equal('Hessian of NoConstraint', c.hessian(P), np.zeros((n, d, d)))
        need_equal('solve for NoConstraint', c.solve_Id_hessian_squared(P, rhs, factor=2.), rhs)
        need_equal('solve for NoConstraint', c.solve_Id_call_times_hessian(P, rhs, factor=2.), rhs)
        need_equal('gradient sum without constraints', G.grad_squared_sum(P), np.zeros((n, d)))
    for k, s in zip(keep, spec):
        for a in k:
            if a != 'name':
                need_equal('parameter %s' % a, s[a], k[a])
    for p in P:
        ctx.case((d, tuple(sc['lst']), p))
    ctx.sample('%s in dimension %d: %d points, value at %s = %s' % (names, d, n, P[1].tolist(), V[1].round(3).tolist()))
