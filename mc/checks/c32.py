"""Mirror maps on lattices of points: inverse pairs, gradients of their potentials, nearest points of their sets, selection."""
import itertools
import math
import warnings

import numpy as np

import cbx.dynamics as D
from cbx.dynamics import mirrorcbo as MM

from .. import env
from ..core import Violation
from ..env import need, need_close, need_equal

ID, LEVEL = 'C32', 'exploration'
RULE = ('every mirror map x parameters x way of selection x every lattice point of every dimension, as ensembles of every shape; projections '
        'compared with every point of a fine lattice of their set; the proximal post-processing made from every projection on a dynamic')
BOUNDS = 'd<=4 (Stiefel up to 3x3); 5-11 values per coordinate; 400-4000 competitor points per set'
ASSUMPTIONS = ['ensembles (M,N,d)', 'sphere projection not at exactly 0', 'weighted_L2 (declared not implemented) excluded',
               'Entropy up to its documented offset 1.2e-7', 'roundtrip of EntropySimplex on the simplex']

PAIRS = {
    'None': ([{}], 'R'), 'L2': ([{}, dict(lamda=2.5), dict(lamda=.01)], 'R'),
    'ElasticNet': ([{}, dict(delta=.5), dict(lamda=.3), dict(delta=3., lamda=2.), dict(lamda=0.)], 'R'),
    'LogBarrierBox': ([{}], 'box'), 'NonsmoothBarrier': ([{}], 'box'), 'Entropy': ([{}], 'pos'), 'EntropySimplex': ([{}], 'simplex'),
}
PROJ = {
    'ProjectionBall': [{}, dict(radius=.4), dict(radius=2.5), dict(center=.3), dict(radius=.7, center='vec'), dict(radius=3., center=-1.)],
    'ProjectionHyperplane': [{}, dict(b=-1.), dict(a='vec'), dict(a='vec', b=.7), dict(a='vec', b=-2.)],
    'ProjectionSphere': [{}, dict(r=.35), dict(r=4.)],
    'ProjectionSquare': [{}, dict(r=.3), dict(r=2.)],
}
STIEFEL = [(1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (3, 3)]
CLS = dict({k: v for k, v in MM.mirror_dict.items()}, Stiefel=MM.ProjectionStiefel)


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for m, (kws, dom) in PAIRS.items():
        for i in range(len(kws)):
            for d in (1, 2, 3) + ((4,) if th else ()):
                if m == 'EntropySimplex' and d == 1:
                    continue
                out.append(dict(fam='pair', map=m, kw=i, d=d))
    for m, kws in PROJ.items():
        for i in range(len(kws)):
            for d in (1, 2, 3, 4):
                if d == 1 and m == 'ProjectionSphere':
                    continue
                out.append(dict(fam='proj', map=m, kw=i, d=d))
    for i, (n, k) in enumerate(STIEFEL):
        out.append(dict(fam='proj', map='Stiefel', kw=i, d=n * k))
    out.append(dict(fam='select'))
    return out


def params(sc):
    m, d = sc['map'], sc['d']
    kw = dict(PAIRS[m][0][sc['kw']] if m in PAIRS else PROJ[m][sc['kw']] if m in PROJ else dict(nk=STIEFEL[sc['kw']]))
    if isinstance(kw.get('a'), str):
        kw['a'] = env.generic((d,), 21, 2.)
    if isinstance(kw.get('center'), str):
        kw['center'] = env.generic((d,), 22, .8)
    return kw


def select(name, kw, ch):
    """The map, selected in one of the possible ways."""
    ways = ['class'] + (['dict'] if name != 'Stiefel' else []) + (['name'] if not kw and name != 'Stiefel' else [])
    w = ch.pick(ways, 'selection')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if w == 'dict':
            spec = dict(kw, name=name)
            f = MM.get_mirror_map(spec)
            need(set(spec) == set(kw) | {'name'}, 'the given dictionary is changed')
            return w, f
        if w == 'name':
            return w, MM.get_mirror_map(name)
        o = CLS[name](**kw)
        f = MM.get_mirror_map(o)
        need(f is o, 'a given map is replaced by another one')
        return w, f


def grid(dom, d):
    v = dict(R=[0., 1e-9, -.3, 1., 4., -250.], box=[0., 1e-9, -.3, .5, -.99, .999999, -.9999], pos=[1e-3, .25, 1., 4., 200.],
             simplex=[0., 1., 1e-6, 3., .5])[dom]
    if d > 2:
        v = v[:5]
    if d > 3:
        v = v[:4]
    p = np.array(list(itertools.product(v, repeat=d)))
    if dom == 'simplex':
        p = p[p.sum(-1) > .4]
        p = p / p.sum(-1, keepdims=True)
    return p


def ensembles(p):
    """The points as ensembles of different shapes; the last one is in Fortran order."""
    n = len(p)
    yield p[None].copy(), n
    yield p[:, None].copy(), n
    k = n // 6 * 6
    if k:
        yield p[:k].reshape(k // 3, 3, -1).copy(), k
        yield np.asfortranarray(p[:k].reshape(2, k // 2, -1)), k


def apply(what, f, x):
    keep = x.copy()
    with np.errstate(all='ignore'):
        y = f(x)
    need_equal(what + ': argument', x, keep)
    need(np.shape(y) == x.shape, '%s: shape %s of %s' % (what, np.shape(y), x.shape))
    return np.asarray(y)


def run(sc, ch, ctx):
    return dict(pair=pair, proj=proj, select=selection)[sc['fam']](sc, ch, ctx)


def pgrad(m, kw, c):
    if m in ('None', 'L2'):
        return kw.get('lamda', 1.) * c
    if m == 'ElasticNet':
        return c / kw.get('delta', 1.) + kw.get('lamda', 1.) * float(np.sign(c))
    if m == 'LogBarrierBox':
        return 1 / (1 - c) - 1 / (1 + c)
    if m == 'NonsmoothBarrier':
        return float(np.sign(c)) / (1 - abs(c)) ** 2
    if m == 'Entropy':
        return -math.log(c) - 1
    return math.log(max(c, 1e-32)) + 1


def potential(m, kw, p):
    if m in ('None', 'L2'):
        return kw.get('lamda', 1.) / 2 * sum(c * c for c in p)
    if m == 'ElasticNet':
        return sum(c * c for c in p) / (2 * kw.get('delta', 1.)) + kw.get('lamda', 1.) * sum(abs(c) for c in p)
    if m == 'LogBarrierBox':
        return -sum(math.log(1 - c) + math.log(1 + c) for c in p)
    if m == 'Entropy':
        return -sum(c * math.log(c) for c in p)
    return None


def pair(sc, ch, ctx):
    m, d = sc['map'], sc['d']
    kw = params(sc)
    w, f = select(m, kw, ch)
    what = '%s(%s) by %s' % (m, kw, w)
    p = grid(PAIRS[m][1], d)
    if m == 'NonsmoothBarrier':  # (1 - |c|)^2 loses its digits next to the boundary
        p = p[np.abs(p).max(-1) < .9999]
    tol = dict(rtol=1e-5, atol=2e-7) if m == 'Entropy' else dict(rtol=1e-8, atol=1e-9)
    want = np.array([[pgrad(m, kw, c) for c in q] for q in p])
    for x, n in ensembles(p):
        y = apply(what + ' grad', f.grad, x)
        need_close(what + ' grad', y.reshape(n, d), want[:n], rtol=2e-4 if m == 'Entropy' else 1e-8, atol=1e-6 if m == 'Entropy' else 1e-9)
        back = apply(what + ' grad_conj', f.grad_conj, y.copy())
        need(np.all(np.isfinite(back)), what + ': not finite')
        need_close(what + ': conjugate gradient of the gradient', back, x, **tol)
    # the conjugate map inverts on the dual side as well and stays in the domain
    v = {'Entropy': [-5., 0., 2.], 'EntropySimplex': [-3., 0., 2., 700.]}.get(m, [-1e4, -3., -1.5, 0., 1.5, 8., 1e6])
    Y = np.array(list(itertools.product(v[:5] if d > 2 else v, repeat=d)))[None]
    x = apply(what + ' grad_conj', f.grad_conj, Y)
    need(np.all(np.isfinite(x)), what + ': not finite on dual points')
    if m in ('LogBarrierBox', 'NonsmoothBarrier'):
        need(np.all(np.abs(x) <= 1), what + ': outside of the box')
    if m in ('Entropy', 'EntropySimplex'):
        need(np.all(x >= 0), what + ': negative')
    if m == 'EntropySimplex':
        need_close(what + ': sum', x.sum(-1), np.ones(x.shape[:-1]), rtol=1e-12)
    dead = np.zeros(Y.shape, bool)
    if m == 'ElasticNet':
        lam, delta = kw.get('lamda', 1.), kw.get('delta', 1.)
        dead = np.abs(Y) <= lam
        need_close(what + ': soft threshold', x, delta * np.sign(Y) * np.maximum(np.abs(Y) - lam, 0), rtol=1e-12)
    if m == 'NonsmoothBarrier':
        dead = np.abs(Y) <= 1
    need(np.all(x[dead] == 0), what + ': dual points of the kink are not sent to 0')
    if m != 'EntropySimplex':
        g = apply(what + ' grad', f.grad, x)
        need_close(what + ': gradient of the conjugate gradient', np.where(dead, 0, g), np.where(dead, 0, Y), rtol=1e-4 if m == 'Entropy' else 1e-6, atol=1e-6)
    # potential and Bregman distance
    if potential(m, kw, p[-1]) is not None:
        q = p[:40]
        F = np.array([potential(m, kw, t) for t in q])
        need_close(what + ': potential', f(q[None])[0], F, rtol=1e-9, atol=1e-9)
        for s in range(1, 4):
            r = np.roll(q, s, axis=0)
            B = f.Bregman_distance(r[None], q[None])[0]
            ref = np.array([potential(m, kw, a) - potential(m, kw, b) - sum(pgrad(m, kw, bb) * (aa - bb) for aa, bb in zip(a, b)) for a, b in zip(r, q)])
            need_close(what + ': Bregman distance', B, ref, rtol=1e-4, atol=1e-3 if m == 'Entropy' else 1e-6)
    ctx.case((m, sc['kw'], d, w))
    if len(ctx.samples) < 3:
        ctx.sample(what)


def sphere_points(d, n):
    if d == 1:
        return np.array([[1.], [-1.]])
    if d == 2:
        t = np.arange(n) * 2 * math.pi / n
        return np.stack([np.cos(t), np.sin(t)], -1)
    k = int(n ** (1 / (d - 1)))
    ang = list(itertools.product(*([[math.pi * (i + .5) / k for i in range(k)]] * (d - 2) + [[2 * math.pi * i / (2 * k) for i in range(2 * k)]])))
    out = []
    for a in ang:
        v, s = [], 1.
        for t in a:
            v.append(s * math.cos(t))
            s *= math.sin(t)
        out.append(v + [s])
    return np.array(out)


def competitors(m, kw, d):
    if m == 'ProjectionBall':
        u = sphere_points(d, 600)
        c = np.asarray(kw.get('center', 0.)) * np.ones(d)
        return np.concatenate([c + kw.get('radius', 1.) * s * u for s in (1., .5, 0., .9)])
    if m == 'ProjectionSphere':
        return kw.get('r', 1.) * sphere_points(d, 2000)
    if m == 'ProjectionHyperplane':
        a = np.asarray(kw.get('a', np.ones(d)), float) * np.ones(d)
        b = kw.get('b', 0.)
        g = np.array(list(itertools.product([-5., -1., -.2, 0., .3, 2., 7.], repeat=d)))
        return g - ((g @ a - b) / (a @ a))[:, None] * a
    if m == 'ProjectionSquare':
        r = kw.get('r', 1.)
        g = np.array(list(itertools.product([-r, -.75 * r, -.3 * r, 0., .1 * r, .5 * r, r], repeat=d)))
        return g[np.abs(g).max(-1) >= r]
    n, k = kw['nk']
    out = []
    for key in range(600):
        q, R = np.linalg.qr(env.generic((n, k), 1000 + key))
        out.append((q * (np.where(np.arange(k) % 2 == key % 2, 1, -1))).reshape(-1))
    for s in itertools.product([1., -1.], repeat=k):
        for perm in itertools.permutations(range(n), k):
            A = np.zeros((n, k))
            for j, i in enumerate(perm):
                A[i, j] = s[j]
            out.append(A.reshape(-1))
    return np.array(out)


def inside(m, kw, d, x, tol=1e-9):
    if m == 'ProjectionBall':
        c = np.asarray(kw.get('center', 0.)) * np.ones(d)
        return math.sqrt(sum((x - c) ** 2)) <= kw.get('radius', 1.) + tol
    if m == 'ProjectionSphere':
        return abs(math.sqrt(sum(x * x)) - kw.get('r', 1.)) <= tol
    if m == 'ProjectionHyperplane':
        a = np.asarray(kw.get('a', np.ones(d)), float) * np.ones(d)
        return abs(sum(a * x) - kw.get('b', 0.)) <= tol * (1 + np.abs(x).max()) * 10
    if m == 'ProjectionSquare':
        return abs(np.abs(x).max() - kw.get('r', 1.)) <= tol
    X = x.reshape(kw['nk'])
    return np.abs(X.T @ X - np.eye(X.shape[1])).max() <= tol


def proj(sc, ch, ctx):
    m, d = sc['map'], sc['d']
    kw = params(sc)
    w, f = select(m, kw, ch)
    what = '%s(%s) by %s' % (m, kw, w)
    v = {1: [-30., -2., -1., -.3, 0., 1e-7, .25, .9, 1., 5.], 2: [-6., -1., -.3, 0., .25, 1., 3.], 3: [-4., -.4, 0., .3, 1.]}.get(d, [-2., 0., .3])
    if d > 4:
        p = np.stack([env.generic((d,), 500 + i, 10. ** (i % 4 - 2)) for i in range(120)])
    else:
        p = np.concatenate([np.array(list(itertools.product(v, repeat=d))), np.stack([env.generic((d,), 500 + i, 3.) for i in range(20)])])
    if m == 'ProjectionSphere':
        p = p[np.abs(p).max(-1) > 0]
    C = competitors(m, kw, d)
    for c in C[:50]:
        assert inside(m, kw, d, c), (what, c)
    on = None
    for x, n in ensembles(p):
        y = apply(what + ' grad_conj', f.grad_conj, x)
        need_equal(what + ' grad is the identity', f.grad(x), x)
        y = y.reshape(n, d)
        need(np.all(np.isfinite(y)), what + ': not finite')
        for q, r in zip(x.reshape(n, d), y):
            need(inside(m, kw, d, r), '%s: %s -> %s is not in the set' % (what, q.tolist(), r.tolist()))
        if on is None:
            dist = np.sqrt(((y - p) ** 2).sum(-1))
            best = np.sqrt(((C[None] - p[:, None]) ** 2).sum(-1)) if n * len(C) * d < 4e6 else np.sqrt(((C[None, ::7] - p[:, None]) ** 2).sum(-1))
            i = np.argmax(dist - best.min(1))
            need(dist[i] <= best[i].min() + 1e-9 * (1 + dist[i]), '%s: %s -> %s, but %s of the set is closer' % (
                what, p[i].tolist(), y[i].tolist(), C[np.argmin(((C - p[i]) ** 2).sum(-1))].tolist()))
            on = y
        else:
            need_close(what + ' in other shapes', y, on[:n], rtol=1e-12, atol=1e-12)
    again = apply(what + ' grad_conj', f.grad_conj, on[None].copy())[0]
    need_close(what + ': twice', again, on, rtol=1e-9, atol=1e-9)
    need_close(what + ' on points of the set', apply(what, f.grad_conj, C[None].copy())[0], C, rtol=1e-9, atol=1e-9)
    # as proximal post-processing of another dynamic
    if w == 'class':
        P = MM.MirrorMaptoPostProcessProx(CLS[m])(**kw)
        x0 = p[:6].reshape(2, 3, d).copy()
        z = env.Noise()
        dyn = D.CBO(env.quad(1), x=x0, f_dim='3D', sampler=z, verbosity=0, post_process=P)
        ref_ = D.CBO(env.quad(1), x=x0, f_dim='3D', sampler=env.Noise(), verbosity=0, post_process=lambda dyn: None)
        z.live = ref_.sampler.live = True
        dyn.step()
        ref_.step()
        need_close(what + ' as post-processing', dyn.x, f.grad_conj(ref_.x.copy()), rtol=1e-9, atol=1e-9)
        for q in dyn.x.reshape(-1, d):
            need(inside(m, kw, d, q, 1e-8), what + ': %s after the step is not in the set' % q)
    ctx.case((m, sc['kw'], d, w))
    if len(ctx.samples) < 3:
        ctx.sample(what)


def selection(sc, ch, ctx):
    name = ch.pick([n for n in MM.mirror_dict if n != 'weighted_L2'] + ['?', 'l2', '', None], 'name')
    if name is None:
        need(type(MM.get_mirror_map(None)) is MM.L2, 'None selects %s' % type(MM.get_mirror_map(None)))
    elif name in MM.mirror_dict:
        want = {'None': 'L2', 'EntropySimplex': 'NegativeLogEntropySimplex'}.get(name, name)
        for o in (MM.get_mirror_map(name), MM.get_mirror_map(dict(name=name)), MM.get_mirror_map_by_name(name)):
            need(type(o).__name__ == want, '%s selects %s' % (name, type(o).__name__))
            dyn = D.MirrorCBO(env.quad(1), mirrormap=name, x=np.full((1, 3, 2), .5), f_dim='3D', verbosity=0)
            need(type(dyn.mirrormap).__name__ == want, 'MirrorCBO with %s uses %s' % (name, type(dyn.mirrormap).__name__))
    else:
        for spec in (name, dict(name=name)):
            try:
                MM.get_mirror_map(spec)
            except ValueError:
                continue
            raise Violation('unknown map %r is not refused' % (spec,))
    ctx.case(('select', str(name)))
