"""MirrorCBO: dual update, inverse mirror map and feasibility after every step."""
import itertools

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C05', 'model_checking'
RULE = ('lattice: mirror map x its parameters x noise x correction x batch x dimension x initial ensemble (generic, far '
        'outside, on axes); choices: noise answer (generic, zero, large), terminated runs per step')
BOUNDS = 'M<=2, N<=3, d<=4; 3 steps (4 thorough); large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01 checks it)', 'the sphere map is undefined at exactly 0']

MAPS = [('None', {}), ('L2', {}), ('L2', dict(lamda=2.5)), ('ElasticNet', {}), ('ElasticNet', dict(delta=0.5, lamda=0.3)),
        ('ProjectionBall', {}), ('ProjectionBall', dict(radius=0.4)), ('ProjectionBall', dict(radius=2.5)),
        ('ProjectionBall', dict(radius=0.3, center=[0.5, -0.2])),
        ('ProjectionHyperplane', {}), ('ProjectionHyperplane', dict(a=[2., -1.], b=0.7)), ('ProjectionHyperplane', dict(b=-1.)),
        ('ProjectionSphere', {}), ('ProjectionSphere', dict(r=0.35)), ('ProjectionSquare', {}), ('ProjectionSquare', dict(r=0.3)),
        ('ProjectionSquare', dict(r=2.)), ('LogBarrierBox', {}), ('NonsmoothBarrier', {}), ('Entropy', {}), ('EntropySimplex', {}),
        ('Stiefel', {})]


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for mm, kw in MAPS:
        for d in (2, 1, 3, 4):
            if d != 2 and (isinstance(kw.get('center'), list) or kw.get('a')):
                continue
            if d == 1 and mm in ('ProjectionSphere', 'EntropySimplex'):
                continue
            base = dyns.dim(dict(kind='MirrorCBO', map=mm, mapkw=kw, nk=[2, 1] if mm == 'Stiefel' else None), d)
            if base is None:
                continue
            if mm != 'Stiefel':
                base.pop('nk')
            for noise, init in itertools.product(dyns.NOISES, ('generic', 'outside', 'axis')):
                if init == 'outside' and mm in ('LogBarrierBox', 'NonsmoothBarrier', 'Entropy', 'EntropySimplex'):
                    continue
                if init == 'axis' and mm in ('Stiefel',):
                    continue
                if not th and d != 2 and noise in ('constant', 'covariance'):
                    continue
                for b in ([None] if d != 2 and not th else dyns.batches(3) if noise == 'isotropic' else [None, dict(size=2, partial=True, seed=3)]):
                    for corr in (('no_correction', 'heavi_side') if noise == 'isotropic' and d == 2 else ('no_correction',)):
                        out.append(dict(base, M=2, N=3, noise=noise, init=init, batch=b, corr=corr, depth=3,
                                        alpha=[1., 6.]))
    return dyns.stretch(out)


def init(sc):
    x = dyns.x0(sc)
    if sc['init'] == 'outside':
        x = x * 3.7 + 0.2
    if sc['init'] == 'axis':
        x = x.copy()
        if sc['map'] == 'EntropySimplex':
            x[0, 0] = 0
            x[0, 0, 0] = 1.
        elif sc['map'] == 'Entropy':
            pass
        else:
            x[0, 0, 1:] = 0
            x[0, 1, :-1] = 0
            if sc['map'] != 'ProjectionSphere':
                x[1, 0] = 0
    return x


def feasible(sc, p, tol=1e-7):
    mm, kw = sc['map'], sc['mapkw']
    if mm == 'ProjectionBall':
        return ref.norm2(p - np.asarray(kw.get('center', 0.))) <= kw.get('radius', 1.) + tol
    if mm == 'ProjectionHyperplane':
        a = np.asarray(kw.get('a') or np.ones(len(p)))
        return abs(float((a * p).sum()) - kw.get('b', 0.)) <= tol
    if mm == 'ProjectionSphere':
        return abs(ref.norm2(p) - kw.get('r', 1.)) <= tol
    if mm == 'ProjectionSquare':
        return abs(float(np.abs(p).max()) - kw.get('r', 1.)) <= tol
    if mm == 'Stiefel':
        X = p.reshape(sc['nk'])
        return float(np.abs(X.T @ X - np.eye(X.shape[1])).max()) <= tol
    if mm == 'LogBarrierBox' or mm == 'NonsmoothBarrier':
        return bool(np.all(np.abs(p) <= 1))
    if mm == 'EntropySimplex':
        return bool(np.all(p >= 0)) and abs(float(p.sum()) - 1) <= tol
    if mm == 'Entropy':
        return bool(np.all(p >= 0))
    return True


def run(sc, ch, ctx):
    x = init(sc)
    S = lock.Session(sc, ch, ctx, x=x.copy(), patterns=('gen', 'zero', 'big'))
    y0 = np.array([[ref.grad_map(sc, p) for p in row] for row in x])
    need_close('initial dual variables', S.dyn.y, y0, rtol=1e-5 if sc['map'] == 'Entropy' else 1e-8, atol=1e-6)
    for s in range(sc['depth']):
        if s == 1:
            term = lock.acts(ch, S.M)
        r = S.step([] if s == 0 else term, pattern=None if s < 2 else 'gen')
        wy = r.pre['y'].copy()
        wx = r.pre['x'].copy()
        for m in r.active:
            e = S.expect(r, m, observed_consensus=True)
            wy[m] = e['y']
            # primal from the observed dual variables: judged separately from the dual update
            wx[m] = [ref.conj(sc, q) for q in r.post['y'][m]]
            for n in range(S.N):
                if n not in r.psel[m]:
                    need_equal('y of unselected particle %s' % [m, n], r.post['y'][m, n], r.pre['y'][m, n])
                p = r.post['x'][m, n]
                need(np.all(np.isfinite(p)) and feasible(sc, p), 'x%s = %s after step %d is not feasible' % ([m, n], p.tolist(), s + 1))
        need_close('y after step %d' % (s + 1), r.post['y'], wy, **lock.tol(sc))
        need_close('x after step %d' % (s + 1), r.post['x'], wx, **lock.tol(sc, 1e-7, 1e-8))
        lock.frozen(r, S.M, ['x', 'y'])
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))
