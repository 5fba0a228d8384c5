"""CBOMemory and PSO: historical bests and update rule, for all small histories of objective answers."""
import itertools

import numpy as np

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C03', 'model_checking'
RULE = ('lattice: dynamic x noise x correction x batch x shape x parameters; choices: objective value of every evaluated '
        'point (improve / worsen / tie), noise answer, terminated runs per step')
BOUNDS = 'M<=3, N<=4, shapes (1),(2),(2,2); histories of 2-3 steps with 3-letter energies; smooth objective with every terminated subset; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01 checks it)']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('CBOMemory', 'PSO'):
        for par in (dict(), dict(lamda_memory=0.9, sigma_memory=0.2, lamda=0.6, m=0.4, gamma=1.7, dt=0.2),
                    dict(lamda_memory=0., sigma_memory=1.1, m=0.), dict(lamda_memory=0.7, sigma_memory=0., m=0.4, gamma=0.)):
            for corr in dyns.CORRS:
                out.append(dict(kind=kind, M=1, N=2, d=1, noise='isotropic', corr=corr, correction_eps=0.5, lazy=[1., 0., 2.],
                                depth=2 if corr != 'no_correction' and not th else 3, budget=5 if corr != 'no_correction' else 7, **par))
            for b in dyns.batches(3):
                out.append(dict(kind=kind, M=1, N=3, d=2, noise='anisotropic', batch=b, lazy=[1., 0., 2.], depth=3,
                                budget=6 if not th else 8, **par))
                for noise, corr, d in itertools.product(dyns.NOISES, dyns.CORRS, (2, 1, [2, 2])):
                    if isinstance(d, list) and noise == 'covariance':
                        continue
                    if d == 1 and noise != 'isotropic' and not th:
                        continue
                    out.append(dict(kind=kind, M=2, N=3, d=d, noise=noise, corr=corr, correction_eps=0.4, batch=b, depth=2,
                                    alpha=[1., 9.], **par))
            out.append(dict(kind=kind, M=2, N=2, d=2, noise='constant', lazy=[1., 0.], depth=2, act=1, budget=8, **par))
            out.append(dict(kind=kind, M=3, N=2, d=2, noise='isotropic', depth=3, alpha=[1., 9., 0.1], **par))
        out.append(dict(kind=kind, M=1, N=2, d=2, noise='isotropic', lazy=[1., float(0), 'inf'], depth=2, budget=6))
        out.append(dict(kind=kind, M=1, N=2, d=2, noise='isotropic', lazy=[1e-12, 0.999e-12, 0.], depth=3, budget=7))
        out.append(dict(kind=kind, M=1, N=2, d=2, noise='isotropic', lazy=[1., 1. - 1e-13, 1. + 1e-13], depth=3, budget=6))
        for ini in (dict(), dict(batch=dict(size=1))):
            out.append(dict(kind=kind, M=1, N=2, d=2, noise='isotropic', lazy=[2., 0.25, -0.5], ints=1, depth=3, budget=7, **ini))
            out.append(dict(kind=kind, M=2, N=2, d=1, noise='isotropic', lazy=[3, 0.75, 1.5], ints=1, depth=2, budget=7, **ini))
    return dyns.stretch(dyns.magnify(out))


def run(sc, ch, ctx):
    lazy = env.Lazy(ch, [float(a) for a in sc['lazy']], budget=sc['budget'], ints='ints' in sc) if 'lazy' in sc else None
    S = lock.Session(sc, ch, ctx, lazy=lazy, patterns=('gen', 'zero') if lazy is None else ('gen',))
    dyn = S.dyn
    x = env.as_np(dyn.x)
    need_close('initial best positions', dyn.y, x)
    hist = {(m, n): [(x[m, n].copy(), S.value(x[m, n]))] for m in range(S.M) for n in range(S.N)}
    bests(S, dyn, hist, 'initially')
    for s in range(sc['depth']):
        if s == 0:
            term = []
        elif lazy is None or sc.get('act'):
            term = lock.acts(ch, S.M)
        if not all(np.isfinite(env.as_np(dyn.energy)[m]).any() for m in range(S.M)):
            return  # no consensus without a finite energy
        r = S.step(term)
        names = ['x', 'y', 'energy'] + (['v'] if sc['kind'] == 'PSO' else [])
        want = {k: r.pre[k].copy() for k in names}
        for m in r.active:
            e = S.expect(r, m, observed_consensus=True)
            for k in names:
                want[k][m] = e[k]
            for n in range(S.N):
                if n not in r.psel[m]:
                    for k in names:
                        need_equal('%s of unselected particle %s' % (k, [m, n]), r.post[k][m, n], r.pre[k][m, n])
                else:
                    p = r.post['x'][m, n]
                    hist[m, n].append((p.copy(), S.value(p)))
        for k in names:
            need_close('%s after step %d' % (k, s + 1), r.post[k], want[k], **lock.tol(sc))
        lock.frozen(r, S.M, names)
        bests(S, dyn, hist, 'after step %d' % (s + 1))
    ctx.sample('%s -> y=%s energy=%s' % (sc, r.post['y'].round(3).tolist(), r.post['energy'].round(4).tolist()))


def bests(S, dyn, hist, when):
    y, E = env.as_np(dyn.y), env.as_np(dyn.energy)
    rt = 0. if isinstance(S.f, env.Lazy) else 1e-9
    for (m, n), h in hist.items():
        lo = min(v for _, v in h)
        need_close('stored energy of particle %s %s' % ([m, n], when), E[m, n], lo, atol=0., rtol=rt)
        need(any(v <= lo + rt * abs(lo) if np.isfinite(lo) else v == lo for p, v in h if env.close(p, y[m, n])),
             'best position %s of particle %s %s is not a visited point with the smallest value %r' % (
                 y[m, n].tolist(), [m, n], when, lo))
