"""CBO step against the particle-wise formula, on the real CBO class."""
import itertools

import numpy as np

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C02', 'model_checking'
RULE = ('lattice: noise x correction x batch (size, partial, variant) x runs x particle shape x parameters; choices per '
        'step: noise answer, terminated set of runs')
BOUNDS = 'M<=3 runs, N<=4 particles, particle shapes (1),(2),(3),(2,2); 2 steps (3 thorough); noise answers zero/generic/large; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used by the step is the one reported (C01 checks it)',
               'consensus_idx/particle_idx name the selected particles (C15 checks them against the evaluated points)']

PARS = [dict(), dict(dt=0.03, lamda=0.4, sigma=2.1, alpha=[0.5, 3., 20.]), dict(dt=1., lamda=1., sigma=0., alpha=1.),
        dict(dt=0.5, lamda=0., sigma=1.)]


def scenarios(tier):
    out = []
    noises = ['isotropic', 'anisotropic', 'constant']
    corrs = [('no_correction', None), ('heavi_side', None), ('heavi_side_reg', 1e-3), ('heavi_side_reg', 0.4)]
    for (M, N, d), noise, (corr, eps) in itertools.product(
            [(1, 2, 1), (2, 3, 2), (3, 3, 3), (2, 3, [2, 2]), (1, 1, 2)], noises, corrs):
        for i, b in enumerate(dyns.batches(N)):
            for j, par in enumerate(PARS):
                if tier == 'quick' and j > 1 and (b is not None or corr == 'heavi_side'):
                    continue
                if tier == 'quick' and M == 3 and b is not None and i % 3:
                    continue
                s = dict(kind='CBO', M=M, N=N, d=d, noise=noise, corr=corr, batch=b, **par)
                if eps:
                    s['correction_eps'] = eps
                if eps == 1e-3 and j:
                    s.pop('correction_eps')  # the default
                s['depth'] = 2 if tier == 'quick' else 3
                out.append(s)
    for noise, (corr, eps), (dt, lam, sig) in itertools.product(noises, corrs, [(2.5, .3, 1.), (9., 3., 6.), (1e-3, 50., 1.)]):
        out.append(dict(kind='CBO', M=2, N=2, d=2, noise=noise, corr=corr, correction_eps=eps or .4, batch=None, dt=dt, lamda=lam, sigma=sig, alpha=[.5, 3.], depth=2))
    for corr, noise in itertools.product(['heavi_side', 'heavi_side_reg', 'no_correction'], noises):
        for b in (None, dict(size=1, partial=False, seed=1), dict(size=1, partial=True, seed=1)):
            out.append(dict(kind='CBO', M=1, N=2, d=2, noise=noise, corr=corr, correction_eps=0.5, batch=b, lazy=[1., 0., 2.5],
                            depth=2))
    return dyns.stretch(dyns.magnify(out))


def run(sc, ch, ctx):
    if sc.get('lazy'):  # every pattern of energies above, at and below the objective at the consensus
        S = lock.Session(sc, ch, ctx, patterns=('gen',), lazy=env.Lazy(ch, sc['lazy']))
        for s in range(sc['depth']):
            r = S.step()
            need_close('x after step %d' % (s + 1), r.post['x'][0], S.expect(r, 0, observed_consensus=True)['x'])
        return
    S = lock.Session(sc, ch, ctx, patterns=('gen', 'zero') if sc['M'] > 1 else ('gen', 'zero', 'big'))
    for s in range(sc['depth']):
        term = lock.acts(ch, S.M) if s or S.M < 3 else []
        r = S.step(term)
        want = r.pre['x'].copy()
        for m in r.active:
            e = S.expect(r, m, observed_consensus=True)
            want[m] = e['x']
            for n in range(S.N):
                if n not in r.psel[m]:
                    need_equal('x of unselected particle %s' % [m, n], r.post['x'][m, n], r.pre['x'][m, n])
        need_close('x after step %d' % (s + 1), r.post['x'], want)
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))
