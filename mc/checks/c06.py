"""HyperSurfaceCBO: surface membership and projected update."""
import itertools

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C06', 'model_checking'
RULE = ('lattice: surface x dimension x noise x batch x parameters; choices: noise answer (generic, zero, large), terminated '
        'runs per step')
BOUNDS = 'M<=3, N<=3, sphere/plane d<=4, Stiefel (2,1),(3,1),(2,2),(3,2); 3 steps (4 thorough); large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01 checks it)', 'anisotropic noise on the sphere only (documented curvature term)',
               'the point before projection is not the center of the sphere']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    surf = [dict(sdf='sphere', d=d) for d in (2, 3, 4)] + [dict(sdf='sphere', sdf_default=1, d=3)]
    surf += [dict(sdf='plane', d=d, b=b) for d in (1, 2, 3) for b in (0.4, -1.)] + [dict(sdf='plane', d=2, a=[0., 2.], b=0.)]
    surf += [dict(sdf='Stiefel', nk=nk, d=nk[0] * nk[1]) for nk in ([2, 1], [3, 1], [2, 2], [3, 2])]
    pars = [dict(), dict(lamda=0.5, dt=0.3, sigma=1.2, alpha=[0.5, 4., 20.]), dict(dt=0.01, sigma=0.)]
    for off in (0, 1):  # surfaces without a known curvature term for anisotropic noise: membership only
        for s in surf:
            if not off and s['sdf'] == 'sphere':
                continue
            for noise in ('isotropic', 'anisotropic') if off else ('anisotropic',):
                if off and s['sdf'] == 'Stiefel' and noise == 'isotropic':
                    continue
                out.append(dict(kind='HyperSurfaceCBO', M=2, N=3, noise=noise, batch=None, depth=2 if not th else 3, off=off, dt=0.2, lamda=0.6, **s))
                out.append(dict(kind='HyperSurfaceCBO', M=2, N=3, noise=noise, batch=dict(size=2, partial=False, seed=3), depth=2 if not th else 3, off=off, **s))
    for s in surf:
        for noise in (('isotropic', 'anisotropic') if s['sdf'] == 'sphere' else ('isotropic',)):
            for par in pars:
                for b in dyns.batches(3):
                    out.append(dict(kind='HyperSurfaceCBO', M=2, N=3, noise=noise, batch=b, depth=3 if not th else 4, **s, **par))
                out.append(dict(kind='HyperSurfaceCBO', M=1, N=1, noise=noise, depth=2, **s, **par))
                out.append(dict(kind='HyperSurfaceCBO', M=3, N=2, noise=noise, depth=2, **s, **par))
    return dyns.stretch(out)


def run(sc, ch, ctx):
    x = env.generic(dyns.shape(sc), 19, 0.9) if sc.get('off') else None
    S = lock.Session(sc, ch, ctx, x=x, patterns=('gen', 'zero', 'big'))
    judged = not (sc['noise'] == 'anisotropic' and (sc['sdf'] != 'sphere' or sc.get('off')))
    for s in range(sc['depth']):
        if s == 1:
            term = lock.acts(ch, S.M)
        r = S.step([] if s == 0 else term, pattern=None if s < 2 else 'gen')
        want = r.pre['x'].copy()
        for m in r.active:
            want[m] = S.expect(r, m, observed_consensus=True)['x']
            for n in range(S.N):
                p = r.post['x'][m, n]
                if n in r.psel[m]:
                    need(np.all(np.isfinite(p)) and ref.surf_dist(sc, p) < 1e-8,
                         'x%s = %s after step %d is not on the surface' % ([m, n], p.tolist(), s + 1))
                else:
                    need_equal('x of unselected particle %s' % [m, n], p, r.pre['x'][m, n])
        if judged:
            need_close('x after step %d' % (s + 1), r.post['x'], want, rtol=1e-7, atol=1e-8)
        lock.frozen(r, S.M, ['x'])
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))
