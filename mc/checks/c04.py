"""AdamCBO: moments and update against a reference that carries its own moments."""
import itertools

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C04', 'model_checking'
RULE = ('lattice: noise x moment factors x eps x batch x shape; choices: noise answer, terminated runs per step, '
        'objective letters in the small scenarios')
BOUNDS = 'M<=3, N<=4, shapes (1),(2),(2,2); histories of 3 steps (4 thorough); large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['the consensus used is the one reported (C01 checks it)', 'iteration number = number of the step since construction']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    pars = [dict(), dict(betas=[0.5, 0.8], eps=1e-3, lamda=0.3), dict(betas=[0., 0.9], sigma=0.), dict(betas=[0.9, 0.], eps=0.1, dt=0.5)]
    for par, noise in itertools.product(pars, dyns.NOISES):
        for (M, N, d) in ((1, 2, 1), (2, 3, 2), (2, 2, [2, 2]), (3, 2, 2)):
            if isinstance(d, list) and noise == 'covariance':
                continue
            for b in dyns.batches(N):
                if M == 3 and b and not th:
                    continue
                out.append(dict(kind='AdamCBO', M=M, N=N, d=d, noise=noise, batch=b, depth=3 if not th or M == 3 else 4, **par))
        out.append(dict(kind='AdamCBO', M=1, N=2, d=1, noise=noise, depth=3, lazy=[0., 1., 3.], **par))
    return dyns.stretch(dyns.magnify(out))


def run(sc, ch, ctx):
    lazy = env.Lazy(ch, sc['lazy'], budget=5) if 'lazy' in sc else None
    S = lock.Session(sc, ch, ctx, lazy=lazy, patterns=('gen',) if lazy else ('gen', 'zero'))
    m1, m2 = np.zeros(S.shape), np.zeros(S.shape)
    for s in range(sc['depth']):
        term = [] if s == 0 else lock.acts(ch, S.M)
        r = S.step(term, pattern='gen' if s else None)
        want = r.pre['x'].copy()
        for m in r.active:
            pre = dict(r.pre, m=m1, v=m2, it=np.array(s))
            e = S.expect(r, m, observed_consensus=True, pre=pre)
            want[m], m1[m], m2[m] = e['x'], e['m'], e['v']
            for n in range(S.N):
                if n not in r.psel[m]:
                    need_equal('x of unselected particle %s' % [m, n], r.post['x'][m, n], r.pre['x'][m, n])
        need_close('x after step %d' % (s + 1), r.post['x'], want, **lock.tol(sc, 1e-7, 1e-8))
        lock.frozen(r, S.M, ['x'])
        need_equal('iteration counter', r.post['it'], np.array(s + 1))
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))
