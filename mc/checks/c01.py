"""Consensus point of every single-consensus dynamic against the Gibbs mean, for all small energy patterns."""
import itertools

import numpy as np

from .. import dyns, env, lock, ref
from ..core import Violation
from ..env import need, need_close

ID, LEVEL = 'C01', 'model_checking'
RULE = ('lattice: dynamic x alpha (scalar, per run, up to 1e15) x batch x shape x backend; choices: the objective value of '
        'every evaluated point from an alphabet with ties, negative, huge and infinite letters; terminated runs per step')
BOUNDS = 'M<=3, N<=4, shapes (1),(2),(2,2); 1-2 steps; 3-6 letter energy alphabets; every proper subset of terminated runs; large and long copies (M=4, N=9, d up to 5, 12 steps) with at most one deviation from the default choices'
ASSUMPTIONS = ['no selected energy is -inf', 'noise answers generic']

INF = 'inf'
ALPH = {'wide': [0., 1., 1e6, INF, -3., -1e9, 1e300], 'fine': [0., 0.3, -0.2, 0.3], 'small': [0., 2., INF], 'tie': [5., 5., -1.],
        'huge': [1e9, 1e9 + 8, 1e12], 'hugetie': [1e12, 1e12, 1e12 + 1], 'two': [0., 1.], 'one': [0.]}


def fletter(a):
    return float(a)


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    base = [dict(kind='CBO'), dict(kind='CBOMemory'), dict(kind='PSO'), dict(kind='AdamCBO'), dict(kind='CBS'),
            dict(kind='MirrorCBO'), dict(kind='HyperSurfaceCBO'), dict(kind='HyperSurfaceCBO', sdf='plane'),
            dict(kind='DriftConstrainedCBO', cons='plane'), dict(kind='RegCombinationCBO', cons='plane', nu=0.5),
            dict(kind='CBO', torch=1), dict(kind='CBO', check_coeffs=1), dict(kind='MirrorCBO', map='ProjectionBall')]
    for b in base:
        # one run, one step: all energy patterns of three particles
        for al in (1., 1e-3, 40., 1e5, 1e15):
            for alph in ('wide', 'fine', 'huge', 'tie') if al <= 1e5 else ('small', 'tie', 'hugetie'):
                if alph == 'fine' and al > 100:
                    continue
                if alph == 'huge' and not (al == 1. or al == 1e-3):
                    continue
                if b.get('check_coeffs') and alph in ('wide', 'small'):
                    continue
                for d in (2,) if tier == 'quick' and alph != 'fine' else (2, 3):
                    out.append(dict(b, M=1, N=3, d=d, alpha=al, alph=alph, depth=1, budget=3))
        # several runs with their own alpha, terminated subsets, two steps
        for al in ([1.5, 30., 0.1], 2.0):
            for d in ((2,) if dyns.flat_only(b) else (2, 1, [2, 2])):
                if d == 1 and b.get('sdf', 'sphere') == 'sphere' and b['kind'] == 'HyperSurfaceCBO':
                    continue
                out.append(dict(b, M=2, N=2, d=d, alpha=al, alph='tie' if b.get('check_coeffs') else 'small', depth=2, budget=4 if not th else 7, act=1))
                out.append(dict(b, M=3, N=2, d=d, alpha=al, alph='two', depth=2, budget=6 if not th else 9, act=1))
        # batches
        if not dyns.unbatched(b):
            for bt in dyns.batches(4 if th else 3):
                if bt:
                    out.append(dict(b, M=2, N=4 if th else 3, d=2, alpha=[0.7, 3.], batch=bt, alph='tie', depth=3,
                                    budget=4 if not th else 6, act=1))
    # generic smooth objectives: many particles, both backends
    for b in base:
        for al in (1e-2, 3., [0.2, 7., 90.]):
            out.append(dict(b, M=3, N=5, d=3 if b['kind'] not in ('DriftConstrainedCBO', 'RegCombinationCBO') else 2,
                            alpha=al, depth=3, act=1))
    return dyns.stretch(dyns.magnify(out))


def run(sc, ch, ctx):
    lazy = None
    if 'alph' in sc:
        lazy = env.Lazy(ch, [float(a) for a in ALPH[sc['alph']]], budget=sc['budget'])
    over = {}
    if sc.get('check_coeffs'):
        from cbx.dynamics.pdyn import compute_consensus_default
        over['compute_consensus'] = compute_consensus_default(check_coeffs=True)
    if sc.get('torch'):
        S = torch_session(sc, ch, ctx, lazy)
    else:
        S = lock.Session(sc, ch, ctx, lazy=lazy, **over)
    for s in range(sc['depth']):
        if s == 0:
            term = []
        elif s == 1 and sc.get('act'):
            term = lock.acts(ch, S.M)
        r = S.step(term)
        c = r.post['consensus']
        need(c is not None and c.shape == (len(r.active), 1) + S.shape[2:],
             'consensus has shape %s with %d active runs' % (None if c is None else c.shape, len(r.active)))
        for a, m in enumerate(r.active):
            if sc['kind'] in ('CBOMemory', 'PSO'):
                E = [r.pre['energy'][m, n] for n in r.csel[m]]
                P = [r.pre['y'][m, n] for n in r.csel[m]]
            else:
                P = [r.pre['x'][m, n] for n in r.csel[m]]
                E = [S.value(p) + extra(sc, p) for p in P]
            if all(e == np.inf for e in E):
                return  # no finite energy: the property does not speak about it
            alpha = float(r.pre['alpha'][m, 0])
            want = ref.mean(ref.gibbs(E, alpha), P)
            what = 'consensus of run %d after step %d' % (m, s + 1)
            tol = 1e-8
            need_close(what, c[a, 0], want, rtol=tol, atol=tol)
            need(np.all(np.isfinite(c[a])), what + ' is not finite')
            P = np.array(P)
            slack = 1e-9 + 1e-12 * np.abs(P).max()
            need(np.all(c[a, 0] <= P.max(axis=0) + slack) and np.all(c[a, 0] >= P.min(axis=0) - slack),
                 what + ' lies outside the convex hull')
    if lazy is None:
        shift_invariance(sc, S, ctx)
    ctx.sample('%s -> consensus %s' % (sc, c.round(4).tolist()))


def extra(sc, p):
    if sc['kind'] != 'RegCombinationCBO':
        return 0.
    return sum(ref.con_val(k, p) ** 2 for k in env.constr(sc['cons'], len(p))) / sc.get('nu', 1)


def torch_session(sc, ch, ctx, lazy):
    import torch
    from cbx.dynamics import CBO
    from cbx.utils.torch_utils import to_torch_dynamic

    class TSession(lock.Session):
        def _provide(self, k, size):
            return super()._provide(k, size)

    x = torch.tensor(dyns.x0(sc))

    class TNoise(env.Noise):
        def __call__(self, size=None):
            return torch.tensor(super().__call__(size))
    S = TSession.__new__(TSession)
    orig = env.Noise
    env.Noise = TNoise
    try:
        TSession.__init__(S, sc, ch, ctx, x=x, lazy=lazy, cls=to_torch_dynamic(CBO),
                          **({'alpha': torch.tensor(dyns.alpha_arr(sc, S_shape(sc)))[:, None]}
                             if isinstance(sc['alpha'], list) else {}))
    finally:
        env.Noise = orig
    return S


def S_shape(sc):
    return dyns.shape(sc)[0]


def shift_invariance(sc, S, ctx):
    """Adding a constant to the objective does not move the consensus."""
    if sc['kind'] in ('CBOMemory', 'PSO') or sc.get('torch'):
        return
    from ..core import Chooser
    res = []
    for c in (0., 1024., -2. ** 20):
        base = dyns.objective(sc)
        T = lock.Session(sc, Chooser(), ctx, fun=lambda x, c=c: base(x) + c)
        res.append(T.step([]).post['consensus'])
    need_close('consensus for the objective shifted by 1024', res[1], res[0], rtol=1e-6, atol=1e-7)
    need_close('consensus for the objective shifted by -2^20', res[2], res[0], rtol=1e-5, atol=1e-6)
