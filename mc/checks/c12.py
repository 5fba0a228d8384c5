"""Termination criteria: every verdict of the real criteria against its definition, for all short histories."""
import itertools
import math

import numpy as np

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C12', 'model_checking'
RULE = ('lattice: criterion (and pairs) x threshold x dynamic x batch x form (name, spelling, dict, object); choices: objective '
        'values at every evaluated point (below, at, above the tolerance), noise answer')
BOUNDS = 'M<=3, N<=3; up to 8 steps per optimisation; default thresholds by whole optimisations; optimisations of up to 20 steps with M=4, N=9'
ASSUMPTIONS = ['update norm = Frobenius norm of the change of a run divided by N', 'the standard deviation is the population one',
               'stagnation is checked at every iteration (as optimize() does)']

FORMS = {'energy-tol': ['energy-tol', 'energy tol', 'energy_tol'], 'diff-tol': ['diff-tol', 'diff tol', 'diff_tol'],
         'max-eval': ['max-eval', 'max eval', 'max_eval'], 'max-it': ['max-it', 'max it', 'max_it'],
         'max-time': ['max-time', 'max time', 'max_time'],
         'energy-stagnation': ['energy-stagnation', 'energy stagnation', 'energy_stagnation']}
KEY = {'energy-tol': 'energy_tol', 'diff-tol': 'diff_tol', 'max-eval': 'max_eval', 'max-it': 'max_it', 'max-time': 'max_time'}


def spec(c):
    """['max-it', 3] -> the dictionary form."""
    if c[0] == 'energy-stagnation':
        return dict(name=c[0], patience=c[1], std_thresh=c[2])
    return {'name': c[0], KEY[c[0]]: c[1]}


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    kinds = [dict(kind='CBO'), dict(kind='CBOMemory'), dict(kind='PSO'), dict(kind='PolarCBO'), dict(kind='AdamCBO'), dict(kind='CBS'),
             dict(kind='CBO', corr='heavi_side'), dict(kind='MirrorCBO', map='ProjectionBall'), dict(kind='CBO', d=[2, 2]),
             dict(kind='DriftConstrainedCBO', cons='plane', eps=0.3), dict(kind='RegCombinationCBO', cons='plane', eps=0.7),
             dict(kind='HyperSurfaceCBO')]
    # each criterion over thresholds around what happens, on smooth objectives
    for k in kinds:
        bts = [None] if dyns.unbatched(k) else list(dyns.batches(3, partial_only=dyns.partial_only(k)))
        for i, b in enumerate(bts):
            if i % 3 and not th:
                continue
            s = dict(dict(d=2), **k)
            s = dict(s, M=2, N=3, batch=b, alpha=[0.7, 20.])
            for c in ([['max-it', n] for n in (0, 1, 3)] + [['max-it', None]] + [['max-time', t] for t in (0.1, 0.25, 0.3)]
                      + [['max-eval', n] for n in range(2, 15)] + [['energy-tol', t] for t in (0.2, 0.5, 1., 2.)]
                      + [['diff-tol', t] for t in (0.02, 0.1, 0.2, 0.5)]
                      + [['energy-stagnation', p, t] for p in (1, 2, 3) for t in (0.02, 0.1, 1.)]):
                if i and c[0] in ('max-it', 'max-time', 'energy-tol') and not th:
                    continue
                out.append(dict(s, crits=[c], steps=5))
    # pairs, in both orders
    cs = [['max-it', 2], ['max-time', 0.25], ['max-eval', 9], ['max-eval', 11], ['energy-tol', 0.5], ['diff-tol', 0.1], ['energy-stagnation', 2, 0.1]]
    for k in kinds[:4 if not th else None]:
        for a, b in itertools.permutations(cs, 2):
            out.append(dict(dict(d=2), **k, M=3, N=2, alpha=[0.7, 6., 50.], crits=[a, b], steps=6))
    for k in kinds[:4 if not th else None]:
        for c in [['max-it', n] for n in (1, 2, 3, 4)] + [['max-time', t] for t in (0.1, 0.2, 0.35)] + [['max-eval', n] for n in (8, 12, 13)] + [['energy-tol', 0.5], ['diff-tol', 0.1]]:
            out.append(dict(dict(d=2), **k, M=2, N=3, alpha=[0.7, 6.], crits=[c], steps=5, skip=1))
    # longer runs with more particles and runs
    for i, k in enumerate(kinds):
        bts = [None] if dyns.unbatched(k) else [None, dict(size=4, partial=dyns.partial_only(k) or i % 2 == 0)]
        s = dict(dict(d=2), **k, M=4, N=9, alpha=[.5, 4., 20., 1.3], dev=1)
        for b in bts:
            for cr in ([['max-it', 17]], [['max-time', 1.5]], [['max-eval', 100 if b is None else 50]], [['energy-tol', .2]], [['diff-tol', .03]],
                       [['energy-stagnation', 7, .05]], [['energy-stagnation', 12, .01], ['diff-tol', .02]], [['max-eval', 70], ['energy-tol', .3]]):
                out.append(dict(s, batch=b, crits=cr, steps=20))
            out.append(dict(s, batch=b, crits=[['energy-tol', .3], ['max-it', 15]], steps=18, skip=1))
    # all histories of energies around the tolerance
    for k in kinds[:4]:
        out.append(dict(k, d=1, M=1, N=2, alpha=2., crits=[['energy-tol', 1.]], lazy=[2., 1., 0.], steps=3, budget=6))
        out.append(dict(k, d=1, M=2, N=1, alpha=2., crits=[['energy-tol', 0.]], lazy=[0.5, -1., 0.], steps=2, budget=4))
        for p in (1, 2, 3):
            for t in (0., 0.4, 0.6):
                out.append(dict(k, d=1, M=1, N=1 if k['kind'] != 'PolarCBO' else 2, alpha=2., crits=[['energy-stagnation', p, t]],
                                lazy=[0., 1.], steps=p + 2, budget=2 * p + 3, double=p == 2, noise='constant'))
    out.append(dict(kind='CBO', d=1, M=2, N=1, alpha=2., crits=[['energy-stagnation', 2, 0.4]], lazy=[0., 1., 3.], steps=4, budget=5, noise='constant', rst=3))
    # forms
    for name, fs in FORMS.items():
        for i in range(len(fs)):
            out.append(dict(kind='CBO', M=2, N=2, d=2, form=name, spelling=i))
    return dyns.magnify(out)


class Spy:
    def __init__(self, c, real, S, steps):
        self.c, self.real, self.S = c, real, S
        self.hist = None

    def __call__(self, dyn):
        c, S, M = self.c, self.S, self.S.M
        if c[0] == 'max-it':
            want = [c[1] is not None and self.S.count >= c[1]] * M
        elif c[0] == 'max-time':
            t = 0.
            for _ in range(S.count):
                t += S.dt
            want = [t >= c[1]] * M
        elif c[0] == 'max-eval':
            want = [int(dyn.num_f_eval[m]) + S.batch > c[1] for m in range(M)]
        elif c[0] == 'energy-tol':
            want = [S.count > 0 and float(env.as_np(dyn.energy)[m].min()) < c[1] for m in range(M)]
        elif c[0] == 'diff-tol':
            want = [S.count > 0 and float(np.sqrt(((S.x1[m] - S.x0[m]) ** 2).sum())) / S.N < c[1] for m in range(M)]
        pre = [m for m in np.asarray(dyn.active_runs_idx)]
        got = env.as_np(self.real(dyn))
        need(got.shape == (M,), 'criterion %s returns shape %s' % (c, got.shape))
        if c[0] == 'energy-stagnation':
            if self.hist is None or S.count == 0:
                self.hist, self.at = [[] for _ in range(M)], 0
            if S.count > self.at:
                self.at = S.count
                for a, m in enumerate(pre):
                    pts = env.as_np(dyn.consensus)[a]
                    self.hist[m].append(float(np.mean([S.value2(p) for p in pts])))
            p = c[1]
            want = []
            for m in range(M):
                h = self.hist[m][-p:]
                if len(self.hist[m]) < p:
                    want.append(False)
                    continue
                mu = math.fsum(h) / p
                sd = math.sqrt(math.fsum((v - mu) ** 2 for v in h) / p)
                want.append(bool(got[m]) if abs(sd - c[2]) < 1e-9 and sd > 1e-12 else sd < c[2])
        need(got.astype(bool).tolist() == want, 'criterion %s after %d steps says %s, its condition is %s' % (c, S.count, got.tolist(), want))
        self.last = want
        return got


def session(sc, ch, ctx, lazy, terms):
    S = lock.Session(sc, ch, ctx, lazy=lazy, term_criteria=terms)
    S.count, S.dt = 0, float(dyns.params(sc)['dt'])
    S.batch = min(sc['batch']['size'], S.N) if sc.get('batch') else S.N
    S.pat = 'gen'
    S.value2 = lambda p: S.value(p) + reg(sc, p)
    step = S.dyn.step

    def counted():
        S.n0 = len(S.noise.calls)
        S.x0 = np.array(env.as_np(S.dyn.x))
        step()
        S.x1 = np.array(env.as_np(S.dyn.x))
        S.count += 1
        S.k += 1
        ctx.step()
        ctx.state(sc['kind'], env.public(env.snap(S.dyn)))
    S.dyn.step = counted
    return S


def reg(sc, p):
    from .c01 import extra
    return extra(sc, p) if sc['kind'] == 'RegCombinationCBO' else 0.


def run(sc, ch, ctx):
    if 'form' in sc:
        return forms(sc, ch, ctx)
    from cbx.utils.termination import select_term
    lazy = env.Lazy(ch, sc['lazy'], budget=sc['budget']) if 'lazy' in sc else None
    spies = []
    stop = dict(name='max-it', max_it=sc['steps'])
    for c in sc['crits']:
        spies.append(Spy(c, select_term(spec(c)), None, 0))
    S = session(sc, ch, ctx, lazy, spies + [select_term(stop)])
    for s in spies:
        s.S = S
    dyn = S.dyn
    term = dyn.terminate

    def checked():
        done = term()
        if sc.get('double'):
            done = term()
        met = [any(s.last[m] for s in spies) or S.count >= sc['steps'] for m in range(S.M)]
        need(np.asarray(dyn.active_runs_idx).tolist() == [m for m in range(S.M) if not met[m]], 'active runs %s, verdicts %s' % (dyn.active_runs_idx, met))
        need(bool(done) == all(met), 'terminate() reports %s for verdicts %s' % (done, met))
        S.met = met
        return done
    dyn.terminate = checked
    if sc.get('skip'):  # the user steps manually and checks now and then
        while not dyn.terminate():
            for _ in range(1 + ch.choose(3, 'steps before the next check')):
                dyn.step()
    else:
        dyn.optimize(sched=None) if sc['kind'] != 'CBS' else dyn.optimize()
    need(all(S.met), 'optimize() stopped although run(s) meet no criterion: %s' % S.met)
    need(int(dyn.it) == S.count <= sc['steps'] + (2 if sc.get('skip') else 0), 'optimize() made %d steps, it is %s' % (S.count, dyn.it))
    if sc.get('rst'):
        dyn.reset()
        S.count = 0
        dyn.optimize(sched=None)
        need(all(S.met), 'optimize() after reset stopped although a run meets no criterion')
    ctx.sample('%s -> %d steps' % (sc, S.count))


def forms(sc, ch, ctx):
    """Default thresholds, by the number of steps of a whole optimisation, for every way to name a criterion."""
    from cbx.utils import termination as T
    import cbx.dynamics as D
    name = sc['form']
    spelled = FORMS[name][sc['spelling']]
    cls = {'energy-tol': 'energy_tol_term', 'diff-tol': 'diff_tol_term', 'max-eval': 'max_eval_term', 'max-it': 'max_it_term',
           'max-time': 'max_time_term', 'energy-stagnation': 'energy_stagnation_term'}[name]
    val = {'energy-tol': 0.75, 'diff-tol': 0.05, 'max-eval': 13, 'max-it': 4, 'max-time': 0.35}
    full = dict(patience=3, std_thresh=0.05) if name == 'energy-stagnation' else {KEY[name]: val[name]}
    if name == 'energy-tol':
        cases = [(lambda s: 5. - s, 6), (lambda s: 1.01e-7 if s < 3 else 0.99e-7, 4)]
    else:
        cases = [None]

    def go(term, x, f, **kw):
        log = []
        z = env.Noise(lambda k, size: np.zeros(size))
        dyn = D.CBO(f, x=x.copy(), f_dim='3D', sampler=z, verbosity=0, term_criteria=[term, dict(name='max-it', max_it=1500)], **kw)
        z.live = True
        dyn.optimize(sched=None)
        ctx.step(int(dyn.it))
        ctx.state(name, spelled, int(dyn.it))
        return int(dyn.it)
    x = env.generic((2, 2, 2), 4)
    for args in ({}, full):
        steps = []
        for term in ([spelled] if not args else []) + [dict(name=spelled, **args), getattr(T, cls)(**args)]:
            if name == 'max-it':
                n, want = go(term, x[:, :1], env.quad(1), dt=0.01), args.get('max_it', 1000)
            elif name == 'max-time':
                n, want = go(term, x, env.quad(1), dt=0.125), 80 if not args else 3
            elif name == 'max-eval':
                xx = env.generic((2, 100, 2), 4) if not args else x
                n, want = go(term, xx, env.quad(1), dt=0.01), 9 if not args else 5  # the shape check counts
            elif name == 'energy-tol':
                tol = args.get('energy_tol', 1e-7)
                count = [0]

                def f(q):
                    count[0] += 1
                    return np.full(q.shape[:2], tol * 1.01 if count[0] < 5 else tol * 0.99)
                n, want = go(term, x, f, dt=0.01), 4
            elif name == 'diff-tol':
                tol = args.get('diff_tol', 1e-7)
                # halves its distance every step: constant objective, lamda*dt = 1/2
                y = np.zeros((2, 2, 2))
                y[:, 0, 0], y[:, 1, 0] = tol * 8.1, -tol * 8.1
                # update norms: tol*8.1*sqrt(2)/2 / 2^k
                n = go(term, y, lambda q: np.zeros(q.shape[:2]), lamda=1., dt=0.5)
                want = 1
                while tol * 8.1 * math.sqrt(2) / 2 / 2 ** want >= tol:
                    want += 1
            else:
                p, t = args.get('patience', 20), args.get('std_thresh', 1e-9)
                count = [0]

                def g(q):
                    if q.shape[1] == 1:  # the consensus
                        count[0] += 1
                        return np.full(q.shape[:2], (count[0] % 2) * 3. * t * (count[0] <= 6))
                    return np.zeros(q.shape[:2])
                n, want = go(term, x, g, dt=0.01), None
                seq = [(c % 2) * 3. * t * (c <= 6) for c in range(1, 200)]
                want = next(k for k in range(p, 199) if np.std(seq[k - p:k]) < t)
            need(n == want, 'criterion %r stops after %d steps, expected %d' % (term, n, want))
            steps.append(n)
        if name == 'max-it':  # the criterion every dynamic has when none is given
            for kw in ({}, dict(term_criteria=None)) if not args else (dict(max_it=args['max_it']), dict(max_it=args['max_it'], term_criteria=None)):
                for cls_ in (D.CBO, D.PSO, D.CBS):
                    dyn = cls_(env.quad(1), x=x[:, :1].copy(), f_dim='3D', sampler=lambda size=None: np.zeros(size), verbosity=0, **kw)
                    dyn.optimize()
                    steps.append(int(dyn.it))
                    need(steps[-1] == want, '%s(%s) stops after %d steps, expected %d' % (cls_.__name__, kw, steps[-1], want))
        need(len(set(steps)) == 1, 'the forms of %s stop after %s steps' % (name, steps))
