"""Schedulers: once per iteration, in order, per run, within bounds; the effective-sample-size rule solves its equation."""
import itertools
import math

import numpy as np

from cbx.scheduler import effective_sample_size, multiply, param_update, scheduler

from .. import dyns, env
from ..env import need, need_close, need_equal

ID, LEVEL = 'C20', 'model_checking'
RULE = ('every list of up to 3 multiplicative updates over an alphabet x parameter forms x iterations split into optimize() calls; '
        'every energy vector over an alphabet x eta x resolution for the effective-sample-size rule (numpy and torch), alone and '
        'combined with every other run; every dynamic x schedule argument of optimize()')
BOUNDS = 'lists of <=3 updates, 5 iterations; N<=4 energies over 6 letters, M<=2; eta in .3,.5,.75,1,0.05; schedules over 24 iterations; up to 64 particles with patterned energies; optimisations of 18 steps with M=4, N=9'
ASSUMPTIONS = ['energies are finite in the effective-sample-size rule']

UPD = [('alpha', 1.5, None), ('alpha', 2., 5.), ('sigma', 0.5, None), ('lamda', 3., 4.), ('alpha', 1., 2.5), ('dt', 0.5, 0.3), ('sigma', 4., 1.)]
ENER = [0., 1., 1e-3, 40., -3., 1e6]


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        for lst in itertools.product(range(len(UPD)), repeat=n):
            if n == 3 and (len(set(lst)) < 3 or not th and sum(lst) % 3):
                continue
            out.append(dict(fam='mult', upd=lst, form=('scalar', 'runs', 'row')[sum(lst) % 3], its=5 if n < 3 else 3))
    for form in ('scalar', 'runs', 'row'):
        for u in range(len(UPD)):
            out.append(dict(fam='mult', upd=[u], form=form, its=6))
    for i, lst in enumerate(([0], [1], [4, 2], [5, 3], [0, 2, 6], [3, 5, 1, 0])):  # long schedules
        for form in ('scalar', 'runs', 'row'):
            out.append(dict(fam='mult', upd=lst, form=form, its=24, dev=1))
    for backend in ('numpy', 'torch'):  # many particles
        for N, eta in ((5, .3), (7, .75), (12, .5), (20, .05), (20, .5), (64, .9), (33, .5)):
                for mx, mit in ((1e5, 40), (1e5, 15)) if eta == .5 else ((50., 30), (1e5, 15)):
                    out.append(dict(fam='ess', backend=backend, N=N, eta=eta, max=mx, its=mit, stride=20, big=1))
    for backend in ('numpy', 'torch'):
        for N in (2, 3) + ((4,) if th else ()):
            for eta in (0.5, 0.75, 0.3, 1., 0.05):
                for mx, mit in ((1e5, 15), (100., 30), (1e5, 40), (2., 3)):
                    if not th and (mx == 100. and backend == 'torch' or eta in (0.3, 1.) and mit == 40 or N == 3 and mit == 40 and eta != .75):
                        continue
                    out.append(dict(fam='ess', backend=backend, N=N, eta=eta, max=mx, its=mit, stride=37 if th or N == 2 else 150))
    for k in [dict(kind=q) for q in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO',
                                     'RegCombinationCBO', 'CBS')]:
        if k['kind'] in ('RegCombinationCBO', 'DriftConstrainedCBO'):
            k['cons'] = 'plane'
        for sched in ('default', None, 'effective', 'given', 'omitted'):
            for a in (2., [0.5, 3.], 99000.):
                if k['kind'] == 'CBS' and sched == 'effective':
                    continue
                out.append(dict(k, fam='opt', sched=sched, alpha=a, M=2, N=4, d=2, batch=None if k['kind'] == 'CBS' else dict(size=3, partial=True), its=4))
                if a == 2. and (sched != 'given' or k['kind'] != 'CBS'):
                    out.append(dict(k, fam='opt', sched=sched, alpha=[.5, 4., 20., 1.3], M=4, N=9, d=5 if 'cons' not in k and k['kind'] not in ('MirrorCBO',) else 2, batch=None if k['kind'] == 'CBS' else dict(size=5, partial=True), its=18))
                if a == 2.:
                    out.append(dict(k, fam='opt', sched=sched, alpha=a, M=2, N=4, d=2, its=4, term=1))
    return out


class Probe(param_update):
    def __init__(self, names):
        super().__init__(name='alpha')
        self.names, self.log = names, []

    def update(self, dyn):
        self.log.append({n: np.array(getattr(dyn, n), dtype=float) for n in self.names} | {'it': dyn.it})


def params(form, M):
    p = dict(alpha=2., sigma=0.6, lamda=1., dt=0.1)
    if form == 'runs':
        p['alpha'] = np.arange(1., M + 1)[:, None] * 1.3
    if form == 'row':
        p['alpha'] = np.arange(1., M + 1)[:, None] * 0.7
        p['sigma'] = np.arange(1., M + 1)[:, None, None] * 0.2
        p['lamda'] = np.arange(1., M + 1)[:, None, None] * 1.1
    return p


def mult(sc, ch, ctx):
    M = 3
    p = params(sc['form'], M)
    keep = {k: np.array(v) for k, v in p.items()}
    names = ['alpha', 'sigma', 'lamda', 'dt']
    probe = Probe(names)
    sch = scheduler([multiply(name=UPD[u][0], factor=UPD[u][1], **({} if UPD[u][2] is None else dict(maximum=UPD[u][2]))) for u in sc['upd']] + [probe])
    from cbx.dynamics import CBO
    dyn = CBO(env.quad(1), f_dim='3D', x=env.generic((M, 3, 1), 2), term_criteria=[env.Switch(M)], verbosity=0, sampler=env.Noise(), **p)
    model = {k: np.array(getattr(dyn, k), dtype=float) for k in names}
    total = 0
    while total < sc['its']:
        n = 1 + ch.choose(min(3, sc['its'] - total), 'chunk')
        stop = [n]

        def crit(d):
            stop[0] -= 1
            return np.full(M, stop[0] < 0)
        dyn.term_criteria = [crit]
        dyn.optimize(sched=sch)
        for i in range(n):
            for u in sc['upd']:
                name, fac, mx = UPD[u]
                model[name] = np.minimum(1e5 if mx is None else mx, fac * model[name])
            total += 1
            need(len(probe.log) >= total, 'the schedule is applied %d times in %d iterations' % (len(probe.log), total))
            for k in names:
                need_close('%s after iteration %d' % (k, total), probe.log[total - 1][k], model[k], rtol=1e-12)
            need(probe.log[total - 1]['it'] == total, 'the schedule of iteration %d is applied at it=%d' % (total, probe.log[total - 1]['it']))
        need(len(probe.log) == total, 'the schedule is applied %d times in %d iterations' % (len(probe.log), total))
        ctx.step(n)
        ctx.state(sc['upd'], total, [model[k] for k in names])
    for k, v in keep.items():
        need_equal('the %s given by the user' % k, np.array(p[k]), v)
    ctx.sample('updates %s -> %s' % ([UPD[u] for u in sc['upd']], {k: model[k].ravel().tolist() for k in names}))


def jeff(alpha, E):
    w = [math.exp(-alpha * (e - min(E))) for e in E]
    return sum(w) ** 2 / sum(v * v for v in w)


class Dyn:
    pass


def ess_ok(alpha, E, eta, mx, its, what, slack=1e-6):
    mn, N = 1e-5, len(E)
    need(mn * (1 - slack) <= alpha <= mx * (1 + slack), '%s: alpha %r leaves [%g, %g]' % (what, alpha, mn, mx))
    if abs(jeff(alpha, E) - eta * N) <= 1.0001e-2:
        return
    res = (mx - mn) / 2 ** its * (1 + 1e-6) + slack * alpha
    lo, hi = alpha - res, alpha + res
    need(lo <= mn * (1 + slack) or jeff(lo, E) >= eta * N - 1e-9, '%s: alpha %r is too large for energies %s (effective size %r, wanted %r)' % (
        what, alpha, E, jeff(alpha, E), eta * N))
    need(hi >= mx * (1 - slack) or jeff(hi, E) <= eta * N + 1e-9, '%s: alpha %r is too small for energies %s (effective size %r, wanted %r)' % (
        what, alpha, E, jeff(alpha, E), eta * N))


def patterns(N):
    out = []
    for unit, off in itertools.product((1., 1e-3, 40., 1e4), (0., -3., 1e3)):
        for kind in ('ramp', 'one', 'half', 'spread', 'noise'):
            e = {'ramp': lambda i: i, 'one': lambda i: int(i == N // 3), 'half': lambda i: i % 2, 'spread': lambda i: 3. ** -i,
                 'noise': lambda i: ((i + 1) * 0.6180339887498949) % 1}[kind]
            out.append(tuple(off + unit * e(i) for i in range(N)))
    return out


def ess(sc, ch, ctx):
    N, eta, mx, its = sc['N'], sc['eta'], sc['max'], sc['its']
    if sc['backend'] == 'torch':
        import torch
        from cbx.utils.torch_utils import effective_sample_size as ESS
    else:
        ESS = effective_sample_size
    alone = {}
    vecs = patterns(N) if sc.get('big') else list(itertools.product(ENER, repeat=N))

    def solve(rows):
        d = Dyn()
        d.M, d.N = len(rows), N
        d.energy = np.array(rows)
        d.x = np.zeros((d.M, N, 1))
        d.alpha = np.ones((d.M, 1))
        if sc['backend'] == 'torch':
            d.x, d.alpha = torch.zeros((d.M, N, 1), dtype=torch.float64), torch.ones((d.M, 1), dtype=torch.float64)
        keep = d.energy.copy()
        s = ESS(eta=eta, maximum=mx, solve_max_it=its)
        s.update(d)
        need_equal('energies after the schedule', d.energy, keep)
        a = env.as_np(d.alpha)
        need(a.shape == (d.M, 1), 'alpha has shape %s' % (a.shape,))
        return a[:, 0]
    for v in vecs:
        a = float(solve([v])[0])
        ess_ok(a, v, eta, mx, its, 'eta %g' % eta)
        alone[v] = a
        ctx.step()
        ctx.state(sc['backend'], eta, v, a)
    for i, v in enumerate(vecs):  # every vector beside others
        for w in vecs[i % 7::sc['stride']]:
            a = solve([v, w])
            need(np.allclose(a, [alone[v], alone[w]], rtol=1e-9), 'alpha of runs %s, %s together is %s, alone %s' % (v, w, a, [alone[v], alone[w]]))
            ctx.step()


def opt(sc, ch, ctx):
    M, its = sc['M'], sc['its']
    z = env.Noise(lambda k, size: env.generic(size, 40 + k))
    T = [sc.get('term')]

    def crit(d):
        if T[0]:
            return np.array([d.it >= 2, d.it >= its])
        return np.full(M, d.it >= its)
    tracks = dict(names=['alpha', 'energy'])
    dyn = dyns.build(sc, env.quad(1), x=dyns.x0(sc), sampler=z, term_criteria=[crit], track_args=tracks)
    z.live = True
    a0 = np.array(dyn.alpha)
    need(a0.shape == (M, 1), 'alpha has shape %s' % (a0.shape,))
    s = sc['sched']
    if s == 'given':
        dyn.optimize(sched=scheduler([multiply(factor=1.5, maximum=7.), multiply(name='dt', factor=.5)]))
    elif s == 'omitted':
        dyn.optimize()
    else:
        dyn.optimize(sched=s)
    need(dyn.it == its, 'optimize performed %d iterations instead of %d' % (dyn.it, its))
    al = [np.array(a) for a in dyn.history['alpha']] + [np.array(dyn.alpha)]
    need(len(al) == its + 1, '%d recorded alphas' % len(al))
    need_equal('alpha in the first step', al[0], a0)
    for i in range(its):
        if s in ('default', 'omitted') and sc['kind'] != 'CBS':
            need_close('alpha after iteration %d' % (i + 1), al[i + 1], np.minimum(1e5, 1.05 * al[i]), rtol=1e-12)
        elif s == 'given':
            need_close('alpha after iteration %d' % (i + 1), al[i + 1], np.minimum(7., 1.5 * al[i]), rtol=1e-12)
        elif s == 'effective':
            for m in range(M):
                E = dyn.history['energy'][i][m].tolist()
                if np.all(np.isfinite(E)):
                    ess_ok(float(al[i + 1][m, 0]), E, .5, 1e5, 15, 'run %d iteration %d' % (m, i + 1))
        else:
            need_equal('alpha after iteration %d' % (i + 1), al[i + 1], al[i])
    if s == 'given':
        need_close('dt', np.asarray(dyn.dt), np.asarray(0.1 * .5 ** its))
    ctx.step(its)
    ctx.state(sc['kind'], s, al)


def run(sc, ch, ctx):
    {'mult': mult, 'ess': ess, 'opt': opt}[sc['fam']](sc, ch, ctx)
