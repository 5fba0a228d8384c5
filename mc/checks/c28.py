"""Regularised objectives against scalar formulas; every history of constraint violations through the penalty schedule."""
import itertools
import math

import numpy as np

import cbx.dynamics as D
import cbx.regularizers as R
from cbx.regularizers import regularization_paramter_scheduler, regularize_objective, select_reg_func
from cbx.scheduler import scheduler
from cbx.utils.objective_handling import cbx_objective_fh

from .. import env
from ..env import need, need_close, need_equal

CHUNK = 1
ID, LEVEL = 'C28', 'model_checking'
RULE = ('every regulariser in every way of selection on every lattice point and array shape; every regularised objective (penalty, per-run '
        'penalty, power) at every particle; every history of violations below, at and above the threshold of each run through the penalty schedule '
        'on a real dynamic, compared with a scalar model; real runs with the schedule')
BOUNDS = 'M<=3, N<=3; d<=4; histories of up to 5 schedule updates (7 thorough), per run; real runs of 6 steps; also M=5 with 16 updates (one deviation), M=4, N=9 with 30 steps, d=7 and 12'
ASSUMPTIONS = ['flat particles (regularisers reduce the last axis)', 'all runs active once penalties are per run (see known finding)']

L = [0., .5, -2., 1e-3, 300.]


def regs(d):
    g = env.generic((d,), 8, 2.)
    A = env.generic((d, d), 9)
    S = A @ A.T
    yield dict(name='L0'), lambda p: float(sum(abs(c) > 1e-8 for c in p))
    yield dict(name='L0', lamda=2.5), lambda p: 2.5 * sum(abs(c) > 1e-8 for c in p)
    yield dict(name='L1'), lambda p: sum(abs(c) for c in p)
    yield dict(name='L1', lamda=.3), lambda p: .3 * sum(abs(c) for c in p)
    yield dict(name='Plane'), lambda p: abs(sum(p)) / math.sqrt(d)
    yield dict(name='Plane', b=.7), lambda p: abs(sum(p) - .7) / math.sqrt(d)
    yield dict(name='Plane', a=-2., b=1.), lambda p: abs(-2. * sum(p) - 1.) / math.sqrt(4. * d)
    yield dict(name='Plane', a=g, b=-.4), lambda p: abs(sum(a * c for a, c in zip(g, p)) + .4) / math.sqrt(sum(a * a for a in g))
    yield dict(name='Sphere'), lambda p: abs(math.sqrt(sum(c * c for c in p)) - 1.)
    yield dict(name='Sphere', r=2.5), lambda p: abs(math.sqrt(sum(c * c for c in p)) - 2.5)
    for Q, b, c0 in ((A, g, -.3), (S, 0 * g, 1.), (np.eye(d), g, 0.), (np.triu(A), -g, -5.)):
        yield dict(name='Quadric', A=Q, b=b, c=c0), lambda p, Q=Q, b=b, c0=c0: abs(
            sum(p[i] * Q[i, j] * p[j] for i in range(d) for j in range(d)) + sum(b[i] * p[i] for i in range(d)) + c0)


def scenarios(tier):
    th = tier == 'thorough'
    out = [dict(fam='reg', d=d) for d in (1, 2, 3, 4, 7, 12)]
    for lam in ('scalar', 'runs', 'broadcast', 'flag'):
        out.append(dict(fam='obj', lam=lam))
    for rule in ('weighted', 'simple'):
        for M in (1, 2, 3):
            for cap in ('far', 'theta', 'lamda'):
                out.append(dict(fam='sched', rule=rule, M=M, cap=cap, depth={1: 5, 2: 2, 3: 2}[M] + (th and M < 3), d=2))
        for kind in ('CBO', 'PSO', 'CBOMemory', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'CBS'):
            out.append(dict(fam='real', rule=rule, M=2, kind=kind, via='optimize'))
            out.append(dict(fam='real', rule=rule, M=2, kind=kind, via='step'))
            out.append(dict(fam='real', rule=rule, M=4, N=9, its=30, kind=kind, via='optimize'))
        for cap in ('far', 'theta', 'lamda'):
            out.append(dict(fam='sched', rule=rule, M=5, N=9, cap=cap, depth=16, d=2, dev=1))
    out.append(dict(fam='fixed', M=3, kind='CBO'))
    out.append(dict(fam='terminated', M=2, kind='CBO'))
    return out


def known(sc, choices, err):
    if sc['fam'] == 'terminated':
        return 'C28-terminated-penalty'


def run(sc, ch, ctx):
    return dict(reg=reg, obj=obj, sched=sched, real=real, fixed=fixed, terminated=terminated)[sc['fam']](sc, ch, ctx)


def how(spec, ch):
    """The regulariser selected in one of the possible ways."""
    n = spec['name']
    kw = {k: v for k, v in spec.items() if k != 'name'}
    ways = ['dict', 'class'] + (['name'] if not kw else [])
    w = ch.pick(ways, 'selection')
    if w == 'dict':
        keep = dict(spec)
        f = select_reg_func(spec)
        need(list(spec) == list(keep), 'the given dictionary is changed')
        return w, f
    if w == 'name':
        return w, select_reg_func(n)
    cls = dict(L0=R.L0, L1=R.L1, Plane=R.HyperplaneDistance, Sphere=R.SphereDistance, Quadric=R.QuadricDistance)[n]
    o = cls(**kw)
    got = select_reg_func(o)
    need(got is o, 'a given object is replaced')
    return w, got


def reg(sc, ch, ctx):
    d = sc['d']
    spec, want = ch.pick(list(regs(d)), 'regulariser')
    w, f = how(spec, ch)
    pts = [list(p) for p in itertools.product(L if d < 4 else L[:3], repeat=d)] if d < 5 else [[L[(i * k + k // 5) % 5] for i in range(d)] for k in range(60)]
    pts += [list(env.generic((d,), k, 3.)) for k in range(9)] + [[1e-12] * d, [1.] * d, [-1.] * d, [1e-300] * d]
    ref = np.array([want(p) for p in pts])
    X = np.array(pts)
    n = len(pts)
    for sh in [(n,), (1, n), (n, 1)] + ([(n // 4, 4)] if n >= 4 else []) + ([(2, n // 4, 2)] if n >= 4 else []):
        k = int(np.prod(sh))
        for lay in ('c', 'f'):
            x = X[:k].reshape(sh + (d,))
            x = np.asfortranarray(x) if lay == 'f' else x
            keep = x.copy()
            got = f(x)
            need_close('%s %s of d=%d, shape %s' % (spec['name'], w, d, sh), got, ref[:k].reshape(sh), rtol=1e-9, atol=1e-12)
            need_equal('argument of %s' % spec['name'], x, keep)
    for i in range(min(n, 40)):
        need_close('%s of a single particle' % spec['name'], np.array(f(X[i])), ref[i], rtol=1e-9, atol=1e-12)
    ctx.case((spec['name'], w, d, len(spec)))


def obj(sc, ch, ctx):
    d, N = 2, 3
    spec, want = ch.pick(list(regs(d)), 'regulariser')
    p = ch.pick([1, 2, 3, .5], 'p')
    M = ch.pick([1, 2, 3, 5], 'M')
    lam = sc['lam']
    base = env.quad(1)
    f = cbx_objective_fh(lambda x: base(x))
    per = np.array([.5, 3., 20., 7., 1.1])[:M]
    if lam == 'runs':
        o = regularize_objective(f, spec, lamda=per[:, None].copy(), p=p)
    elif lam == 'flag':
        o = regularize_objective(f, spec, lamda=per[:, None].copy(), lamda_broadcasted=True, p=p)
    else:
        per = np.full(M, ch.pick([1., 0., 7.5], 'lamda'))
        o = regularize_objective(f, spec, lamda=float(per[0]), p=p)
    x = np.concatenate([env.generic((M, N - 1, d), 3, 2.), np.zeros((M, 1, d))], axis=1)
    if lam == 'broadcast':
        o.broadcast_lamda(x)
        o.broadcast_lamda(x)
        need_close('broadcast penalty', o.lamda, per[:, None], rtol=0, atol=0)
    if lam == 'flag':
        o.broadcast_lamda(x)
    ref = np.array([[base(x[m, n][None, None])[0, 0] + per[m] * want(list(x[m, n])) ** p for n in range(N)] for m in range(M)])
    before = f.num_eval
    need_close('objective + penalty * %s ** %s, M=%d, %s' % (spec['name'], p, M, lam), o(x), ref, rtol=1e-9, atol=1e-12)
    need(f.num_eval - before == M * N and o.num_eval == f.num_eval, 'counter of the objective: %s of %s' % (o.num_eval, f.num_eval))
    # inside a dynamic
    z = env.Noise()
    dyn = D.CBO(o, x=x, f_dim='3D', sampler=z, verbosity=0, check_f_dims=False)
    z.live = True
    dyn.step()
    need_close('energies of the dynamic', dyn.energy, ref, rtol=1e-9, atol=1e-12)
    ctx.case((lam, spec['name'], p, M))
    if len(ctx.samples) < 3:
        ctx.sample('%s p=%s M=%d %s' % (spec['name'], p, M, lam))


class Model:
    def __init__(self, M, theta, theta_max, ft, lam, fl, lamda_max):
        self.theta, self.lam = [theta] * M, [lam] * M
        self.tm, self.ft, self.fl, self.lm = theta_max, ft, fl, lamda_max

    def update(self, means):
        for m, v in enumerate(means):
            if v <= 1 / math.sqrt(self.theta[m]):
                self.theta[m] = min(self.theta[m] * self.ft, self.tm)
            else:
                self.theta[m] /= self.ft
                self.lam[m] *= self.fl
            self.lam[m] = min(self.lam[m], self.lm)


def means(rule, x, want, alpha, lam, base, p=1):
    out = []
    for m in range(len(x)):
        r = [want(list(q)) for q in x[m]]
        if rule == 'simple':
            out.append(sum(r) / len(r))
            continue
        E = [float(base(q[None, None])[0, 0]) + lam[m] * v ** p for q, v in zip(x[m], r)]
        e0 = min(E)
        w = [math.exp(-alpha[m] * (e - e0)) for e in E]
        out.append(sum(a * b for a, b in zip(w, r)) / sum(w))
    return out


def sched(sc, ch, ctx):
    M, N = sc['M'], sc.get('N', 2)
    p = ch.pick([1, 2], 'p') if sc['depth'] != 5 else 1
    base = env.quad(1)
    o = regularize_objective(base, dict(name='Plane', a=np.array([1., 0.]), b=0.), lamda=2., p=p)
    alpha = np.array([.7, 3., 40., 1.1, 9.])[:M]
    x = env.generic((M, N, 2), 3)
    z = env.Noise()
    dyn = D.CBO(o, x=x, f_dim='3D', sampler=z, verbosity=0, alpha=alpha[:, None].copy(), dt=.25, sigma=.5)
    z.live = True
    dyn.step()
    cap = sc['cap']
    kw = dict(theta=1., factor_theta=4., factor_lamda=3., theta_max=16. if cap == 'theta' else 1e5, lamda_max=10. if cap == 'lamda' else 1e15)
    s = regularization_paramter_scheduler(rule_mean=sc['rule'], **kw)
    mod = Model(M, 1., kw['theta_max'], 4., 2., 3., kw['lamda_max'])
    letters = [0., .5, 1., 1.5, 'mixed']
    for k in range(sc['depth']):
        a = [ch.pick(letters if M < 3 else letters[1:4:2] + ['mixed'], 'violation of run %d' % m) for m in range(M)]
        for m in range(M):
            thr = 1 / math.sqrt(mod.theta[m])
            v = (([2.5 * thr, .1 * thr] if a[m] == 'mixed' else [a[m] * thr, -a[m] * thr]) * N)[:N]
            dyn.x[m, :, 0] = v
        pre = env.snap(dyn)
        mu = means(sc['rule'], np.array(dyn.x), lambda q: abs(q[0]), alpha, mod.lam, base, p)
        mod.update(mu)
        s.update(dyn)
        tag = '%s rule, violations %s, update %d: ' % (sc['rule'], a, k + 1)
        need_close(tag + 'theta', np.asarray(s.theta), np.array(mod.theta), rtol=1e-10)
        need_close(tag + 'penalty', np.asarray(o.lamda), np.array(mod.lam)[:, None], rtol=1e-10)
        need(np.max(s.theta) <= kw['theta_max'] and np.max(o.lamda) <= kw['lamda_max'], tag + 'exceeds its maximum')
        post = env.snap(dyn)
        for key in pre:
            if key != 'num_f_eval' and pre[key] is not None:
                need_equal(tag + key, post[key], pre[key])
        E = o(dyn.x)
        for m in range(M):
            for n in range(N):
                q = dyn.x[m, n]
                need_close(tag + 'objective', np.array(E[m, n]), float(base(q[None, None])[0, 0]) + mod.lam[m] * abs(q[0]) ** p, rtol=1e-10)
        ctx.step()
        ctx.state(sc['rule'], cap, p, mod.theta, mod.lam)
    if len(ctx.samples) < 3:
        ctx.sample('%s rule: theta %s, penalty %s' % (sc['rule'], mod.theta, mod.lam))


class Log:
    def __init__(self, f):
        self.f = f

    def update(self, dyn):
        self.f(dyn)


def build(sc, o, M):
    z = env.Noise(lambda k, size: env.generic(size, 40 + k, .7))
    kw = dict(x=env.generic((M, sc.get('N', 3), 2), 3), f_dim='3D', sampler=z, verbosity=0, dt=.1, max_it=sc.get('its', 6))
    alpha = np.array([.7, 3., 40., 1.1])[:M]
    kw['alpha'] = alpha[:, None].copy()
    dyn = getattr(D, sc['kind'])(o, **kw)
    z.live = True
    return dyn, alpha


def real(sc, ch, ctx):
    """A real run: the schedule sees the particles after each step."""
    M = sc['M']
    spec, want = ch.pick([r for r in regs(2) if r[0]['name'] != 'L0' and len(r[0]) > 1], 'regulariser')
    p = ch.pick([1, 2], 'p')
    base = env.quad(1)
    o = regularize_objective(base, spec, lamda=1.5, p=p)
    dyn, alpha = build(sc, o, M)
    s = regularization_paramter_scheduler(rule_mean=sc['rule'], theta=2., factor_theta=1.7, factor_lamda=2.2, theta_max=9., lamda_max=30.)
    mod = Model(M, 2., 9., 1.7, 1.5, 2.2, 30.)
    state = dict(near=False)

    def before(dyn):
        mu = means(sc['rule'], np.array(dyn.x), want, alpha, mod.lam, base, p)
        if any(abs(v - 1 / math.sqrt(t)) < 1e-7 for v, t in zip(mu, mod.theta)):
            state['near'] = True
        mod.update(mu)

    def after(dyn):
        if not state['near']:
            need_close('%s it %d: theta' % (sc['kind'], dyn.it), np.asarray(s.theta), np.array(mod.theta), rtol=1e-8)
            need_close('%s it %d: penalty' % (sc['kind'], dyn.it), np.asarray(o.lamda), np.array(mod.lam)[:, None], rtol=1e-8)
        ctx.step()
        ctx.state(sc['kind'], sc['rule'], p, mod.theta, mod.lam)
    sch = scheduler([Log(before), s, Log(after)])
    if sc['via'] == 'optimize':
        dyn.optimize(sched=sch)
    else:
        for _ in range(6):
            need(not dyn.terminate(), 'terminated')
            dyn.step()
            sch.update(dyn)
    need(dyn.it == sc.get('its', 6), '%d iterations' % dyn.it)


def fixed(sc, ch, ctx):
    """A scalar penalty stays the same for every set of active runs."""
    o = regularize_objective(env.quad(1), 'Sphere', lamda=1.5, p=2)
    M = sc['M']
    sw = env.Switch(M)
    z = env.Noise(lambda k, size: env.generic(size, 40 + k, .7))
    dyn = D.CBO(o, x=env.generic((M, 3, 2), 3), f_dim='3D', sampler=z, verbosity=0, term_criteria=[sw])
    z.live = True
    for k in range(3):
        off = ch.pick([t for t in ([], [0], [1], [0, 2], [1, 2])], 'terminated')
        sw.mask[:] = False
        sw.mask[off] = True
        dyn.terminate()
        x = np.array(dyn.x)
        dyn.step()
        for m in set(range(M)) - set(off):
            for n in range(3):
                q = x[m, n]
                want = float(env.quad(1)(q[None, None])[0, 0]) + 1.5 * abs(math.hypot(*q) - 1) ** 2
                need_close('energy of run %d' % m, np.array(dyn.energy[m, n]), want)
        ctx.step()
        ctx.state('fixed', env.public(env.snap(dyn)))


def terminated(sc, ch, ctx):
    """Penalties of the runs that are still active, after another run has ended."""
    M = sc['M']
    o = regularize_objective(env.quad(1), 'Sphere', lamda=np.array([[1.], [5.]]), p=1, lamda_broadcasted=True)
    sw = env.Switch(M)
    z = env.Noise(lambda k, size: env.generic(size, 40 + k, .7))
    dyn = D.CBO(o, x=env.generic((M, 3, 2), 3), f_dim='3D', sampler=z, verbosity=0, term_criteria=[sw])
    z.live = True
    dyn.terminate()
    dyn.step()
    off = ch.choose(2, 'terminated')
    sw.mask[off] = True
    dyn.terminate()
    m = 1 - off
    x = np.array(dyn.x)
    dyn.step()
    for n in range(3):
        q = x[m, n]
        want = float(env.quad(1)(q[None, None])[0, 0]) + [1., 5.][m] * abs(math.hypot(*q) - 1)
        need_close('energy of run %d' % m, np.array(dyn.energy[m, n]), want)
    ctx.step()
    ctx.state('terminated', off)
