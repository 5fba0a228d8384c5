"""Best-so-far tracking, for every small history of objective answers."""
import itertools
import math

import numpy as np

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

ID, LEVEL = 'C13', 'model_checking'
RULE = ('lattice: every dynamic x batch x shape x correction; choices: the objective value of every evaluated point (ties, '
        'negative, infinite), terminated runs per step; whole repeated optimisations')
BOUNDS = 'M<=3, N<=3, shapes (1),(2),(2,2); 3 steps; 3-letter energies with 5-7 free answers, smooth objectives beyond; copies with M=4, N=9, 12 steps and at most one deviation'
ASSUMPTIONS = ['evaluations at consensus points (corrections, criteria) are not evaluations of particles',
               'runs whose selected energies are all infinite have no consensus and are not continued']

BASE = [dict(kind='CBO'), dict(kind='CBO', corr='heavi_side'), dict(kind='CBOMemory'), dict(kind='CBOMemory', corr='heavi_side_reg', correction_eps=.5),
        dict(kind='PSO', m=0.2), dict(kind='AdamCBO'), dict(kind='CBS'), dict(kind='PolarCBO'), dict(kind='PolarCBO', corr='heavi_side'),
        dict(kind='MirrorCBO'), dict(kind='MirrorCBO', map='ProjectionBall'), dict(kind='HyperSurfaceCBO'),
        dict(kind='DriftConstrainedCBO', cons='plane', eps=0.3), dict(kind='DriftConstrainedCBO', cons='none', eps_indep=0.5, sigma_indep=0.4),
        dict(kind='RegCombinationCBO', cons='plane', eps=0.7, nu=0.5), dict(kind='base')]


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for b in BASE:
        for d in (2, 1, [2, 2]):
            if isinstance(d, list) and b['kind'] != 'base' and dyns.flat_only(b):
                continue
            if d == 1 and b['kind'] == 'HyperSurfaceCBO':
                continue
            bts = [None] if b['kind'] in ('CBS', 'base') else list(dyns.batches(3, partial_only=dyns.partial_only(b)))
            for alph in ([1., 0., 2.], [0., -1., 'inf'], [2., 2., 1.]):
                if (d != 2 and alph[0] != 1.) or ('inf' in alph and b.get('corr') == 'heavi_side_reg'):
                    continue
                for i, bt in enumerate(bts):
                    if bt is None:
                        out.append(dict(b, M=1, N=2, d=d, alpha=1., lazy=alph, steps=3, budget=6 if th else 5))
                    elif d == 2 and alph[0] != 2.:
                        out.append(dict(b, M=1, N=3, d=d, alpha=1., lazy=alph, batch=bt, steps=3, budget=6 if th else 4))
            out.append(dict(b, M=2, N=2, d=d, alpha=1., lazy=[1., 0.], steps=3, budget=6 if th else 4, act=1))
            if d == 2:
                out.append(dict(b, M=1, N=2, d=d, alpha=1., lazy=[1e-12, 0.999e-12, 1.001e-12], steps=3, budget=5))
                out.append(dict(b, M=1, N=2, d=d, alpha=1., lazy=[1., 1. - 1e-13, 1. + 1e-13], steps=3, budget=4))
                out.append(dict(b, M=1, N=2, d=d, alpha=1., lazy=[2., 0.25, -0.5], ints=1, steps=3, budget=5))
        for d in (2, [2, 2]) if b['kind'] == 'base' or not dyns.flat_only(b) else (2,):
            for bt in [None] if b['kind'] in ('CBS', 'base') else dyns.batches(3, partial_only=dyns.partial_only(b)):
                out.append(dict(b, M=3, N=3, d=d, alpha=[0.7, 6., 50.], batch=bt, steps=3, act=1))
                out.append(dict(b, M=2, N=3, d=d, alpha=[0.7, 6.], batch=bt, opt=[2, 3, 1]))
    return dyns.stretch(dyns.magnify(out), key='steps')


def base_dynamic(sc, f, x, z, switch):
    """A user's dynamic on the public base class: random walk."""
    from cbx.dynamics.pdyn import ParticleDynamic

    class Walk(ParticleDynamic):
        def inner_step(self):
            a = self.active_runs_idx
            self.energy[a] = self.f(self.x[a])
            self.num_f_eval[a] += self.N
            self.x[a] += 0.5 * self.sampler(size=self.x[a].shape)
    return Walk(f, f_dim='3D', x=x, sampler=z, term_criteria=[switch], verbosity=0)


class Base:
    pass


def regularised(sc, S, p):
    v = S.value(p)
    if sc['kind'] == 'RegCombinationCBO':
        v += sum(ref.con_val(k, p) ** 2 for k in env.constr(sc['cons'], len(p))) / sc.get('nu', 1)
    return v


def judge(sc, S, pts, post, prev, when):
    """pts[m] = all (position, value) obtained for particles of run m so far."""
    for m in range(S.M):
        if not pts[m]:
            continue
        lo = min(v for _, v in pts[m])
        be, bp = float(post['best_energy'][m]), post['best_particle'][m]
        exact = sc['kind'] not in ('RegCombinationCBO',)
        need(be == lo if exact else abs(be - lo) < 1e-9 * (1 + abs(lo)) or be == lo,
             'best energy of run %d %s is %r, the smallest value obtained is %r' % (m, when, be, lo))
        need(be <= prev['best_energy'][m], 'best energy of run %d %s increased from %r to %r' % (m, when, prev['best_energy'][m], be))
        if lo == math.inf:
            continue
        hit = [p for p, v in pts[m] if (v == lo or not exact and abs(v - lo) < 1e-9 * (1 + abs(lo))) and p.shape == bp.shape and np.allclose(p, bp, rtol=1e-12, atol=1e-12)]
        need(hit, 'best particle of run %d %s is %s; the value %r was obtained at %s' % (
            m, when, bp.tolist(), lo, [p.tolist() for p, v in pts[m] if v == lo][:2]))


def run(sc, ch, ctx):
    lazy = env.Lazy(ch, [float(a) for a in sc['lazy']], budget=sc['budget'], ints='ints' in sc) if 'lazy' in sc else None
    if sc['kind'] == 'base':
        return run_base(sc, ch, ctx, lazy)
    over = {}
    if 'opt' in sc:
        from cbx.utils.termination import max_it_term
        crit = max_it_term(0)
        over['term_criteria'] = [crit]
    S = lock.Session(sc, ch, ctx, lazy=lazy, **over)
    dyn = S.dyn
    pts = {m: [] for m in range(S.M)}
    memory = sc['kind'] in ('CBOMemory', 'PSO')
    if memory:
        for m in range(S.M):
            pts[m] += [(p.copy(), S.value(p)) for p in env.as_np(dyn.x)[m]]

    def grow(active, csel, psel, x_eval, x_post):
        for m in active:
            if memory:
                pts[m] += [(x_post[m, n].copy(), S.value(x_post[m, n])) for n in psel[m]]
            else:
                pts[m] += [(x_eval[m, n].copy(), regularised(sc, S, x_eval[m, n])) for n in csel[m]]

    if 'opt' in sc:
        step = dyn.step

        def counted():
            S.n0, S.pat = len(S.noise.calls), 'gen'
            f0 = len(S.f.calls)
            pre = env.snap(dyn)
            step()
            r = lock.Step()
            r.active = list(range(S.M))
            S._indices(r)
            post = env.snap(dyn)
            x_eval = evaluated(sc, S, pre, S.f.calls[f0:], r.csel)
            grow(r.active, r.csel, r.psel, x_eval, post['x'])
            judge(sc, S, pts, post, pre, 'after step %d' % (S.k + 1))
            S.k += 1
            ctx.step()
            ctx.state(sc['kind'], env.public(post))
        dyn.step = counted
        total = 0
        for n in sc['opt']:
            total += n
            crit.max_it = total
            ret = dyn.optimize(sched=None) if sc['kind'] != 'CBS' else dyn.optimize()
            need(int(dyn.it) == total, 'harness: %s steps instead of %s' % (dyn.it, total))
            need_equal('particle returned by optimize()', ret, dyn.best_particle)
            s = env.snap(dyn)
            judge(sc, S, pts, dict(s, best_particle=env.as_np(ret)), s, 'returned by optimize()')
        return
    for s in range(sc['steps']):
        term = lock.acts(ch, S.M) if s and sc.get('act') else []
        if memory and not all(np.isfinite(env.as_np(dyn.energy)[m]).any() for m in range(S.M)):
            return
        r = S.step(term)
        if memory and any(all(r.pre['energy'][m, n] == math.inf for n in r.csel[m]) for m in r.active):
            return
        x_eval = evaluated(sc, S, r.pre, r.fcalls, r.csel)
        grow(r.active, r.csel, r.psel, x_eval, r.post['x'])
        if any(all(S.value(x_eval[m, n]) == math.inf for n in r.csel[m]) for m in r.active) and not memory:
            return
        judge(sc, S, pts, r.post, r.pre, 'after step %d' % (s + 1))
    ctx.sample('%s -> best %s' % (sc, r.post['best_energy'].round(4).tolist()))


def evaluated(sc, S, pre, fcalls, csel):
    """Positions at which the particles were evaluated in this step."""
    if not sc.get('sigma_indep'):
        return pre['x']
    x = pre['x'].copy()
    act = sorted(csel)
    c = next(c for c in fcalls if c.shape[:2] == (len(act), len(csel[act[0]])))
    for a, m in enumerate(act):
        for j, n in enumerate(csel[m]):
            x[m, n] = c[a, j]
    return x


def run_base(sc, ch, ctx, lazy):
    M, N, d = sc['M'], sc['N'], sc['d']
    shape = dyns.shape(dict(sc))
    f = lazy if lazy is not None else env.Rec(dyns.objective(sc))
    if lazy is not None:
        lazy.nd, lazy.live = dyns.nd(sc), True
        g = env.generic(shape, 991)
        lazy.dead = {lazy.key(g[i]) for i in np.ndindex(M, N)}
    z = env.Noise()
    sw = env.Switch(M)
    dyn = base_dynamic(sc, f, env.generic(shape, 3, 0.9), z, sw)
    z.live = True
    S = Base()
    S.M = M
    S.value = lambda p: lazy.value(p) if lazy is not None else float(f.fun(np.asarray(p)[None, None])[0, 0])
    pts = {m: [] for m in range(M)}
    for s in range(sc.get('steps', 3)):
        term = lock.acts(ch, M) if s and sc.get('act') else []
        dyns.set_active(dyn, sw, term)
        pre = env.snap(dyn)
        dyn.step()
        ctx.step()
        post = env.snap(dyn)
        ctx.state('base', env.public(post))
        for m in range(M):
            if m not in term:
                pts[m] += [(p.copy(), S.value(p)) for p in pre['x'][m]]
        judge(dict(sc), S, pts, post, pre, 'after step %d' % (s + 1))
