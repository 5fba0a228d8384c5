"""Seeded runs are bitwise reproducible whatever happens to the global generators."""
import itertools
import random

import numpy as np

from .. import dyns, env
from ..env import need, need_equal

ID, LEVEL = 'C18', 'model_checking'
RULE = ('lattice: every dynamic and noise x batch x seed; choices: what happens between construction and every step (nothing, '
        'global generators reseeded, drawn from, another dynamic with the same seed constructed and stepped)')
BOUNDS = 'seeds 0,1,7,2**31 (0..63 pairwise for distinctness, also of batch seeds); 3 steps + one optimize(); 4 disturbances at each of 4 points; 12 steps with M=4, N=9 and at most one disturbance'
ASSUMPTIONS = ['user-supplied samplers and noise objects are the user\'s business']

ACTS = ('nothing', 'reseed', 'draw', 'other')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    rs = dict(resample=1)
    ks = dyns.kinds(rich=th) + [dict(kind='DriftConstrainedCBO', cons='none', eps_indep=0.6, sigma_indep=0.5),
                                dict(kind='DriftConstrainedCBO', cons='plane', eps_indep=0.6, sigma_indep=0.5),
                                dict(kind='CBO', **rs), dict(kind='CBOMemory', **rs), dict(kind='base')]
    for i, k in enumerate(ks):
        bts = [None] if k['kind'] == 'base' or dyns.unbatched(k) else [None, dict(size=2, partial=True, seed=3, var='concat'), dict(size=1, partial=dyns.partial_only(k))]
        for j, bt in enumerate(bts):
            if not th and j and (i + j) % 2:
                continue
            out.append(dict(k, fam='rep', M=2, N=3, d=2, batch=bt, seed=(0, 1, 7, 2 ** 31)[(i + j) % 4], no_sampler=True, dev=None if th else 2))
        out.append(dict(k, fam='rep', M=4, N=9, d=2, batch=bts[-1] and dict(size=4, partial=i % 2 == 0 or dyns.partial_only(k), seed=2 ** 33 + i), seed=2 ** 40 + i, no_sampler=True, dev=1,
                        steps=12))
    for k in [dict(kind=q, noise=n) for q in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO') for n in ('constant', 'isotropic')] + [
            dict(kind='CBO', noise='anisotropic'), dict(kind='CBO', noise='covariance'), dict(kind='CBS'), dict(kind='PolarCBO'), dict(kind='MirrorCBO'),
            dict(kind='HyperSurfaceCBO'), dict(kind='DriftConstrainedCBO', cons='sphere'), dict(kind='RegCombinationCBO', cons='plane'), dict(kind='base')]:
        out.append(dict(k, fam='distinct', M=2, N=3, d=2, no_sampler=True, seeds=64))
    for bt in ({'size': 1}, {'size': 2, 'var': 'concat'}, {'size': 3}):
        out.append(dict(fam='grid', kind='CBO', noise='constant', M=2, N=4, d=1, batch=dict(bt, partial=False), no_sampler=True, lamda=0., n=8 if th else 5))
    for M, part, var in ((1, True, 'resample'), (3, True, 'concat'), (1, False, 'concat')):
        out.append(dict(fam='batchseeds', kind='CBO', noise='constant', M=M, N=12, d=1, batch=dict(size=6, partial=part, var=var), no_sampler=True, n=64))
    return out


def make(sc, x, seed):
    f = env.quad(1)
    if sc['kind'] == 'base':
        from cbx.dynamics.pdyn import ParticleDynamic

        class Walk(ParticleDynamic):
            def inner_step(self):
                self.energy = self.f(self.x)
                self.x = self.x + self.sampler(size=self.x.shape)
        return Walk(f, f_dim='3D', x=x, max_it=2 + sc.get('steps', 2), verbosity=0, seed=seed)
    over = {}
    if sc.get('resample'):
        from cbx.utils.resampling import resampling, ensemble_update_resampling
        from cbx.dynamics.pdyn import post_process_default
        rs, pp = resampling([ensemble_update_resampling(update_thresh=0.3)], sigma_indep=0.5), post_process_default()

        def post(dyn):
            pp(dyn)
            rs(dyn)
        over['post_process'] = post
    return dyns.build(dict(sc, seed=seed), f, x=x, max_it=2 + sc.get('steps', 2), **over)


def disturb(act, sc, k):
    if act == 'reseed':
        np.random.seed(12345 + k)
        random.seed(k)
    elif act == 'draw':
        np.random.standard_normal(size=3 + k)
        np.random.permutation(4)
        random.random()
    elif act == 'other':
        o = make(sc, dyns.x0(sc, key=5) if sc['kind'] != 'base' else env.generic((2, 3, 2), 9), sc['seed'])
        o.step()
        o.step()


def trajectory(sc, seed, hook):
    x = dyns.x0(sc) if sc['kind'] != 'base' else env.generic((2, 3, 2), 3)
    hook(0)
    dyn = make(sc, x, seed)
    obs = []
    for t in range(sc.get('steps', 2)):
        hook(t + 1)
        dyn.step()
        obs.append(env.public(env.snap(dyn)))
    hook(3)
    dyn.optimize()
    obs.append(env.public(env.snap(dyn)))
    return obs


_REF = {}


def run(sc, ch, ctx):
    if sc['fam'] == 'rep':
        key = repr(sc)
        if key not in _REF:
            _REF.clear()
            np.random.seed(99)
            _REF[key] = trajectory(sc, sc['seed'], lambda k: None)
        np.random.seed(1)
        acts = []

        def hook(k):
            acts.append(ch.pick(ACTS, 'disturbance'))
            disturb(acts[-1], sc, k)
        got = trajectory(sc, sc['seed'], hook)
        for t, (a, b) in enumerate(zip(got, _REF[key])):
            for n in b:
                need_equal('%s after %d steps with disturbances %s' % (n, t + 1, acts), a[n], b[n])
            ctx.step()
            ctx.state(acts[:t + 1], a)
        ctx.sample('%s seed %s disturbances %s: bitwise equal' % (sc['kind'], sc['seed'], acts))
    elif sc['fam'] == 'batchseeds':
        seen = {}
        for b in list(range(sc['n'])) + [2 ** 31, 2 ** 40 + 3]:
            for s in (0, 3):
                c = dict(sc, batch=dict(sc['batch'], seed=b))
                dyn = make(c, dyns.x0(c), s)
                g = []
                for t in range(2):
                    dyn.step()
                    g.append(env.sel(dyn, dyn.consensus_idx).tolist())
                    ctx.step()
                k = repr(g)
                ctx.state(b, k)
                need(seen.setdefault(k, b) == b, 'batch seeds %s and %s give the same batches' % (b, seen.get(k)))
        need(len(seen) == sc['n'] + 2, 'the batches of %d batch seeds take %d values for two noise seeds' % (sc['n'] + 2, len(seen)))
    elif sc['fam'] == 'distinct':
        seen = {}
        for seed in range(sc['seeds']):
            np.random.seed(4)
            o = trajectory(sc, seed, lambda k: None)[0]['x']
            ctx.step()
            ctx.state(o)
            x = dyns.x0(sc) if sc['kind'] != 'base' else env.generic((2, 3, 2), 3)
            diff = np.round((o - x) * 1e9).astype(np.int64)
            need(len(set(diff.ravel().tolist())) > 0.8 * diff.size or sc['kind'] in ('HyperSurfaceCBO',), 'seed %d repeats noise values: %s' % (seed, (o - x).tolist()))
            k = o.tobytes()
            need(k not in seen, 'seeds %d and %s give the same noise' % (seed, seen.get(k)))
            seen[k] = seed
    else:
        noise, batch = {}, {}
        for s in range(sc['n']):
            for b in list(range(sc['n'])) + ['none']:
                c = dict(sc, batch={k: v for k, v in dict(sc['batch'], seed=b).items() if v != 'none'})
                x = dyns.x0(c)
                dyn = make(c, x, s)
                z, g = [], []
                for t in range(4):
                    old = np.array(dyn.x)
                    dyn.step()
                    z.append(np.array(dyn.x) - old)
                    g.append(env.sel(dyn, dyn.consensus_idx).tolist())
                    ctx.step()
                ctx.state(z, g)
                for t in range(4):
                    a = noise.setdefault((s, t), z[t])
                    need(np.allclose(a, z[t], rtol=1e-9, atol=1e-12), 'seed %d: the noise of step %d depends on the batch seed %s' % (s, t + 1, b))
                    need(batch.setdefault((b, t), g[t]) == g[t], 'batch seed %s: the batches of step %d depend on the seed %d' % (b, t + 1, s))
        for t in range(4):
            need(len({noise[s, t].round(9).tobytes() for s in range(sc['n'])}) == sc['n'], 'seeds share the noise of step %d' % (t + 1))
        need(len({repr([batch[b, t] for t in range(4)]) for b in range(sc['n'])}) > 1 or sc['batch']['size'] == 4, 'all batch seeds give the same batches')
