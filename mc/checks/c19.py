"""Default post-processing: finite, bounded, otherwise the identity; user callables exactly once."""
import itertools

import numpy as np

from .. import dyns, env
from ..env import need, need_equal

ID, LEVEL = 'C19', 'model_checking'
RULE = ('lattice: every dynamic x batch x shape; choices: for every noise draw and every objective call whether it is regular or '
        'contains NaN, +-inf or huge values (bounded number of faults); all small arrays of special values for the processing itself')
BOUNDS = 'M=2, N=3; 3 steps with at most 2 faults (3 faults in 2 steps thorough); thresholds 1e8, 5, 0.5; arrays over 9 special values; copies with M=4, N=9, 8 steps and one fault; d up to 4'
ASSUMPTIONS = ['the projection onto the Stiefel manifold may refuse non-finite arguments']

NOISE = ('ok', 'nan1', 'inf1', '-inf1', 'huge', 'allnan')
FVALS = ('ok', 'nan1', 'inf1', '-inf1', 'allinf', 'allnan', 'huge')
SPECIAL = [0., 1., -1., 0.5, 1e7, np.nan, np.inf, -np.inf, 1e300, -1e300, 5e8, 1e8, -1e8, 5e-324]


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for th_ in (1e8, 5., 0.5):
        for backend in ('numpy', 'numpy-copy', 'torch'):
            out.append(dict(fam='fun', thresh=th_, backend=backend, n=3 if th else 2))
    ks = dyns.kinds(rich=th) + [dict(kind='base'), dict(kind='DriftConstrainedCBO', cons='none', eps_indep=1e-3, sigma_indep=.3)]
    for i, k in enumerate(ks):
        bts = [None] if k['kind'] == 'base' or dyns.unbatched(k) else [None, dict(size=2, partial=True), dict(size=2, partial=dyns.partial_only(k))]
        for j, bt in enumerate(bts):
            if j and not th and (i + j) % 3:
                continue
            for d in (2, [2, 2], 1, 4):
                s = dyns.dim(k, d) if k['kind'] != 'base' else dict(k, d=d)
                if s is None or d != 2 and (j or k.get('corr')):
                    continue
                if d == 1 and 'quadric' in s.get('cons', ''):
                    continue
                out.append(dict(s, fam='dyn', M=2, N=3, batch=bt, steps=3, dev=2 if d == 2 and (th or not j and k.get('corr') in (None, 'no_correction')) else 1))
                if th and d == 2 and not j:
                    out.append(dict(s, fam='dyn', M=2, N=3, batch=bt, steps=2, dev=3))
    for i, k in enumerate(ks):
        out.append(dict(k, fam='user', M=2, N=3, d=2))
    big = [s for s in dyns.stretch([s for s in out if s['fam'] == 'dyn' and s['kind'] != 'base'], count=24, key='steps', depth=8) if s['M'] == 4]
    return dyns.magnify(out) + big


def fault(z, kind):
    z = np.array(z, dtype=float)
    if not z.size:
        return z
    i = (z.shape[0] - 1,) + (0,) * (z.ndim - 1)
    if kind == 'nan1':
        z[i] = np.nan
    elif kind == 'inf1':
        z[i] = np.inf
    elif kind == '-inf1':
        z[i] = -np.inf
    elif kind == 'huge':
        z *= 1e200
    elif kind == 'allnan':
        z[...] = np.nan
    elif kind == 'allinf':
        z[...] = np.inf
    return z


def build(sc, f, z, **over):
    if sc['kind'] == 'base':
        from cbx.dynamics.pdyn import ParticleDynamic

        class Walk(ParticleDynamic):
            def inner_step(self):
                self.energy = self.f(self.x)
                self.x = self.x + self.sampler(size=self.x.shape)
        return Walk(f, f_dim='3D', x=env.generic(dyns.shape(sc), 3), verbosity=0, sampler=z, **over)
    return dyns.build(sc, f, x=dyns.x0(sc), sampler=z, **over)


def run(sc, ch, ctx):
    if sc['fam'] == 'fun':
        return processing(sc, ch, ctx)
    live = [False]
    q = dyns.objective(sc)
    faults = []

    def z(size=None):
        if not live[0]:
            return env.generic(tuple(size), 5)
        n[0] += 1
        k = ch.pick(NOISE, 'noise')
        faults.append(k)
        return fault(env.generic(tuple(size), 20 + n[0]), k)
    n = [0]

    def f(x):
        with np.errstate(all='ignore'):
            v = q(x)
        if not live[0]:
            return v
        k = ch.pick(FVALS, 'f')
        faults.append('f:' + k)
        return fault(v, k)
    if sc['fam'] == 'user':
        got = []
        dyn = build(sc, q, lambda size=None: 1e12 * env.generic(tuple(size), 7), post_process=lambda d: got.append((d, d.it, np.array(d.x))))
        for t in range(3):
            try:
                dyn.step()
            except np.linalg.LinAlgError:
                break
            ctx.step()
            need(len(got) == t + 1, 'the post-processing callable is called %d times in %d steps' % (len(got), t + 1))
            need(got[-1][0] is dyn, 'the post-processing callable is not given the dynamic')
            need_equal('x after a step whose post-processing does nothing', np.array(dyn.x), got[-1][2])
            if t == 0 and sc['kind'] in ('CBO', 'CBOMemory', 'PSO', 'base', 'AdamCBO') and sc.get('noise') in (None, 'isotropic', 'constant', 'anisotropic'):
                need(np.abs(dyn.x).max() > 1e9, 'the default post-processing is applied although another one is given')
            ctx.state(sc['kind'], t, dyn.x)
        return
    dyn = build(sc, f, z)
    orig = dyn.post_process
    rec = []

    def wrap(d):
        rec.append([np.array(d.x), None])
        orig(d)
        rec[-1][1] = np.array(d.x)
    dyn.post_process = wrap
    live[0] = True
    lim = orig.max_thresh if hasattr(orig, 'max_thresh') else 1e8
    with np.errstate(all='ignore'):
        for t in range(sc['steps']):
            try:
                dyn.step()
            except np.linalg.LinAlgError:
                if 'nk' in sc and any(not k.endswith('ok') for k in faults):
                    return  # the polar factor of a non-finite matrix does not exist
                raise
            ctx.step()
            x = np.array(dyn.x)
            need(len(rec) == t + 1, 'post-processing runs %d times in %d steps' % (len(rec), t + 1))
            need(np.all(np.isfinite(x)), 'particles are not finite after step %d with %s: %s' % (t + 1, faults, x.tolist()))
            need(np.abs(x).max() <= lim, 'particles exceed the bound after step %d with %s: %s' % (t + 1, faults, x.tolist()))
            a, b = rec[-1]
            ok = np.isfinite(a) & (np.abs(a) <= lim)
            need_equal('coordinates within the bounds after post-processing', b[ok], a[ok])
            need_equal('x after the step', x, b)
            ctx.state(sc['kind'], t, x, np.isfinite(a))
    ctx.sample('%s faults %s -> max |x| %g' % (sc, faults, np.abs(x).max()))


class Holder:
    pass


def processing(sc, ch, ctx):
    from cbx.dynamics.pdyn import post_process_default
    lim = sc['thresh']
    for combo in itertools.product(SPECIAL + [lim, -lim, 1.5 * lim, np.nextafter(lim, 0), np.nextafter(lim, np.inf)], repeat=sc['n']):
        for shape in ((1, 1, sc['n']), (1, sc['n'], 1), (sc['n'], 1, 1)):
            x = np.array(combo).reshape(shape)
            d = Holder()
            if sc['backend'] == 'torch':
                import torch
                from cbx.utils.torch_utils import post_process_default_torch
                d.x = torch.tensor(x)
                p = post_process_default_torch(max_thresh=lim)
            else:
                d.x = x.copy()
                p = post_process_default(max_thresh=lim, copy_nan_to_num=sc['backend'] != 'numpy')
            p(d)
            y = env.as_np(d.x)
            need(y.shape == x.shape, 'post-processing changes the shape to %s' % (y.shape,))
            need(np.all(np.isfinite(y)) and np.abs(y).max() <= lim, '%s is processed to %s' % (x.tolist(), y.tolist()))
            ok = np.isfinite(x) & (np.abs(x) <= lim)
            need_equal('coordinates within the bounds', y[ok], x[ok])
        ctx.step()
        ctx.state(sc['backend'], lim, [repr(c) for c in combo])
