"""Ensemble initialisation: every form of initial particles on every dynamic, and every use of the initialisation helper."""
import numpy as np

import cbx
import cbx.dynamics as D
from cbx.utils.particle_init import init_particles

from .. import dyns, env
from ..core import Violation
from ..env import need, need_close, need_equal

ID, LEVEL = 'C27', 'exploration'
RULE = ('every kind of dynamic with initial particles given as (d), (N,d), (M,N,d) and (M,N,d1,d2) arrays in every memory layout and with every '
        'combination of M, N, d otherwise; the initialisation helper for every method, shape and bounds; torch dynamics included')
BOUNDS = 'M, N, d <= 3 for shapes; 3 steps on a dynamic; ranges, means and deviations judged on ensembles of 12000 coordinates to 6 %'
ASSUMPTIONS = ['two-dimensional shapes of normal ensembles are one run, as documented']

LAYOUTS = ['c', 'fortran', 'strided', 'reversed', 'broadcast', 'readonly', 'view', 'int', 'bool']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for s in dyns.kinds(rich=th):
        for d in (2, 1, 3, [2, 2]):
            q = dyns.dim(s, d)
            if q is None or d != 2 and 'quadric' in s.get('cons', '') or d == 1 and s['kind'] == 'HyperSurfaceCBO':
                continue
            out.append(dict(q, fam='given'))
            if not isinstance(d, list):
                out.append(dict(q, fam='drawn'))
    for m in ('uniform', 'normal', 'default', 'other'):
        out.append(dict(fam='helper', method=m))
    for d in (1, 2, 3):
        out.append(dict(fam='torch', d=d))
    return sorted(out, key=lambda s: s['fam'] != 'helper')


def layout(x, kind):
    if kind == 'fortran':
        return np.asfortranarray(x)
    if kind == 'strided':
        b = np.full(tuple(2 * n for n in x.shape), 77.)
        v = b[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if kind == 'reversed':
        return np.array(x[::-1])[::-1]
    if kind == 'broadcast':
        return np.broadcast_to(x[:1], x.shape)
    if kind == 'readonly':
        x = np.array(x)
        x.setflags(write=False)
        return x
    if kind == 'int':
        v = np.round(3 * x).astype(int)
        return np.where(v == 0, 1, v)
    if kind == 'bool':
        v = x > np.median(x)
        v[..., 0] = True
        return v
    if kind == 'view':
        b = np.full((x.shape[0] + 2,) + x.shape[1:], 77.)
        b[1:-1] = x
        return b[1:-1]
    return np.array(x)


def run(sc, ch, ctx):
    np.random.seed(4)
    return dict(given=given, drawn=drawn, helper=helper, torch=torch_)[sc['fam']](sc, ch, ctx)


def given(sc, ch, ctx):
    M, N = ch.pick([(1, 1), (1, 3), (2, 1), (2, 3), (3, 2)], 'MN')
    sc = dict(sc, M=M, N=N, alpha=2.)
    full = dyns.x0(sc)
    forms = [full]
    if M == 1 and full.ndim == 3:
        forms.append(full[0])
        if N == 1:
            forms.append(full[0, 0])
    src = forms[ch.choose(len(forms), 'form')]
    lay = ch.pick(LAYOUTS if src.size > 1 else LAYOUTS[:1], 'layout')
    x = layout(src, lay)
    if lay in ('broadcast', 'int', 'bool'):
        full = np.array(x, dtype=float).reshape(full.shape)
    keep = np.array(x)
    extra = [{}, dict(M=5, N=7, d=4)][ch.choose(2, 'extra')]
    noise = env.Noise(lambda k, size: env.generic(size, 40 + k))
    noise2 = env.Noise(lambda k, size: env.generic(size, 40 + k))
    nd = dyns.nd(sc)
    what = '%s particles of shape %s (%s)' % (sc['kind'], x.shape, lay)
    dyn = dyns.build(sc, env.quad(nd), x=x, sampler=noise, **extra)
    other = dyns.build(sc, env.quad(nd), x=np.ascontiguousarray(full), sampler=noise2)
    need_equal(what + ': x', dyn.x, full)
    need((dyn.M, dyn.N, tuple(dyn.d)) == (M, N, tuple(full.shape[2:])), '%s: M, N, d are %s, %s, %s' % (what, dyn.M, dyn.N, dyn.d))
    need_equal(what + ': array of the user', x, keep)
    need(not np.shares_memory(dyn.x, x), what + ': the dynamic works on the array of the user')
    noise.live = noise2.live = True
    for k in range(2):
        dyn.step()
        other.step()
        need_close('%s: x after step %d' % (what, k + 1), dyn.x, other.x, rtol=1e-6, atol=1e-9)
        need(dyn.x.shape == full.shape, '%s: shape %s after a step' % (what, dyn.x.shape))
        need_equal(what + ': array of the user after a step', x, keep)
    # changing the array afterwards does not reach the dynamic
    if x.flags.writeable:
        now = env.snap(dyn)
        x[...] = 55.
        for key, v in env.snap(dyn).items():
            if v is not None:
                need_equal('%s: %s after the user changes his array' % (what, key), v, now[key])
    ctx.case((sc['kind'], M, N, lay, x.ndim))
    if len(ctx.samples) < 3:
        ctx.sample(what)


def spread(what, x, lo, hi):
    x = np.asarray(x)
    need(np.all(np.isfinite(x)) and x.min() >= lo and x.max() <= hi, '%s: coordinates between %s and %s, expected [%s, %s]' % (
        what, x.min(), x.max(), lo, hi))
    if x.size > 5000 and hi > lo:
        w = hi - lo
        need(x.min() < lo + .05 * w and x.max() > hi - .05 * w, '%s: coordinates between %s and %s do not fill [%s, %s]' % (
            what, x.min(), x.max(), lo, hi))
        need(abs(x.mean() - (lo + hi) / 2) < .03 * w, '%s: mean %s in [%s, %s]' % (what, x.mean(), lo, hi))
        for c in range(x.shape[-1]):
            v = x[..., c]
            need(v.size < 1000 or abs(v.mean() - (lo + hi) / 2) < .06 * w, '%s: mean %s of coordinate %d' % (what, v.mean(), c))
    if hi > lo:
        need(len(np.unique(x)) > .99 * x.size, '%s: only %d different values among %d' % (what, len(np.unique(x)), x.size))


def drawn(sc, ch, ctx):
    M, N, d = ch.choose(3, 'M') + 1, ch.pick([1, 2, 3, 'default', 2000], 'N'), sc['d']
    args = dict(M=M, N=N, d=d)
    if N == 'default':
        del args['N']
        N = 20
    if M == 1 and ch.choose(2, 'M given') == 0:
        del args['M']
    if N == 2000 and (sc.get('kernel') or sc.get('noise') in ('covariance', 'sampling') or 'Constrained' in sc['kind']):
        return
    s = dict(sc, M=M, N=N, alpha=2.)
    k = dyns.kwargs(s)
    noise = env.Noise()
    f = env.quad(1)
    what = '%s with %s' % (sc['kind'], args)
    cls = getattr(D, sc['kind'])
    dyn = cls(f, f_dim='3D', verbosity=0, sampler=noise, **args, **k)
    need(dyn.x.shape == (M, N, d) and (dyn.M, dyn.N, tuple(dyn.d)) == (M, N, (d,)), '%s: ensemble of shape %s' % (what, dyn.x.shape))
    spread(what, dyn.x, -1., 1.)
    need(dyn.it == 0, '%s: it %s' % (what, dyn.it))
    dyn2 = cls(f, f_dim='3D', verbosity=0, sampler=noise, check_f_dims=False, **args, **k)
    need(np.all(dyn2.num_f_eval + N == dyn.num_f_eval), '%s: evaluations %s with and %s without shape check' % (what, dyn.num_f_eval, dyn2.num_f_eval))
    need(not np.array_equal(dyn.x, dyn2.x), '%s: two draws are the same' % what)
    try:
        del args['d']
        cls(f, f_dim='3D', verbosity=0, sampler=noise, **args, **k)
    except RuntimeError:
        pass
    else:
        raise Violation('%s: no refusal of a missing dimension' % what)
    ctx.case((sc['kind'], M, N, d))


def refused(what, **kw):
    try:
        init_particles(**kw)
    except RuntimeError:
        return
    except Exception as e:
        raise Violation('%s: %r instead of the refusal' % (what, e))
    raise Violation('%s is not refused' % what)


def helper(sc, ch, ctx):
    m = sc['method']
    shapes = [(M, N, d) for M in (1, 2, 3) for N in (1, 2, 3) for d in (1, 2, 3)] + [(2, 3000, 2), (1, 4000, 3), (3, 400, 10)]
    shapes += [(N, d) for N in (1, 2, 3) for d in (1, 2, 3)] + [(6000, 2), (5,), (7000,), (2, 2, 2, 3), (2, 2, 3000, 2)]
    if m == 'other':
        name = ch.pick(['', 'Uniform', 'gauss', None, 'norm', 'uniform ', 3], 'name')
        refused('method %r' % (name,), shape=(2, 3, 2), method=name)
        ctx.case(name)
        return
    sh = ch.pick(shapes, 'shape')
    what = '%s particles of shape %s' % (m, sh)
    if m in ('uniform', 'default'):
        lo, hi = ch.pick([(-1., 1.), (0., 1.), (-3., -1.), (2., 2.5), (-100., 1e4), (1., 1.), (None, 3.), (-2., None)], 'bounds')
        kw = dict(shape=sh)
        if m == 'uniform':
            kw['method'] = m
        if lo is not None:
            kw['x_min'] = lo
        if hi is not None:
            kw['x_max'] = hi
        if ch.choose(2, 'delta'):
            kw['delta'] = 7.
        x = init_particles(**kw)
        lo, hi = -1. if lo is None else lo, 1. if hi is None else hi
        need(np.shape(x) == sh, '%s: shape %s' % (what, np.shape(x)))
        spread('%s in [%s, %s]' % (what, lo, hi), x, lo, hi)
        ctx.case((m, sh, lo, hi))
        return
    delta = ch.pick([None, 1., .5, 3., 1e-3, 20., 0.], 'delta')
    kw = dict(shape=sh, method=m)
    if delta is not None:
        kw['delta'] = delta
    if ch.choose(2, 'bounds'):
        kw.update(x_min=5., x_max=6.)
    if len(sh) not in (2, 3):
        refused(what, **kw)
        ctx.case((m, sh))
        return
    delta = 1. if delta is None else delta
    x = init_particles(**kw)
    want = sh if len(sh) == 3 else (1,) + sh
    need(np.shape(x) == want, '%s: shape %s' % (what, np.shape(x)))
    need(np.all(np.isfinite(x)) and np.abs(x).max() <= 12 * delta, '%s: value %s with deviation %s' % (what, np.abs(x).max(), delta))
    if delta:
        need(len(np.unique(x)) == x.size, '%s: repeated values' % what)
        if x.size >= 12000:
            v = x.reshape(-1, want[-1])
            need_close('%s: standard deviation' % what, np.array(x.std()), np.array(delta), rtol=.06)
            need_close('%s: standard deviations' % what, v.std(0), np.full(want[-1], delta), rtol=.12)
            need_close('%s: mean' % what, np.array(x.mean() / delta), np.array(0.), atol=.06)
            c = np.corrcoef(v.T) if want[-1] > 1 else np.eye(1)
            need(np.abs(c - np.eye(want[-1])).max() < .15, '%s: correlated coordinates' % what)
    ctx.case((m, sh, delta))


def torch_(sc, ch, ctx):
    import torch
    from cbx.utils.torch_utils import to_torch_dynamic
    M, N, d = ch.choose(3, 'M') + 1, ch.pick([1, 2, 3, 2000], 'N'), sc['d']
    T = to_torch_dynamic(D.CBO)
    torch.manual_seed(3)
    f = env.quad(1)
    what = 'torch CBO with M=%d, N=%d, d=%d' % (M, N, d)
    if ch.choose(2, 'given'):
        x = torch.tensor(env.generic((M, N, d), 3))
        forms = [x] + ([x[0]] + ([x[0, 0]] if N == 1 else []) if M == 1 else [])
        x = forms[ch.choose(len(forms), 'form')]
        keep = x.clone()
        dyn = T(f, f_dim='3D', x=x, verbosity=0)
        need_equal(what + ': x', dyn.x, keep.reshape(M, N, d))
        dyn.step()
        need_equal(what + ': tensor of the user', x, keep)
        need(dyn.x.shape == (M, N, d), '%s: shape %s' % (what, tuple(dyn.x.shape)))
    else:
        dyn = T(f, f_dim='3D', M=M, N=N, d=d, verbosity=0)
        need(isinstance(dyn.x, torch.Tensor) and tuple(dyn.x.shape) == (M, N, d), '%s: %s of shape %s' % (what, type(dyn.x), tuple(dyn.x.shape)))
        spread(what, dyn.x.numpy(), -1., 1.)
        need((dyn.M, dyn.N) == (M, N), '%s: M, N are %s, %s' % (what, dyn.M, dyn.N))
        try:
            T(f, f_dim='3D', M=M, N=N, verbosity=0)
        except RuntimeError:
            pass
        else:
            raise Violation('%s: no refusal of a missing dimension' % what)
    ctx.case((M, N, d))
