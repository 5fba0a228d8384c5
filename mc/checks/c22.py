"""Every objective of the library, every shape, a lattice of points and parameters, against scalar formulas."""
import itertools
import math

import numpy as np

import cbx.objectives as O
from cbx.utils.objective_handling import cbx_objective

from .. import env
from ..env import need, need_close, need_equal

ID, LEVEL = 'C22', 'exploration'
RULE = ('every objective of the library x every parameter setting of the lattice x every array shape and memory layout x every point of a '
        'lattice over its documented window; every declared minimiser against every point of a fine lattice of the domain')
BOUNDS = ('2-dimensional objectives on a 15x15 lattice (41x41 thorough) plus special points, others in dimension 1..4 (5); shapes up to '
          '4 axes with 1..3 entries; minimisers against a 241x241 (961x961) lattice of the domain and a fine one around each')
ASSUMPTIONS = []
pi, e = math.pi, math.e
cos, sin, exp, log, sqrt = math.cos, math.sin, math.exp, math.log, math.sqrt


def sq(p):
    return sum(c * c for c in p)


def rastrigin(p, b=0., c=0., A=10.):
    return c + sum((t - b) ** 2 - A * cos(2 * pi * (t - b)) + A for t in p)


def ackley(p, A=20., b=.2, c=2 * pi, minimum=0.):
    m = np.broadcast_to(np.asarray(minimum, float), (len(p),))
    q = [t - s for t, s in zip(p, m)]
    n = len(q)
    return -A * exp(-b * sqrt(sq(q) / n)) - exp(sum(cos(c * t) for t in q) / n) + A + e


def multi(V):
    def g(p, alpha=(1.,), z=None):
        r = 1.
        for i, a in enumerate(alpha):
            zi = np.zeros(len(p)) if z is None else np.broadcast_to(np.asarray(z[i], float), (len(p),))
            r *= V([a * (t - s) for t, s in zip(p, zi)])
        return r
    return g


def normal2(p, mean, cov):
    (a, b), (c, d) = cov
    det = a * d - b * c
    u, v = p[0] - mean[0], p[1] - mean[1]
    return exp(-.5 * (d * u * u - (b + c) * u * v + a * v * v) / det) / (2 * pi * sqrt(det))


def snowflake(p, alpha=.5):
    x, y = alpha * p[0], alpha * p[1]
    r, phi = math.hypot(x, y), math.atan2(y, x)
    return min([.8] + [r ** 8 - r ** 4 + sqrt(abs(cos(phi + i * pi / 3))) * r ** .3 for i in range(3)])


def nd_sinus(p, a=1.):
    q = [.3 * t for t in p]
    return (sin(sq(q) / len(q)) + 1) * (q[0] ** 4 - q[0] ** 2 + 1)


def banana(p, m=0, sigma=.5, sigma_prior=2):
    G = (p[1] - 1) ** 2 - (p[0] - 2.5) - 1
    return .5 / sigma ** 2 * (G - m) ** 2 + .5 / sigma_prior ** 2 * sq(p)


def bimodal(p, a=(1., 1.5), b=(-1.2, -.7)):
    return -log(exp(-((p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2 / .2)) + .5 * exp(-(p[0] - b[0]) ** 2 / 8 - (p[1] - b[1]) ** 2 / .5))


def unimodal(p, a=(-1.2, -.7)):
    return -log(.5) + (p[0] - a[0]) ** 2 / 8 + (p[1] - a[1]) ** 2 / .5


def multimodal(p, means=((0., 0.),), covs=(((1., 0.), (0., 1.)),)):
    return -log(sum(normal2(p, m, c) for m, c in zip(means, covs)))


def eggholder(p):
    x, y = p
    return -(y + 47) * sin(sqrt(abs(x / 2 + y + 47))) - x * sin(sqrt(abs(x - y - 47)))


def holder(p, factor=1., shift=0.):
    s = np.broadcast_to(np.asarray(shift, float), (2,))
    x, y = (p[0] - s[0]) * factor, (p[1] - s[1]) * factor
    return -abs(sin(x) * cos(y) * exp(abs(1 - sqrt(x * x + y * y) / pi)))


def himmelblau(p, factor=1.):
    x, y = factor * p[0], factor * p[1]
    return (x * x + y - 11) ** 2 + (x + y * y - 7) ** 2


# name: formula, dims, half window (or lo, hi), parameter settings
TWO = [2]
ANY = [1, 2, 3, 4]
LIB = {
    'three_hump_camel': (lambda p: 2 * p[0] ** 2 - 1.05 * p[0] ** 4 + p[0] ** 6 / 6 + p[0] * p[1] + p[1] ** 2, TWO, (-2, 2), [{}]),
    'McCormick': (lambda p: sin(p[0] + p[1]) + (p[0] - p[1]) ** 2 - 1.5 * p[0] + 2.5 * p[1] + 1, TWO, (-3, 4), [{}]),
    'Rosenbrock': (lambda p, a=1., b=100.: (a - p[0]) ** 2 + b * (p[1] - p[0] ** 2) ** 2, TWO, (-2, 3), [{}, dict(a=2.), dict(b=7.), dict(a=-.5, b=.25)]),
    'Himmelblau': (himmelblau, TWO, (-5, 5), [{}, dict(factor=2.), dict(factor=.5), dict(factor=-1.)]),
    'Rastrigin': (rastrigin, ANY, (-5, 5), [{}, dict(b=1.3), dict(c=2.5), dict(A=3.), dict(b=-.75, c=-1., A=1.)]),
    'Rastrigin_multimodal': (multi(rastrigin), ANY, (-3, 4), [{}, dict(alpha=[2., .5], z=[[1.], [-2.]]), dict(alpha=[.5], z=[[.25]]),
                                                             dict(alpha=[1., 2., 3.], z=[[0., 1, 2, 3], [1., -1, 1, -1], [2., 2, 0, .5]]), dict(alpha=[2., 3.])]),
    'Ackley': (ackley, ANY, (-4, 4), [{}, dict(A=5.), dict(b=.7), dict(c=3.), dict(minimum=1.5), dict(minimum=[.5, -1., 2., .25]), dict(A=1., b=1., c=1., minimum=-2.)]),
    'Ackley_multimodal': (multi(ackley), ANY, (-3, 4), [{}, dict(alpha=[2., .5], z=[[1.], [-2.]]), dict(alpha=[1., 2., 3.], z=[[0., 1, 2, 3], [1., -1, 1, -1], [2., 2, 0, .5]]),
                                                       dict(alpha=[2., 3.])]),
    'accelerated_sinus': (lambda p, a=1.: sin(a * sqrt(sq(p)) / (1 + sq(p))) + 1, ANY, (-6, 6), [{}, dict(a=10.), dict(a=.5)]),
    'nd_sinus': (nd_sinus, ANY, (-6, 6), [{}, dict(a=3.)]),
    'p_4th_order': (lambda p: sum(t ** 4 for t in p) - sq(p) + 1, ANY, (-2, 2), [{}]),
    'Quadratic': (lambda p, alpha=1.: sum((alpha * t) ** 2 for t in p), ANY, (-3, 3), [{}, dict(alpha=2.5), dict(alpha=-.5)]),
    'Banana': (banana, TWO, (-4, 4), [{}, dict(m=1.), dict(sigma=2.), dict(sigma_prior=.5), dict(m=-2., sigma=1.5, sigma_prior=3.)]),
    'Bimodal': (bimodal, TWO, (-4, 4), [{}, dict(a=[0., 1.]), dict(b=[2., .5]), dict(a=[-1., 0.], b=[.5, 3.])]),
    'Unimodal': (unimodal, TWO, (-4, 4), [{}, dict(a=[1., 2.])]),
    'Multimodal': (multimodal, TWO, (-3, 3), [{}, dict(means=[[0., 1.], [2., -1.]], covs=[[[1., 0.], [0., 1.]], [[.5, .2], [.2, 2.]]]),
                                              dict(means=[[1., -1.]], covs=[[[2., -.5], [-.5, .75]]])]),
    'Bukin6': (lambda p: 100 * sqrt(abs(p[1] - .01 * p[0] ** 2)) + .01 * abs(p[0] + 10), TWO, (-15, 5), [{}]),
    'cross_in_tray': (lambda p: -1e-4 * (abs(sin(p[0]) * sin(p[1]) * exp(abs(100 - sqrt(sq(p)) / pi))) + 1) ** .1, TWO, (-10, 10), [{}]),
    'Easom': (lambda p: -cos(p[0]) * cos(p[1]) * exp(-(p[0] - pi) ** 2 - (p[1] - pi) ** 2), TWO, (-1, 7), [{}]),
    'drop_wave': (lambda p: -(1 + cos(12 * sqrt(sq(p)))) * exp(-sq(p) / (2 * (1 + .001 * sq(p)))), TWO, (-5.12, 5.12), [{}]),
    'Holder_table': (holder, TWO, (-10, 10), [{}, dict(factor=2.), dict(shift=1.5), dict(factor=.5, shift=-2.)]),
    'snowflake': (snowflake, TWO, (-3, 3), [{}, dict(alpha=1.), dict(alpha=.75)]),
    'eggholder': (eggholder, TWO, (-512, 512), [{}]),
    'Michalewicz': (lambda p, d=2, m=10: -sum(sin(t) * sin((i + 1) * t * t / pi) ** (2 * m) for i, t in enumerate(p)), ANY, (0, 4), [{}, dict(m=1), dict(m=3), dict(d=4)]),
}
# minimisers: objective -> parameter settings, domain, absolute tolerance of the value at the (rounded) location
MINIMA = {
    'three_hump_camel': ([{}], (-5, 5), 1e-12), 'Himmelblau': ([{}, dict(factor=2.), dict(factor=.5), dict(factor=-1.)], (-6, 6), 1e-9),
    'Rastrigin': ([{}, dict(b=1.3), dict(c=2.5), dict(A=3.), dict(b=-.75, c=-1., A=1.)], (-5, 5), 1e-9),
    'Rastrigin_multimodal': ([{}, dict(alpha=[2., .5], z=[[1., 2.], [-2., 0.]]), dict(alpha=[2., .5, 1.], z=[[1., 1.], [-2., .5], [.25, 0.]])], (-5, 5), 1e-9),
    'Ackley': ([{}, dict(minimum=1.5), dict(minimum=[.5, -1.]), dict(A=3., b=.5, c=2., minimum=-1.)], (-5, 5), 1e-9),
    'Ackley_multimodal': ([{}, dict(alpha=[2., .5], z=[[1., 2.], [-2., 0.]])], (-5, 5), 1e-9),
    'Bukin6': ([{}], (-15, 5), 1e-9), 'cross_in_tray': ([{}], (-10, 10), 2e-5), 'Easom': ([{}], (-10, 10), 1e-9),
    'drop_wave': ([{}], (-5.12, 5.12), 1e-12), 'Holder_table': ([{}, dict(factor=2.), dict(shift=1.5), dict(factor=.5, shift=-2.)], (-10, 10), 1e-4),
    'snowflake': ([{}, dict(alpha=1.), dict(alpha=.75)], (-4, 4), 1e-6), 'eggholder': ([{}], (-512, 512), 5e-3), 'Michalewicz': ([{}], (0, pi), 2e-3),
}
SHAPES = [(), (1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (2, 1, 3), (1, 1, 1), (0,), (2, 0)]
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'ro']
SLACK = 1e-9


def scenarios(tier):
    g = 41 if tier == 'thorough' else 15
    out = [dict(fam='registry')]
    for name, (f, dims, win, pars) in LIB.items():
        for i in range(len(pars)):
            for d in dims + ([5] if tier == 'thorough' and dims is ANY else []):
                p = pars[i]
                if d > 4 and any(np.size(v) > 3 and np.shape(v)[-1] > 1 for v in p.values()):
                    continue
                out.append(dict(fam='value', name=name, par=i, d=d, g=g))
    for name, (pars, dom, tol) in MINIMA.items():
        for i in range(len(pars)):
            out.append(dict(fam='minima', name=name, par=i, g=961 if tier == 'thorough' else 241))
    return out


def build(name, par, d):
    kw = {}
    for k, v in par.items():
        if k in ('z', 'minimum') and isinstance(v, list):
            a = np.array(v, float)
            v = a[..., :d] if a.shape[-1] > 1 else a
        elif k in ('means', 'covs'):
            v = [np.array(w) for w in v]
        elif k in ('alpha',) and isinstance(v, list):
            v = list(v)
        kw[k] = v
    return getattr(O, name)(**kw)


def fpar(par, d):
    kw = dict(par)
    for k in ('z', 'minimum'):
        if isinstance(kw.get(k), list):
            a = np.array(kw[k], float)
            kw[k] = a[..., :d] if a.shape[-1] > 1 else a
    return kw


def points(win, d, g):
    lo, hi = win
    if d == 1:
        pts = [(t,) for t in np.linspace(lo, hi, 4 * g + 1)]
    elif d == 2:
        pts = list(itertools.product(np.linspace(lo, hi, g), repeat=2))
    else:
        pts = list(itertools.product(np.linspace(lo, hi, {3: 6, 4: 4, 5: 3}[d]), repeat=d))
    for s in (0., 1., -1., .5, lo, hi, pi, 1e-9, 1e-160):
        pts.append((s,) * d)
        for j in range(d):
            pts.append(tuple(s if i == j else 0. for i in range(d)))
            pts.append(tuple(s if i == j else .7 + i for i in range(d)))
    return np.array(pts)


def run(sc, ch, ctx):
    if sc['fam'] == 'registry':
        have = {k for k, v in vars(O).items() if isinstance(v, type) and issubclass(v, cbx_objective) and v is not cbx_objective and v.__module__ == O.__name__}
        need(set(LIB) <= have, 'objectives missing from the library: %s' % sorted(set(LIB) - have))
        ctx.case('registry')
        ctx.case(sorted(have))
        return
    name = sc['name']
    if sc['fam'] == 'minima':
        return minima(sc, ctx)
    form, dims, win, pars = LIB[name]
    par, d = pars[sc['par']], sc['d']
    f = build(name, par, d)
    kw = fpar(par, d)
    P = points(win, d, sc['g'])
    want = np.array([form([float(c) for c in p], **kw) for p in P])
    tag = '%s(%s)' % (name, ', '.join('%s=%s' % (k, v) for k, v in par.items()))
    x = P.copy()
    got = f(x)
    need_equal('points handed to ' + tag, x, P)
    need(np.shape(got) == want.shape, '%s maps %s to %s' % (tag, P.shape, np.shape(got)))
    scale = 1e-9 * (1 + np.abs(want))
    scale = np.maximum(scale, 1e-11 * max(1., np.abs(want).max()) if name not in ('Unimodal',) else 0)
    bad = np.flatnonzero(~(np.abs(got - want) <= scale))
    need(not len(bad), '%s at %s is %r, its formula gives %r' % ((tag, P[bad[0]].tolist(), got[bad[0]], want[bad[0]]) if len(bad) else ('',) * 4))
    for i in range(len(P)):
        ctx.case((name, sc['par'], P[i]))
    # every shape and layout; several offsets so that every lattice point is in some array
    off = 0
    for rep in range(3):
        for shp in SHAPES:
            n = int(np.prod(shp))
            idx = (off + 7 * np.arange(n)) % len(P)
            off += 7 * n + 1
            base = P[idx].reshape(shp + (d,))
            w = got[idx].reshape(shp)
            for lay in LAYOUTS:
                y = layout(base, lay)
                keep = np.array(y)
                r = f(y)
                need(np.shape(r) == shp, '%s maps an array of shape %s to shape %s' % (tag, y.shape, np.shape(r)))
                need_close('%s on shape %s (%s): value at each point' % (tag, y.shape, lay), np.asarray(r, float), w, 1e-9, max(1e-9, 1e-12 * np.abs(got).max()))
                need_equal('points handed to ' + tag, np.array(y), keep)
                ctx.case((name, sc['par'], shp, lay, rep, d))
    again = f(P.copy())
    need_equal(tag + ' evaluated again', again, got)
    need(f.num_eval > 0, 'no evaluations counted')
    ctx.sample('%s, d=%d: %d points, e.g. f(%s)=%.6g' % (tag, d, len(P), P[3].round(3).tolist(), got[3]))


def layout(a, lay):
    if lay == 'C':
        return a.copy()
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'ro':
        b = a.copy()
        b.flags.writeable = False
        return b
    if lay == 'strided':
        big = np.full(tuple(2 * s for s in a.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    b = np.ascontiguousarray(a[..., ::-1])
    return b[..., ::-1]


def minima(sc, ctx):
    name = sc['name']
    pars, dom, tol = MINIMA[name]
    par = pars[sc['par']]
    f = build(name, par, 2)
    form = LIB[name][0]
    kw = fpar(par, 2)
    mins = np.atleast_1d(np.asarray(f.minima, float))
    mins = np.array([np.broadcast_to(r, (2,)) for r in (mins if mins.ndim == 2 else mins[None])])
    lo, hi = dom
    if 'factor' in par or 'shift' in par:  # the documented domain refers to the transformed variable
        fa, sh = par.get('factor', 1.), par.get('shift', 0.)
        lo, hi = sorted((lo / fa + sh, hi / fa + sh))
    t = np.linspace(lo, hi, sc['g'])
    G = np.stack(np.meshgrid(t, t), axis=-1).reshape(-1, 2)
    near = []
    for m in mins:
        for r in (.5, .02):
            u = np.linspace(-r, r, 41)
            near.append(np.clip(m + np.stack(np.meshgrid(u, u), -1).reshape(-1, 2) * (hi - lo) / 10, lo, hi))
    G = np.concatenate([G] + near)
    v = f(G)
    ctx.case((name, sc['par'], 'lattice'), n=len(G))
    k = int(np.argmin(v))
    best = v[k]
    for m in mins:
        need((m >= lo - 1e-6).all() and (m <= hi + 1e-6).all(), '%s declares the minimiser %s outside of its domain' % (name, m.tolist()))
        fm = form(m.tolist(), **kw)
        need(fm <= best + tol, '%s declares the minimiser %s with value %r, but its value at %s is %r' % (name, m.tolist(), fm, G[k].tolist(), best))
        ctx.case((name, sc['par'], m))
    ctx.sample('%s: %d minimisers, least value on %d lattice points %.6g' % (name, len(mins), len(G), best))
