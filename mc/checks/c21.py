"""Promotion of user functions, over all small ensemble shapes and styles of user functions."""
import itertools

import numpy as np

import cbx.dynamics as D
from cbx.dynamics.pdyn import ParticleDynamic
from cbx.utils.objective_handling import _promote_objective, cbx_objective, cbx_objective_f1D, cbx_objective_f2D, cbx_objective_fh

from cbx.objectives import Rastrigin

from .. import env
from ..env import need, need_close, need_equal

ID, LEVEL = 'C21', 'exploration'
RULE = ('every (M,N,d) up to the bound x declaration x style of the user function (what it returns) x memory layout of the ensemble x '
        'class of dynamic; every wrong output shape; every illegal declaration')
BOUNDS = 'M,N,d <= 4 (5 thorough), also particle shapes (2,2) and (1,3) for whole-ensemble functions; two values per shape; also seven larger shapes up to (12,5,5)'
ASSUMPTIONS = []


def scal(p):
    """A user's function of one particle: generic, exact, sensitive to the order of coordinates."""
    v = 0.
    for i, c in enumerate(np.asarray(p).ravel()):
        v += (i + 1.25) * float(c) ** 2 + 0.75 * float(c)
    return v


class Obj(cbx_objective):
    """A user's own objective class around a function of one particle / one run / the ensemble."""

    def __init__(self, g):
        super().__init__()
        self.g = g

    def apply(self, x):
        return self.g(x)


STYLES = {
    '1D': dict(float=scal, npfloat=lambda p: np.float64(scal(p)), zero_d=lambda p: np.array(scal(p)), one_d=lambda p: np.array([scal(p)]),
               one_one=lambda p: np.array([[scal(p)]]), lst=lambda p: [scal(p)], int=lambda p: int(10 * scal(p)), f32=lambda p: np.float32(scal(p)),
               mixed=lambda p: int(10 * scal(p)) if np.asarray(p).ravel()[0] > 0 else scal(p), bool=lambda p: scal(p) > 1, obj=Obj(scal), library=Rastrigin(b=0.3),
               vec=lambda p: (np.arange(1.25, 1.25 + p.shape[-1]) * p ** 2 + .75 * p).sum(axis=-1)),
    '2D': dict(loop=lambda x: np.array([scal(p) for p in x]), col=lambda x: np.array([[scal(p)] for p in x]),
               vec=lambda x: (np.arange(1.25, 1.25 + x.shape[-1]) * x ** 2 + .75 * x).sum(axis=-1),
               int=lambda x: np.array([int(10 * scal(p)) for p in x]), first=lambda x: x[:, 0],
               obj=Obj(lambda x: np.array([scal(p) for p in x])), library=Rastrigin(b=0.3)),
    '3D': dict(loop=lambda x: np.array([[scal(p) for p in r] for r in x]), first=lambda x: x.reshape(*x.shape[:2], -1)[:, :, 0],
               int=lambda x: np.array([[int(10 * scal(p)) for p in r] for r in x]), obj=Obj(lambda x: np.array([[scal(p) for p in r] for r in x])),
               library=Rastrigin(b=0.3)),
}
BAD = {
    '3D': dict(flat=lambda x: np.zeros(x.shape[0] * x.shape[1]), row=lambda x: np.zeros(x.shape[1]), scalar=lambda x: np.float64(0.), col=lambda x: np.zeros(x.shape[:2] + (1,)),
               same=lambda x: np.zeros(x.shape), swapped=lambda x: np.zeros((x.shape[1] + 1, x.shape[0])), one=lambda x: np.zeros((1, 1, 1))),
    '2D': dict(scalar=lambda x: np.array(1.) if x.shape[0] > 1 else np.zeros(2), two=lambda x: np.zeros((x.shape[0], 2)), long=lambda x: np.zeros(2 * x.shape[0])),
    '1D': dict(two=lambda p: np.zeros(2), mat=lambda p: np.zeros((2, 2)), three=lambda p: np.zeros(3)),
}
DYNS = ['base', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'CBS', 'HyperSurfaceCBO', 'DriftConstrainedCBO']


def scenarios(tier):
    top = 5 if tier == 'thorough' else 4
    out = []
    for fd, st in STYLES.items():
        for s in st:
            for M, N, d in itertools.product(range(1, top + 1), repeat=3):
                out.append(dict(fam='value', f_dim=fd, style=s, M=M, N=N, d=[d]))
    for s in sorted(set(STYLES['3D']) - {'library'}):
        for M, N in itertools.product(range(1, 4), repeat=2):
            for d in ([2, 2], [1, 3], [3, 1]):
                out.append(dict(fam='value', f_dim='3D', style=s, M=M, N=N, d=d))
    big = [(7, 11, 6), (1, 17, 1), (9, 1, 3), (3, 3, 10), (6, 6, 6), (12, 5, 5), (5, 12, 1)]
    for fd, st in STYLES.items():
        for s in st:
            out += [dict(fam='value', f_dim=fd, style=s, M=M, N=N, d=[d]) for M, N, d in big]
    for s in sorted(set(STYLES['3D']) - {'library'}):
        out += [dict(fam='value', f_dim='3D', style=s, M=M, N=N, d=d) for M, N, d in ((2, 3, [2, 2, 2]), (5, 6, [3, 2]), (3, 7, [1, 2, 3]))]
    for fd, st in BAD.items():
        for s in st:
            out += [dict(fam='bad', f_dim=fd, style=s, M=M, N=N, d=[d]) for M, N, d in big]
    for fd, st in BAD.items():
        for s in st:
            for M, N, d in itertools.product(range(1, top), repeat=3):
                out.append(dict(fam='bad', f_dim=fd, style=s, M=M, N=N, d=[d]))
    out.append(dict(fam='refuse'))
    return out


def make(name, f, fd, x, **kw):
    if name == 'base':
        return ParticleDynamic(f, f_dim=fd, x=x, verbosity=0, **kw)
    return getattr(D, name)(f, f_dim=fd, x=x, verbosity=0, **kw)


def layouts(x):
    yield 'C', x
    yield 'F', np.asfortranarray(x)
    big = np.zeros(tuple(2 * s for s in x.shape))
    v = big[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    yield 'strided', v
    yield 'reversed', x[::-1, ::-1]


def run(sc, ch, ctx):
    if sc['fam'] == 'refuse':
        return refuse(ctx)
    M, N, d, fd = sc['M'], sc['N'], tuple(sc['d']), sc['f_dim']
    if sc['fam'] == 'bad':
        f = BAD[fd][sc['style']]
        x = env.generic((M, N) + d, 3)
        if fd == '3D' and np.shape(f(x)) == (M, N):
            return
        for name in DYNS[:1] if sc['style'] != 'row' else ('base', 'CBO', 'PSO'):
            try:
                make(name, f, fd, x)
            except (ValueError, TypeError, IndexError):
                ctx.case((sc['style'], fd, M, N, d, name))
                continue
            need(False, '%s accepts a %s objective with output %s for %d runs, %d particles' % (name, fd, np.shape(f(x if fd == '3D' else x[0])), M, N))
        # without the check nothing is evaluated on construction
        n = [0]

        def g(p):
            n[0] += 1
            return f(p)
        make('base', g, fd, x, check_f_dims=False)
        need(n[0] == 0, 'the objective is evaluated on construction although the check is switched off')
        return
    f = STYLES[fd][sc['style']]
    names = DYNS if (M, N, d) in ((1, 1, (1,)), (1, 1, (2,)), (2, 3, (2,)), (3, 2, (2,)), (1, 4, (3,)), (2, 1, (2,))) else DYNS[:1]
    for key in (0, 1):
        x = env.generic((M, N) + d, 10 + key) * (1 + 4 * key)
        for lay, y in layouts(x):
            y = np.array(y) if lay == 'C' else y
            want = np.empty((M, N))
            for m, n in np.ndindex(M, N):
                p = np.array(y[m, n])
                want[m, n] = np.asarray(f(p) if fd == '1D' else f(p[None])[0] if fd == '2D' else f(p[None, None])[0, 0], dtype=float).ravel()[0]
            for route in ('promote', 'class') + tuple(names if lay == 'C' else ()):
                if route == 'promote':
                    g = _promote_objective(f, fd)
                elif route == 'class':
                    g = {'1D': cbx_objective_f1D, '2D': cbx_objective_f2D, '3D': cbx_objective_fh}[fd](f)
                else:
                    if route == 'CBS' and len(d) > 1 or route in ('HyperSurfaceCBO', 'MirrorCBO', 'DriftConstrainedCBO') and len(d) > 1:
                        continue
                    g = make(route, f, fd, y if route != 'HyperSurfaceCBO' else y).f
                n0 = getattr(g, 'num_eval', None)
                z = np.array(y) if lay == 'C' else y
                out = g(z)
                need_equal('x handed to the objective', z, y)
                need(np.shape(out) == (M, N), '%s/%s objective maps %s to %s' % (fd, sc['style'], y.shape, np.shape(out)))
                if np.prod(sc['d']) < 8:
                    need_equal('%s/%s objective via %s, layout %s, value' % (fd, sc['style'], route, lay), np.asarray(out, dtype=float), want)
                else:  # the order of summation depends on the memory layout
                    need_close('%s/%s objective via %s, layout %s, value' % (fd, sc['style'], route, lay), np.asarray(out, dtype=float), want, rtol=1e-13)
                if n0 is not None and len(d) == 1:
                    need(g.num_eval - n0 == M * N, 'the counter grows by %d for %d particles' % (g.num_eval - n0, M * N))
                    g(z)
                    need(g.num_eval - n0 == 2 * M * N, 'the counter grows by %d for two calls with %d particles' % (g.num_eval - n0, M * N))
                ctx.case((fd, sc['style'], M, N, d, lay, route, key))
    ctx.sample('%s/%s on (%d,%d)+%s: %s' % (fd, sc['style'], M, N, d, want.round(3).tolist()))


def refuse(ctx):
    x = env.generic((2, 3, 2), 1)
    for bad in (3, None, 'f', [1], np.zeros(3), {}):
        for fd in ('1D', '2D', '3D'):
            for name in DYNS[:4]:
                try:
                    make(name, bad, fd, x)
                except TypeError:
                    ctx.case((repr(bad), fd, name))
                    continue
                need(False, '%s accepts %r as an objective' % (name, bad))
    for fd in ('4D', '', '1d', None, 3, 1, '3 D', 'D'):
        for name in DYNS[:4]:
            try:
                make(name, STYLES['3D']['loop'], fd, x)
            except ValueError:
                ctx.case((repr(fd), name))
                continue
            need(False, '%s accepts f_dim=%r' % (name, fd))

    class Own(cbx_objective):
        def apply(self, x):
            return STYLES['3D']['loop'](x)

    class Any(cbx_objective):
        def apply(self, x):
            return np.abs(x).sum(axis=-1)
    o = Own()
    dyn = make('CBO', o, '3D', x)
    need(dyn.f is o, 'an objective object is replaced')
    need(o.num_eval == 6, 'num_eval is %d after the shape check' % o.num_eval)
    dyn.f(x)
    need(o.num_eval == 12, 'num_eval is %d' % o.num_eval)
    o.reset()
    need(o.num_eval == 0, 'num_eval is %d after reset' % o.num_eval)
    ctx.case('own objective')
    for P, M, N, d in itertools.product((1, 2, 3), (1, 2), (1, 3), (1, 2)):  # points in any arrangement
        z = env.generic((P, M, N, d), 5)
        for g in (cbx_objective_fh(lambda p: (p ** 2).sum(axis=-1)), Any()):
            for y, n in ((z, P * M * N), (z[0], M * N), (z[0, 0], N), (z[0, 0, 0], 1), (z[None], P * M * N)):
                n0 = g.num_eval
                g(y)
                need(g.num_eval - n0 == n, 'the counter grows by %d for %d points of shape %s' % (g.num_eval - n0, n, y.shape))
                ctx.case(('arranged', P, M, N, d, np.ndim(y), type(g).__name__))
