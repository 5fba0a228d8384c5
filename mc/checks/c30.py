"""Plots: every run, pair of dimensions, flag and batch form; the artists are read back after every update."""
import itertools
import warnings

import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

import cbx.plotting as P

from .. import dyns, env
from ..core import Violation
from ..env import need, need_close, need_equal

ID, LEVEL = 'C30', 'model_checking'
RULE = ('every kind of dynamic x batch form x selected run x dimensions x flags, plotted live after each step with every set of terminated runs, '
        'and from its history at every sequence of indices; objective plots for every window and pair of dimensions; positions are read back '
        'from the artists')
BOUNDS = 'M<=3, N<=3, d<=3 (4 for objective plots); 3 steps; sequences of up to 3 indices; Agg canvas without drawing; also M=4, N=9, d=5, 12 steps'
ASSUMPTIONS = ['flat particles', 'history plots of runs that are all active (see known finding)', 'numpy dynamics']

_ax = []


def axes(draw=True):
    """One real axis for all executions; what is contoured is recorded."""
    if not _ax:
        fig, ax = plt.subplots()
        real = ax.contourf

        def contourf(X, Y, Z, *a, **k):
            ax.seen.append((np.array(X), np.array(Y), np.array(Z)))
            return real(X, Y, Z, *a, **k) if ax.draw else None
        ax.contourf = contourf
        _ax.append(ax)
        plt.pause = lambda *a, **k: None
    ax = _ax[0]
    for a in list(ax.collections) + list(ax.lines):
        a.remove()
    ax.seen, ax.draw = [], draw
    plt.sca(ax)
    return ax


def scenarios(tier):
    th = tier == 'thorough'
    out = [dict(fam='contour', d=d) for d in (2, 3, 4)] + [dict(fam='line')]
    for s in dyns.kinds(rich=th):
        if not th and (s['kind'] in dyns.BASIC and s['noise'] != 'isotropic' or s.get('corr', 'no_correction') != 'no_correction'):
            continue
        for d in (2, 3, 1):
            q = dyns.dim(s, d)
            if q is None or d != 2 and 'quadric' in s.get('cons', '') or d == 1 and s['kind'] == 'HyperSurfaceCBO':
                continue
            for i, bt in enumerate([None] if dyns.unbatched(s) else [None] + list(dyns.batches(3, partial_only=dyns.partial_only(s)))[1:]):
                if not th and (i and (i + d) % 4 or d == 1 and s.get('noise') != 'isotropic' or i == 0 and d == 3 and len(out) % 3):
                    continue
                out.append(dict(q, fam='live', M=2, N=3, batch=bt, alpha=2.))
                out.append(dict(q, fam='history', M=2, N=3, batch=bt, alpha=2.))
    for kind in ('CBO', 'PSO', 'PolarCBO', 'MirrorCBO', 'CBS', 'AdamCBO', 'CBOMemory'):
        for bt in (None, dict(size=2, partial=True)) if kind != 'CBS' else (None,):
            out.append(dict(kind=kind, d=3, fam='off', M=3, N=3, batch=bt, alpha=2.))
    for i, kind in enumerate(('CBO', 'PSO', 'PolarCBO', 'MirrorCBO', 'CBS', 'AdamCBO', 'CBOMemory', 'HyperSurfaceCBO')):  # larger and longer
        for d in (2, 5):
            for fam in ('live', 'history', 'off'):
                out.append(dict(kind=kind, d=d, fam=fam, M=4, N=9, batch=None if kind == 'CBS' or i % 2 else dict(size=4, partial=True), alpha=2., its=12, dev=2 if fam == 'history' else 1))
    out.append(dict(kind='CBO', d=2, fam='runs', M=4, N=9, alpha=2., its=23, dev=2))
    out.append(dict(kind='CBO', d=2, fam='runs', M=2, N=3, alpha=2.))
    out.append(dict(kind='CBO', d=2, fam='history-off', M=2, N=3, alpha=2.))
    return out


def known(sc, choices, err):
    if sc['fam'] == 'history-off':
        return 'C30-history-consensus-terminated'


def run(sc, ch, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return dict(contour=contour, line=line, live=live, history=history, off=off, runs=runs, history_off=history_off)[
            sc['fam'].replace('-', '_')](sc, ch, ctx)


# ------------------------------------------------------------------------------------------------ objectives
def window(ch):
    x = ch.pick([(None, None), (0., 2.), (-3., 0.), (10., 20.), (0., None), (None, 0.)], 'x')
    y = ch.pick([(None, None), (0., 5.), (-4., 0.), (0., None), (None, 0.), (2., None), (None, 7.)], 'y')
    return x, y


def contour(sc, ch, ctx):
    d = sc['d']
    dims = ch.pick([None] + [list(p) for p in itertools.permutations(range(d), 2)], 'dims')
    (x0, x1), (y0, y1) = window(ch)
    n = ch.pick([5, 'default'] if dims is None else [4], 'num_pts')
    kw = {}
    for k, v in (('x_min', x0), ('x_max', x1), ('y_min', y0), ('y_max', y1), ('dims', dims)):
        if v is not None:
            kw[k] = v
    if d != 2 or ch.choose(2, 'd'):
        kw['d'] = d
    if n != 'default':
        kw['num_pts'] = n
    x0, x1 = -1. if x0 is None else x0, 1. if x1 is None else x1
    y0, y1 = x0 if y0 is None else y0, x1 if y1 is None else y1
    if not (x0 < x1 and y0 < y1):
        return
    f = env.Rec(env.quad(1), 1)
    ax = axes()
    P.contour_2D(f, ax=ax if ch.choose(2, 'ax') else None, **kw)
    a, b = dims or [0, 1]
    what = 'contour_2D(%s)' % kw
    pts = np.concatenate([c.reshape(-1, c.shape[-1]) for c in f.calls])
    need(pts.shape[-1] == d, '%s: points of dimension %d' % (what, pts.shape[-1]))
    rest = [i for i in range(d) if i not in (a, b)]
    need(not np.any(pts[:, rest]), '%s: other coordinates are not zero' % what)
    for name, c, lo, hi in (('x', pts[:, a], x0, x1), ('y', pts[:, b], y0, y1)):
        need_close('%s: %s range' % (what, name), np.array([c.min(), c.max()]), np.array([lo, hi]), rtol=1e-12, atol=1e-12)
    for X, Y, Z in ax.seen:
        X, Y = (X, Y) if X.ndim == 2 else np.meshgrid(X, Y)
        q = np.zeros(X.shape + (d,))
        q[..., a], q[..., b] = X, Y
        need_close('%s: contoured values' % what, Z, env.quad(1)(q), rtol=1e-10, atol=1e-12)
        need_close('%s: window' % what, np.array([X.min(), X.max(), Y.min(), Y.max()]), np.array([x0, x1, y0, y1]), rtol=1e-12, atol=1e-12)
    ctx.state(what)
    ctx.step()


def line(sc, ch, ctx):
    (x0, x1), _ = window(ch)
    n = ch.pick([5, 2, 'default'], 'num_pts')
    kw = {k: v for k, v in (('x_min', x0), ('x_max', x1), ('num_pts', n)) if v not in (None, 'default')}
    x0, x1 = -1. if x0 is None else x0, 1. if x1 is None else x1
    if x0 >= x1:
        return
    ax = axes()
    f = env.quad(1)
    P.plot_1D(f, ax=ax if ch.choose(2, 'ax') else None, color='k', **kw)
    need(len(ax.lines) == 1, 'plot_1D(%s) draws %d lines' % (kw, len(ax.lines)))
    x, y = ax.lines[0].get_data()
    what = 'plot_1D(%s)' % kw
    need(len(x) == (200 if n == 'default' else n), '%s: %d points' % (what, len(x)))
    need_close(what + ': window', np.array([min(x), max(x)]), np.array([x0, x1]), rtol=1e-12, atol=1e-12)
    need_close(what + ': values', np.asarray(y), f(np.asarray(x)[:, None]), rtol=1e-10, atol=1e-12)
    ctx.state(what)
    ctx.step()


# ------------------------------------------------------------------------------------------------ dynamics
def build(sc, track=(), switch=None):
    noise = env.Noise(lambda k, size: env.generic(size, 40 + k))
    dyn = dyns.build(sc, env.quad(1), sampler=noise, switch=switch or env.Switch(sc['M']), track_args=dict(names=list(track)))
    noise.live = True
    return dyn


def full(dyn):
    s = env.snap(dyn)
    for k, h in dyn.history.items():
        for i, e in enumerate(h):
            if not isinstance(e, (tuple, type(Ellipsis))):
                s['history %s %d' % (k, i)] = np.array(e)
    return s


def pure(what, dyn, fun):
    a = full(dyn)
    r = fun()
    b = full(dyn)
    for k in a:
        if a[k] is not None:
            need_equal('%s changes %s' % (what, k), b[k], a[k])
    return r


def at(p, dims, d, y=None):
    """Plotted positions of the points p (k, d)."""
    if d > 1:
        return p[:, dims]
    return np.stack([p[:, 0], np.zeros(len(p)) if y is None else y], axis=-1)


def offsets(s):
    return np.asarray(s.get_offsets())


def judge(what, pl, d, dims, part, cons, drift, f, energy=True):
    if part is not None:
        y = f(part[None])[0] if d == 1 and energy else None
        need_close(what + ': particles', offsets(pl.scx), at(part, dims, d, y), rtol=1e-12, atol=1e-12)
    if cons is not None:
        need_close(what + ': consensus', offsets(pl.scc), at(cons, dims, d), rtol=1e-12, atol=1e-12)
    if drift is not None and d > 1:
        base, dr = drift
        need_close(what + ': start of the arrows', offsets(pl.quiver), base[:, dims], rtol=1e-12, atol=1e-12)
        need_close(what + ': arrows', np.stack([np.ravel(pl.quiver.U), np.ravel(pl.quiver.V)], -1), -dr[:, dims], rtol=1e-12, atol=1e-12)


def pick_dims(ch, sc):
    d = sc['d']
    every = [list(p) for p in itertools.permutations(range(d), 2)]
    if sc['fam'] == 'off' or sc['kind'] != 'CBO' or sc.get('noise') != 'isotropic':
        every = every[-1:] if d == 2 else [[2, 0]]
    return ch.pick([None] + every if d > 1 else [None], 'dims')


def args(ch, sc, flags=True):
    kw = dict(num_run=ch.pick([0, 1, -1] if sc['M'] == 2 and sc['fam'] == 'history' else list(range(sc['M'])), 'run'), ax=axes(draw=False), objective_args=dict(num_pts=3))
    if kw['num_run'] == 0 and (sc['d'] + len(sc['kind'])) % 2:
        del kw['num_run']
    dims = pick_dims(ch, sc)
    if dims is not None:
        kw['dims'] = dims
    if flags:
        kw['plot_consensus'], kw['plot_drift'] = ch.pick([(True, True), (False, True), (True, False), (False, False)] if dims is None and sc['kind'] in ('CBO', 'PSO', 'PolarCBO') and sc.get('noise', 'isotropic') == 'isotropic' else [(True, True)], 'flags')
    if sc['d'] == 1:
        kw['eval_energy_1d'] = bool(ch.choose(2, 'energy'))
    return kw, dims or [0, 1]


def live(sc, ch, ctx, terminated=False):
    M, d = sc['M'], sc['d']
    sw = env.Switch(M)
    dyn = build(sc, switch=sw)
    kw, dims = args(ch, sc)
    r = kw.get('num_run', 0) % sc['M']
    warm = ch.choose(2, 'steps before the plot') if not terminated else 1
    for _ in range(warm):
        dyn.terminate()
        dyn.step()
    what = '%s %s' % (sc['kind'], {k: v for k, v in kw.items() if k not in ('ax', 'objective_args')})
    pl = pure(what, dyn, lambda: P.PlotDynamic(dyn, **kw))
    pure(what + ' init_plot', dyn, pl.init_plot)
    f = dyn.f
    judge('%s after %d steps, init_plot' % (what, warm), pl, d, dims, np.array(dyn.x)[r], None, None, f, kw.get('eval_energy_1d', True))
    last_c = last_d = None
    for k in range(sc.get('its', 3 if not terminated else 2)):
        offruns = []
        if terminated:
            offruns = ch.pick([[m for m in range(M) if t >> m & 1] for t in range(2 ** M - 1)], 'terminated')
        sw.mask[:] = False
        sw.mask[offruns] = True
        dyn.terminate()
        x = np.array(dyn.x)
        dyn.step()
        pure('%s update' % what, dyn, lambda: pl.update(wait=1e-9))
        if r in offruns:
            judge('%s update %d, runs %s terminated' % (what, k + 1, offruns), pl, d, dims, x[r], None, None, f, kw.get('eval_energy_1d', True))
        else:
            row = [m for m in range(M) if m not in offruns].index(r)
            idx = env.sel(dyn, dyn.particle_idx)[row] % sc['N']
            c = np.asarray(dyn.consensus)[row] if kw['plot_consensus'] else None
            dr = (x[r][idx], np.asarray(dyn.drift)[row]) if kw['plot_drift'] else None
            judge('%s update %d, runs %s terminated' % (what, k + 1, offruns), pl, d, dims, x[r], c, dr, f, kw.get('eval_energy_1d', True))
        ctx.step()
        ctx.state(sc['kind'], str(kw.get('dims')), r, k, env.public(env.snap(dyn)))
    plt.sca(kw['ax'])


def off(sc, ch, ctx):
    live(sc, ch, ctx, terminated=True)


def history(sc, ch, ctx):
    M, d = sc['M'], sc['d']
    kw, dims = args(ch, sc)
    names = ['x', 'consensus', 'drift']
    drop = ch.pick([None, 'consensus', 'drift'], 'not tracked') if dims == [0, 1] and d == 2 and sc['kind'] in ('CBO', 'AdamCBO') and sc.get('noise') == 'isotropic' and not sc.get('batch') else None
    if drop:
        names.remove(drop)
    dyn = build(sc, track=names)
    n = sc.get('its', 3)
    for _ in range(n):
        dyn.terminate()
        dyn.step()
    r = kw.get('num_run', 0) % sc['M']
    what = 'history of %s %s' % (sc['kind'], {k: v for k, v in kw.items() if k not in ('ax', 'objective_args')})
    H = {k: [np.array(e) for e in v] for k, v in dyn.history.items() if k in ('x', 'consensus', 'drift')}
    pidx = dyn.history.get('particle_idx')
    own = None
    if sc['kind'] == 'CBO' and dims == [0, 1] and ch.choose(2, 'particles'):
        own = [e + 10. for e in H['x']]
        kw['particles'] = own
    X = own or H['x']
    pl = pure(what, dyn, lambda: P.PlotDynamicHistory(dyn, **kw))
    need(pl.max_it == len(X) - 1, '%s: max_it is %s' % (what, pl.max_it))

    def look(tag, i):
        c = H['consensus'][i][r] if kw['plot_consensus'] and 'consensus' in H else None
        dr = None
        if kw['plot_drift'] and 'drift' in H:
            idx = env.sel(dyn, pidx[i])[r] % sc['N']
            dr = (X[i][r][idx], H['drift'][i][r])
        judge('%s %s' % (what, tag), pl, d, dims, X[i][r], c, dr, dyn.f, kw.get('eval_energy_1d', True))
    look('at the start', 0)
    for k in range(3):
        i = ch.choose(n, 'index') if k < (2 if sc['kind'] in ('CBO', 'PolarCBO') and sc.get('noise') == 'isotropic' else 1) else (i + k) % n
        pure(what, dyn, lambda: pl.plot_at_ind(i))
        look('at index %d' % i, i)
        ctx.step()
        ctx.state(sc['kind'], str(kw.get('dims')), r, i, k)
    pl.plot_particles(X[n])
    judge(what + ' at the last entry', pl, d, dims, X[n][r], None, None, dyn.f, kw.get('eval_energy_1d', True))


def runs(sc, ch, ctx):
    """run_plots shows every freq-th iteration, in order, under its title."""
    dyn = build(sc, track=['x', 'consensus', 'drift'])
    n = sc.get('its', 5)
    for _ in range(n):
        dyn.terminate()
        dyn.step()
    kw, dims = args(ch, sc)
    r = kw.get('num_run', 0) % sc['M']
    freq = ch.pick([1, 2, 3, 5, 'default'], 'freq')
    save = ch.choose(2, 'save')
    pl = P.PlotDynamicHistory(dyn, **kw)
    seen, saved = [], []
    pause, savefig = plt.pause, plt.savefig

    def look(*a, **k):
        seen.append(pl.ax.get_title())
        i = int(pl.ax.get_title().split()[-1])
        judge('run_plots at %d' % i, pl, 2, dims, dyn.history['x'][i][r], dyn.history['consensus'][i][r] if kw['plot_consensus'] else None,
              (dyn.history['x'][i][r], dyn.history['drift'][i][r]) if kw['plot_drift'] else None, dyn.f)
    plt.pause, plt.savefig = look, lambda fname, **k: saved.append((fname, k))
    try:
        a = {} if freq == 'default' else dict(freq=freq)
        pl.run_plots(wait=1e-9, save_args=dict(fname='out_', dpi=50) if save else None, **a)
    finally:
        plt.pause, plt.savefig = pause, savefig
    want = [i for i in range(n) if i % (5 if freq == 'default' else freq) == 0]
    need([int(t.split()[-1]) for t in seen] == want, 'run_plots(freq=%s) shows %s' % (freq, seen))
    need(saved == ([('out_%d.png' % i, dict(dpi=50)) for i in want] if save else []), 'run_plots(freq=%s) saves %s' % (freq, saved))
    ctx.step()
    ctx.state('runs', freq, save, r)


def history_off(sc, ch, ctx):
    """Known finding: recorded consensus points of the active runs only, indexed by the number of the run."""
    sw = env.Switch(2)
    dyn = build(sc, track=['x', 'consensus'], switch=sw)
    dyn.terminate()
    dyn.step()
    sw.mask[0] = True
    dyn.terminate()
    dyn.step()
    pl = P.PlotDynamicHistory(dyn, num_run=1, ax=axes(), objective_args=dict(num_pts=3), plot_consensus=True)
    pl.plot_at_ind(1)
    judge('history of a terminated run', pl, 2, [0, 1], dyn.history['x'][1][1], np.asarray(dyn.consensus)[0], None, dyn.f)
    ctx.step()
    ctx.state('history-off')
