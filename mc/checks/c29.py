"""Success evaluation: every placement of the best particles, every list of criteria, every norm and shape."""
import contextlib
import io
import itertools
import math

import numpy as np

import cbx.dynamics as D
from cbx.utils import success as S

from .. import dyns, env
from ..env import need, need_close, need_equal

ID, LEVEL = 'C29', 'exploration'
RULE = ('every assignment of best particles (inside, exactly at, outside the tolerance, exactly minimal) to the runs x norm x tolerance x particle '
        'shape; every list of up to three criteria; every kind of dynamic after a real run; some runs already terminated; compared with scalar formulas')
BOUNDS = 'M<=4, particle shapes (1), (2), (3), (2,2), (2,1), (1,2), (1,1); tolerances and thresholds hit exactly; M=6 with at most three deviations'
ASSUMPTIONS = ['numpy dynamics']

SHAPES = [(2,), (1,), (3,), (2, 2), (2, 1), (1, 2), (1, 1), (7,), (3, 2, 2)]
INF = float('inf')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for M in (1, 2, 3) + ((4,) if th else ()):
        for i in range(len(SHAPES)):
            for fam in ('dist', 'value', 'lists'):
                out.append(dict(fam=fam, M=M, sh=i))
    for i in (0, 3, 7, 8):
        for fam in ('dist', 'value', 'lists'):
            out.append(dict(fam=fam, M=6, sh=i, dev=3 if fam != 'lists' else 2))
    for s in dyns.kinds(rich=th):
        out.append(dict(s, fam='real', d=2))
    return out


def norm(v, p):
    v = [abs(float(c)) for c in np.ravel(v)]
    if p == INF:
        return max(v)
    return sum(c ** p for c in v) ** (1 / p)


def run(sc, ch, ctx):
    return dict(dist=dist, value=value, lists=lists, real=real)[sc['fam']](sc, ch, ctx)


def dynamic(M, sh, ch, f=None, f_dim='3D'):
    """A dynamic of which some runs are already terminated: success concerns all runs."""
    sw = env.Switch(M)
    dyn = D.CBO(f or env.quad(len(sh)), x=env.generic((M, 2) + sh, 3), f_dim=f_dim, verbosity=0, term_criteria=[sw])
    sw.mask[:] = ch.pick([[False] * M, [True] + [False] * (M - 1)] + [[True] * (M - 1) + [i == 0] for i in range(2) if M > 1 and (i == 0 or M > 2)], 'terminated')
    if sw.mask.any():
        dyn.terminate()
    return dyn


def judge(what, res, want, M):
    need(sorted(int(i) for i in res['idx']) == want, '%s lists the runs %s, expected %s' % (what, list(map(int, res['idx'])), want))
    need(len(res['idx']) == len(want), '%s lists a run twice' % what)
    need(res['num'] == len(want), '%s: number %s, expected %d' % (what, res['num'], len(want)))
    need_close('%s: rate' % what, np.array(float(res['rate'])), np.array(len(want) / M), rtol=1e-12)


def pure(dyn, fun, what, printed=False):
    a = env.snap(dyn)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fun()
    if not printed:
        need(buf.getvalue() == '', '%s prints %r' % (what, buf.getvalue()[:60]))
    b = env.snap(dyn)
    for k in a:
        if a[k] is not None:
            need_equal('%s changes %s' % (what, k), b[k], a[k])
    return r


def directions(sh):
    n = int(np.prod(sh))
    e = np.zeros(n)
    e[0] = 1.
    l = np.zeros(n)
    l[-1] = -1.
    q = np.where(np.arange(n) % 2, -1., 1.)
    return [v.reshape(sh) for v in (e, l, q)]


def dist(sc, ch, ctx):
    M, sh = sc['M'], SHAPES[sc['sh']]
    dyn = dynamic(M, sh, ch)
    xt = [np.zeros(sh), env.generic(sh, 4)][ch.choose(2, 'minimiser')]
    p = ch.pick(['default', INF, 2, 1, 3], 'p')
    tol = ch.pick(['default', .5, 1e-3], 'tol')
    T, P = .25 if tol == 'default' else tol, INF if p == 'default' else p
    want, offs = [], []
    letters = [0., .5, 1., 2.] if np.all(xt == 0) else [0., .99, 1.01, 1e6]
    for m in range(M):
        a = ch.pick(letters if M < 3 else letters[1:3], 'distance of run %d' % m)
        u = directions(sh)[m % 3 if M > 1 else ch.choose(3, 'direction')]
        off = u * (a * T / norm(u, P)) if P == INF or norm(u, P) == 1 else u * (a * T / norm(u, P))
        dyn.best_particle[m] = xt + off
        r = norm(dyn.best_particle[m] - xt, P)
        offs.append(r)
        if a == 1. and (r != T or not (P == INF or P in (1, 2) and np.count_nonzero(u) == 1)):  # rounding decides
            return
        if r < T:
            want.append(m)
    kw = {}
    if p != 'default':
        kw['p'] = p
    if tol != 'default':
        kw['tol'] = tol
    what = 'dist_to_min(%s) of %s particles at distances %s' % (kw, sh, offs)
    res = pure(dyn, lambda: S.dist_to_min(xt, **kw)(dyn), what)
    judge(what, res, want, M)
    need_close(what + ': distances', np.asarray(res['normdiff']), np.array(offs), rtol=1e-12, atol=1e-14)
    judge('dist_to_min_success', S.dist_to_min_success(dyn.best_particle, xt, **kw), want, M)
    seval = S.evaluation([S.dist_to_min(xt, **kw)], verbosity=0)
    judge('evaluation of ' + what, pure(dyn, lambda: seval(dyn), what), want, M)
    ctx.case((M, sh, p, tol, tuple(offs)), bool(want) and len(want) < M)
    if len(ctx.samples) < 3:
        ctx.sample('%s -> %s' % (what, want))


def value(sc, ch, ctx):
    M, sh = sc['M'], SHAPES[sc['sh']]
    fdim = ch.pick(['3D'] + (['1D', '2D'] if len(sh) == 1 else []), 'f_dim')
    nd = len(sh)

    def f3(x):
        return np.asarray(x).sum(axis=tuple(range(-nd, 0)))
    f1 = lambda x: float(np.sum(x))
    dyn = dynamic(M, sh, ch, f1 if fdim == '1D' else (lambda x: x.sum(-1)) if fdim == '2D' else f3, fdim)
    th = ch.pick(['default', .5, -2., 0.], 'threshold')
    T = .1 if th == 'default' else th
    want = []
    for m in range(M):
        a = ch.pick([T - 1., T - 2 ** -10, T, T + 2 ** -10, T + 3.] if M < 3 else [T - 2 ** -10, T, T + 1], 'value of run %d' % m)
        b = np.zeros(sh)
        b[(0,) * nd] = a
        dyn.best_particle[m] = b
        if a < T:
            want.append(m)
    kw = {} if th == 'default' else dict(thresh=th)
    what = 'value_thresh(%s) of %s particles (%s)' % (kw, sh, fdim)
    judge(what, pure(dyn, lambda: S.value_thresh(**kw)(dyn), what), want, M)
    judge('value_success', S.value_success(dyn.best_particle[:, None, ...], dyn.f, **kw), want, M)
    seval = S.evaluation([S.value_thresh(**kw)], verbosity=0)
    judge('evaluation of ' + what, pure(dyn, lambda: seval(dyn), what), want, M)
    ctx.case((M, sh, fdim, th, tuple(want)), bool(want) and len(want) < M)


def lists(sc, ch, ctx):
    """Combined evaluation of criteria that succeed for any runs."""
    M, sh = sc['M'], SHAPES[sc['sh']]
    dyn = dynamic(M, sh, ch)
    k = ch.choose(4 if M < 3 else 6 if M > 4 else 3, 'criteria')
    sets, crits = [], []
    for i in range(k):
        mask = ch.choose(2 ** M, 'runs of criterion %d' % i)
        want = [m for m in range(M) if mask >> m & 1]
        order = want[::-1] if i % 2 else want
        how = ['list', 'array', 'dist'][(i + k) % 3]
        if how == 'dist' and 'dist' not in [c[0] for c in crits]:
            dyn.best_particle[...] = 10.
            dyn.best_particle[want] = 0.
            c = S.dist_to_min(np.zeros(sh))
        else:
            how = 'list' if how == 'dist' else how
            ids = list(order) if how == 'list' else np.array(order, dtype=int)
            c = lambda d, ids=ids, n=len(want): dict(idx=ids, num=n, rate=n / M)
        sets.append(set(want))
        crits.append((how, c))
    want = sorted(set(range(M)).intersection(*sets)) if sets else list(range(M))
    v = ch.pick([0, 1, 'default'], 'verbosity')
    seval = S.evaluation([c for _, c in crits]) if v == 'default' else S.evaluation([c for _, c in crits], verbosity=v)
    what = 'evaluation of %s with verbosity %s' % ([sorted(s) for s in sets], v)
    for _ in range(2):
        judge(what, pure(dyn, lambda: seval(dyn), what, printed=v != 0), want, M)
    ctx.case((M, sh, k, tuple(map(tuple, sets)), v), bool(want) and len(want) < M)


def real(sc, ch, ctx):
    M = 3
    sc = dict(sc, M=M, N=4, alpha=5., max_it=4)
    nz = env.Noise(lambda k, size: env.generic(size, 40 + k))
    f = env.quad(1)
    from cbx.utils.termination import max_it_term
    stop = ch.pick([[4, 4, 4], [1, 4, 2], [0, 3, 3], [2, 2, 9]], 'iterations of the runs')
    dyn = dyns.build(sc, f, sampler=nz, term_criteria=[max_it_term(4), lambda dyn: np.array([dyn.it >= k for k in stop])])
    nz.live = True
    dyn.optimize()
    judge('%s after runs ended at %s' % (sc['kind'], stop), pure(dyn, lambda: S.evaluation([], verbosity=0)(dyn), 'evaluation'), [0, 1, 2], M)
    b = np.array(dyn.best_particle)
    xt = b[1] + .01
    vals = [float(f(b[m][None, None])[0, 0]) if 'RegComb' not in sc['kind'] else float(dyn.f(b[m][None, None])[0, 0]) for m in range(M)]
    for p in (INF, 2, 1):
        ds = [norm(b[m] - xt, p) for m in range(M)]
        for tol in sorted(ds) + [1e-9, 1e3]:
            tol = tol * (1 + 1e-9)
            c = S.dist_to_min(xt, tol=tol, p=p)
            want = [m for m in range(M) if ds[m] < tol]
            judge('%s: distances %s < %s' % (sc['kind'], ds, tol), pure(dyn, lambda: c(dyn), 'dist_to_min'), want, M)
            for th in sorted(vals):
                th = th + 1e-9
                v = S.value_thresh(thresh=th)
                w2 = [m for m in range(M) if vals[m] < th]
                judge('%s: values %s < %s' % (sc['kind'], vals, th), pure(dyn, lambda: v(dyn), 'value_thresh'), w2, M)
                e = S.evaluation([c, v], verbosity=0)
                judge('%s: combined' % sc['kind'], pure(dyn, lambda: e(dyn), 'evaluation'), sorted(set(want) & set(w2)), M)
                ctx.case((sc['kind'], tuple(stop), p, round(tol, 9), round(th, 9)), bool(set(want) & set(w2)))
