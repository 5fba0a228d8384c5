"""The environment the dynamics run in, owned by the harness: noise, objective, activity, batches."""
import numpy as np

from .core import Violation

RTOL, ATOL = 1e-8, 1e-10


def generic(shape, key=0, scale=1.0):
    """A deterministic array of generic (pairwise distinct, no special structure) values in [-scale, scale]."""
    n = int(np.prod(shape, dtype=int)) if len(shape) else 1
    k = np.arange(1, n + 1, dtype=float)
    v = np.sin(k * 12.9898 + (key + 1) * 78.233) * 43758.5453
    return (2 * (v - np.floor(v)) - 1).reshape(shape) * scale


def as_np(a):
    if hasattr(a, 'detach'):
        return a.detach().cpu().numpy()
    return np.asarray(a)


def close(a, b, rtol=RTOL, atol=ATOL):
    a, b = as_np(a), as_np(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need_close(what, got, want, rtol=RTOL, atol=ATOL):
    if got is None:
        raise Violation('%s is missing (None)' % what)
    g, w = as_np(got), as_np(want)
    if g.shape != w.shape:
        raise Violation('%s has shape %s, expected %s' % (what, g.shape, w.shape))
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        with np.errstate(all='ignore'):
            bad = np.argwhere(~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        i = tuple(bad[0]) if len(bad) else ()
        raise Violation('%s%s is %r, expected %r' % (what, list(map(int, i)), g[i].item(), w[i].item()))


def need_equal(what, got, want):
    g, w = as_np(got), as_np(want)
    if g.shape != w.shape:
        raise Violation('%s has shape %s, expected %s' % (what, g.shape, w.shape))
    same = (g == w) | ((g != g) & (w != w))
    if not np.all(same):
        i = tuple(np.argwhere(~same)[0])
        raise Violation('%s%s is %r, must be exactly %r' % (what, list(map(int, i)), g[i], w[i]))


def need(cond, msg):
    if not cond:
        raise Violation(msg)


class Switch:
    """A termination criterion whose verdict the harness sets."""

    def __init__(self, M):
        self.mask = np.zeros(M, dtype=bool)
        self.calls = 0

    def __call__(self, dyn):
        self.calls += 1
        return self.mask.copy()


class Noise:
    """A scripted sampler.  provider(k, size) gives the k-th answer of the live phase."""

    def __init__(self, provider=None):
        self.provider = provider
        self.calls = []
        self.live = False

    def __call__(self, size=None):
        size = tuple(size)
        if not self.live:
            return generic(size, 991)
        z = self.provider(len(self.calls), size) if self.provider else generic(size, 17 + len(self.calls))
        self.calls.append(np.array(z, dtype=float))
        return np.array(z, dtype=float)


class Rec:
    """Objective on ensembles that records every call.  fun maps (..., *d) -> (...)."""

    def __init__(self, fun, nd=1):
        self.fun = fun
        self.nd = nd
        self.calls = []

    def __call__(self, x):
        self.calls.append(np.array(as_np(x), dtype=float))
        return self.fun(x)


class Lazy:
    """A pure objective whose value at every new point is an environment choice."""

    def __init__(self, ch, alphabet, nd=1, budget=None, ints=False):
        self.ch, self.alphabet, self.nd = ch, alphabet, nd
        self.ints = ints  # answer with an integer array whenever all values are integers
        self.budget = budget  # free choices; afterwards the first letter answers
        self.dead = None  # points of the construction-time shape check: no choice
        self.memo = {}
        self.calls = []
        self.live = False
        self.tol = 1e-9
        self.order = []

    def key(self, p):
        return (np.round(np.asarray(p, dtype=float), 9) + 0.).tobytes()

    def value(self, p):
        k = self.key(p)
        if k in self.memo:
            return self.memo[k]
        # rounding boundary: look for a neighbour
        for q, v in self.order:
            if np.allclose(q, p, rtol=self.tol, atol=self.tol):
                return v
        raise Violation('the objective was never evaluated at %s' % np.asarray(p).tolist())

    def known(self, p):
        return self.key(p) in self.memo

    def __call__(self, x):
        if hasattr(x, 'detach'):
            import torch
            return torch.tensor(self(as_np(x)), dtype=x.dtype)
        x = np.asarray(x)
        self.calls.append(np.array(x, dtype=float))
        lead = x.shape[:x.ndim - self.nd]
        out = np.empty(lead)
        for i in np.ndindex(*lead):
            k = self.key(x[i])
            if k not in self.memo:
                if not self.live or (self.dead is not None and self.key(x[i]) in self.dead):
                    v = 1. if self.ints else 0.5
                elif self.budget is not None and self.budget <= 0:
                    v = self.alphabet[0]
                else:
                    if self.budget is not None:
                        self.budget -= 1
                    v = self.alphabet[self.ch.choose(len(self.alphabet), 'f')]
                self.memo[k] = v
                self.order.append((np.array(x[i]), v))
            out[i] = self.memo[k]
        if self.ints and np.isfinite(out).all() and (out == np.round(out)).all():
            return out.astype(int)
        return out


def quad(nd=1, shift=0.3, seed=5):
    """A generic smooth multimodal objective; works on numpy and torch arrays alike, pointwise."""
    def f(x):
        ax = tuple(range(-nd, 0))
        d = x.shape[-nd:]
        b = generic(d, seed, 0.4)
        a = 1 + 0.5 * generic(d, seed + 1)
        if hasattr(x, 'detach'):
            import torch
            b, a = torch.tensor(b, dtype=x.dtype), torch.tensor(a, dtype=x.dtype)
            return (a * (x - b) ** 2 + shift * torch.sin(3 * x)).sum(dim=ax)
        return (a * (x - b) ** 2 + shift * np.sin(3 * x)).sum(axis=ax)
    return f


def sel(dyn, idx):
    """(rows, cols) a public index of the dynamic selects: list of runs and an array of particle numbers."""
    g = np.arange(dyn.M * dyn.N).reshape(dyn.M, dyn.N)[idx]
    return g


FIELDS = ['x', 'y', 'v', 'm', 'energy', 'consensus', 'best_energy', 'best_particle', 'best_cur_energy',
          'best_cur_particle', 'num_f_eval', 'update_diff', 'alpha', 'it', 't', 'f_min', 'sigma', 'dt', 'lamda',
          'drift']


def snap(dyn, fields=FIELDS):
    out = {}
    for k in fields:
        if hasattr(dyn, k):
            v = getattr(dyn, k)
            if v is None or callable(v):
                out[k] = None
            elif hasattr(v, 'detach'):
                out[k] = v.detach().clone().numpy()
            else:
                out[k] = np.array(v)
    out['active'] = np.array(dyn.active_runs_idx)
    return out


def public(s):
    """The observable part of a snapshot (what users read)."""
    return {k: s[k] for k in ('x', 'y', 'v', 'energy', 'consensus', 'best_energy', 'best_particle', 'num_f_eval',
                              'update_diff', 'it', 't', 'active') if s.get(k) is not None}


CONSTR = {
    'none': None,
    'plane': [dict(name='plane', a=np.array([0.6, -1.1]), b=0.2)],
    'sphere': [dict(name='sphere', r=0.8)],
    'quadric': [dict(name='quadric', A=np.array([[1.2, 0.3], [0.3, 0.7]]), b=np.array([0.1, -0.2]), c=-0.4)],
    'quadric_ns': [dict(name='quadric', A=np.array([[1.2, 0.5], [-0.1, 0.7]]), b=np.array([0.1, -0.2]), c=-0.4)],
    'plane+sphere': [dict(name='plane', a=np.array([0.6, -1.1]), b=0.2), dict(name='sphere', r=0.8)],
    'plane+plane': [dict(name='plane', a=np.array([0.6, -1.1]), b=0.2), dict(name='plane', a=np.array([1., 2.]), b=-.3)],
    'sphere+quadric+plane': [dict(name='sphere', r=0.8),
                             dict(name='quadric', A=np.array([[1.2, 0.3], [0.3, 0.7]]), b=np.array([0.1, -0.2]), c=-0.4),
                             dict(name='plane', a=np.array([0.6, -1.1]), b=0.2)],
}


def constr(name, d=2):
    """The constraint list `name` for dimension d (d=2 tables are extended generically)."""
    c = CONSTR[name]
    if c is None or d == 2:
        return None if c is None else [dict(e) for e in c]
    out = []
    for i, e in enumerate(c):
        e = dict(e)
        if e['name'] == 'plane':
            e['a'] = 1.3 * generic((d,), 40 + i)
        if e['name'] == 'quadric':
            R = generic((d, d), 50 + i)
            e['A'] = R @ R.T * 0.5 + np.eye(d) if name != 'quadric_ns' else R @ R.T * 0.5 + np.eye(d) + 0.3 * np.triu(R)
            e['b'] = generic((d,), 60 + i, 0.3)
        out.append(e)
    return out
