"""Sessions whose noise, batches and activity are given per labelled particle, so that two differently arranged
dynamics can be driven with the same noise and compared."""
import numpy as np

from . import dyns, env, lock
from .core import Violation
from .env import need


def vec(d, *key):
    h = 0
    for k in key:
        h = (h * 1000003 + int(k) + 12345) % 2147483647
    return env.generic(d, h % 100003) * 1.4


class Keyed(lock.Session):
    """runs[m] = label of run m, parts[m][n] = label of particle n of run m."""

    def __init__(self, sc, ch, ctx, x, runs, parts=None, mute_draws=False, script=None, amp=1., **kw):
        self.runs = list(runs)
        N = x.shape[1]
        self.parts = parts if parts is not None else [list(range(N))] * len(self.runs)
        self.mute, self.amp = mute_draws, amp
        self.script = None
        super().__init__(sc, ch, ctx, x=x, **kw)
        if script is not None:
            self.install(script)

    def install(self, script):
        """script(step) -> {run position: list of particle positions}: the batches of the coming steps."""
        dyn = self.dyn
        self.t = 0

        def set_batch_idx():
            b = script(self.t)
            self.t += 1
            act = np.asarray(dyn.active_runs_idx)
            cols = np.array([b[m] for m in act])
            rows = np.repeat(act[:, None], cols.shape[1], axis=1)
            dyn.consensus_idx = (rows, cols, Ellipsis)
            dyn.particle_idx = dyn.consensus_idx if dyn.batch_partial else (dyn.active_runs_idx, Ellipsis)
        dyn.set_batch_idx = set_batch_idx

    def _provide(self, k, size):
        dyn = self.dyn
        d = tuple(self.shape[2:])
        n = k - self.n0
        g = env.sel(dyn, dyn.particle_idx)
        out = np.empty(size)
        if tuple(size) == g.shape + d and not self.mute:
            for i, j in np.ndindex(*g.shape):
                m, p = divmod(int(g[i, j]), self.N)
                out[i, j] = vec(d, self.runs[m], self.parts[m][p], n, self.k)
        elif self.mute and tuple(size[2:]) == d:
            # only the particle position matters: the same answer whatever run asks and whenever
            if tuple(size[:2]) == g.shape:
                cols = g % self.N
            else:
                cols = np.tile(np.arange(size[1]), (size[0], 1))
            for i, j in np.ndindex(*cols.shape):
                out[i, j] = vec(d, 5, cols[i, j], 0, 0)
        else:
            raise Violation('noise of shape %s sampled for updated particles %s of shape %s' % (size, g.tolist(), d))
        return out * self.amp

    def step(self, terminated=()):
        return super().step(terminated, pattern='gen')


def plateau(x):
    return np.floor(2 * np.abs(x).sum(tuple(range(2, x.ndim)))) / 2


def walls(f):
    """Objective with an infinite region (never all of a generic ensemble)."""
    def g(x):
        ax = tuple(range(2, x.ndim))
        return np.where(x.sum(ax) > 0.9 * np.sqrt(np.prod(x.shape[2:])), np.inf, f(x))
    return g


def fun(name, nd):
    q = env.quad(nd)
    return {'quad': q, 'plateau': lambda x: np.floor(2 * np.abs(x).sum(tuple(range(-nd, 0)))) / 2,
            'walls': lambda x: np.where(x.sum(tuple(range(-nd, 0))) > 0.9, np.inf, q(x)),
            'holes': lambda x: np.where(x.sum(tuple(range(-nd, 0))) > 0.9, np.nan, q(x))}[name]
