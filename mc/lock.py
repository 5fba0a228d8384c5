"""A session drives one real dynamic step by step; every step is recorded for a lockstep comparison."""
import numpy as np

from . import dyns, env, ref
from .core import Violation
from .env import need, need_close, need_equal, snap

PATTERNS = {
    'zero': lambda size, k: np.zeros(size),
    'gen': lambda size, k: env.generic(size, 100 + k),
    'big': lambda size, k: env.generic(size, 200 + k, 3.0),
    'one': lambda size, k: np.ones(size),
    'neg': lambda size, k: -1.5 * np.ones(size),
}


class Step:
    pass


class Session:
    def __init__(self, sc, ch, ctx, fun=None, x=None, patterns=('gen',), dyn=None, switch=None, lazy=None, **over):
        self.sc, self.ch, self.ctx = sc, ch, ctx
        self.shape = dyns.shape(sc)
        self.M, self.N = self.shape[:2]
        self.nd = dyns.nd(sc)
        self.patterns = patterns
        self.noise = env.Noise(self._provide)
        self.f = lazy if lazy is not None else env.Rec(fun or dyns.objective(sc), self.nd)
        if lazy is not None:
            lazy.nd = self.nd
            lazy.tol = tol(sc)['rtol'] if tol(sc)['rtol'] > 1e-7 else 1e-9
            g = env.generic(self.shape, 991)
            lazy.dead = {lazy.key(g[m, n]) for m in range(self.M) for n in range(self.N)}
            lazy.live = True
        self.switch = switch or env.Switch(self.M)
        self.dyn = dyns.build(sc, self.f, x=x, sampler=self.noise, switch=self.switch, **over)
        self.noise.live = True
        self.k = 0
        self.pat = None

    def _provide(self, k, size):
        if self.pat is None:
            raise Violation('noise is sampled outside of a step')
        return PATTERNS[self.pat](size, 10 * self.k + len(self.noise.calls) - self.n0)

    def value(self, p):
        if isinstance(self.f, env.Lazy):
            return self.f.value(p)
        return float(self.f.fun(np.asarray(p)[(None,) * 2])[0, 0])

    def step(self, terminated=(), pattern=None, idx=True):
        """One step with the given runs terminated; returns the record."""
        sc, dyn = self.sc, self.dyn
        r = Step()
        self.n0 = len(self.noise.calls)
        r.f0 = len(self.f.calls)
        terminated = list(terminated)
        done = dyns.set_active(dyn, self.switch, terminated)
        need(not done, 'terminate() reports that all runs are done while only %s met a criterion' % terminated)
        r.active = [m for m in range(self.M) if m not in terminated]
        need_equal('active_runs_idx', np.asarray(dyn.active_runs_idx), np.array(r.active))
        self.pat = pattern or self.ch.pick(self.patterns, 'noise')
        r.pre = snap(dyn)
        dyn.step()
        r.post = snap(dyn)
        r.zs = self.noise.calls[self.n0:]
        r.fcalls = self.f.calls[r.f0:]
        self.k += 1
        self.ctx.step()
        self.ctx.state(self.sc.get('kind'), env.public(r.post))
        if idx:
            self._indices(r)
        return r

    def _indices(self, r):
        dyn = self.dyn
        try:
            c, p = env.sel(dyn, dyn.consensus_idx), env.sel(dyn, dyn.particle_idx)
        except Exception as e:
            raise Violation('the selected particle indices do not fit the ensemble: %s' % e)
        need(c.ndim == 2 and p.ndim == 2, 'selected indices are not (runs, particles)')
        r.csel, r.psel = {}, {}
        for g, name, out in ((c, 'consensus', r.csel), (p, 'update', r.psel)):
            need(g.shape[0] == len(r.active), '%s selection covers %d runs, %d are active' % (name, g.shape[0], len(r.active)))
            for a, m in enumerate(r.active):
                need(np.all(g[a] // self.N == m), '%s selection of active run %d belongs to runs %s' % (name, m, sorted(set((g[a] // self.N).tolist()))))
                out[m] = (g[a] % self.N).tolist()

    def draws(self, r, m, n=None):
        """The sampled vectors of run m in the order of its updated particles, one array per draw."""
        a = r.active.index(m)
        A, P = len(r.active), len(r.psel[m])
        out = []
        for z in r.zs:
            if z.shape == (A, P) + self.shape[2:]:
                out.append(z[a])
            elif z.shape == self.shape:
                out.append(z[m][r.psel[m]])
            else:
                raise Violation('noise of shape %s sampled for %s updated particles' % (z.shape, (A, P) + self.shape[2:]))
        if n is not None:
            need(len(out) >= n, 'only %d noise draws, %d needed' % (len(out), n))
        return out

    def consensus(self, r, m):
        """Observed consensus of run m after the step (particle-independent dynamics)."""
        c = r.post.get('consensus')
        need(c is not None, 'no consensus after a step')
        need(c.shape[0] == len(r.active), 'consensus has %d rows for %d active runs' % (c.shape[0], len(r.active)))
        return c[r.active.index(m)]

    def expect(self, r, m, observed_consensus=False, pre=None):
        c = None
        if observed_consensus:
            c = self.consensus(r, m)
            if self.sc['kind'] != 'PolarCBO':
                c = c[0]
        nd = 2 if self.sc['kind'] in ('CBOMemory', 'PSO') else 1
        return ref.step(self.sc, pre or r.pre, m, r.csel[m], r.psel[m], self.draws(r, m, nd), self.value, consensus=c)


def frozen(r, M, names=('x', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'y')):
    """Runs that are not active keep everything."""
    for m in range(M):
        if m in r.active:
            continue
        for k in names:
            if r.pre.get(k) is not None and r.post.get(k) is not None and r.pre[k].ndim:
                need_equal('%s of terminated run %d' % (k, m), r.post[k][m], r.pre[k][m])


def acts(ch, M, label='active'):
    """Any proper subset of runs is terminated (an environment choice)."""
    subs = list(dyns.subsets(M)) if M < 4 else [[], [0], [M - 1], [1, M - 1], list(range(M - 1))]
    return subs[ch.choose(len(subs), label)]


def tol(sc, rtol=1e-8, atol=1e-9):
    """Comparison tolerance: the root of a rank-deficient covariance amplifies rounding to about 1e-8."""
    if sc.get('noise') in ('covariance', 'sampling') or sc['kind'] == 'CBS':
        return dict(rtol=3e-6, atol=3e-6)
    if sc['kind'] == 'AdamCBO':  # rounding of a vanishing drift is divided by its own size plus 1e-8
        return dict(rtol=max(rtol, 1e-6), atol=max(atol, 1e-6))
    return dict(rtol=rtol, atol=atol)
