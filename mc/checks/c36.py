"""A dynamic written by the user, by overriding the step, is kept book of like the dynamics of the library."""
import contextlib
import io

import numpy as np

import cbx.dynamics as D
from cbx.dynamics.pdyn import CBXDynamic, ParticleDynamic
from cbx.scheduler import scheduler

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C36', 'model_checking'
RULE = ('base class x shape x whether old positions are kept x save interval; choices: the energies the user step stores, how it moves, step by hand or '
        'optimize(), reset; and the update of the documentation written as a user class against CBO, for every noise, correction and batch, sets of terminated runs')
BOUNDS = ('M<=2, N<=3, 3 steps with energies out of {0, 1, -1, inf} and at most 3 (2 or 1 for larger ensembles, one more thorough) deviations of an energy, a move or the use from the simplest history; M=4, N=9, 10 steps; '
          'user CBO: 3 steps, all proper subsets of terminated runs in at most 2 steps (each step thorough)')
ASSUMPTIONS = ['the energies belong to the positions before the step, unless a user pre-step does not keep these; then to the current ones']
VALUES = [0., -1., 1., float('inf')]


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for base in ('particle', 'cbx'):
        for old in (0, 1) if base == 'particle' else (1,):
            for M, N in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)):
                for d in ((1,), (2,), (2, 2)):
                    for si in (1, 2):
                        dev = (3 if M * N <= 2 else 2 if M * N < 6 else 1) + th
                        if d != (2,) and not th:
                            dev = 2 if M * N <= 2 else 1
                        if d != (2,) and si == 2 and not th:
                            continue
                        out.append(dict(fam='own', base=base, old=old, M=M, N=N, d=list(d), save_int=si, steps=4 if th else 3, dev=dev))
            for si in (1, 3, 4):
                out.append(dict(fam='own', base=base, old=old, M=4, N=9, d=[3], save_int=si, steps=10, dev=1))
    for base in ('particle', 'cbx'):
        for verb in (0, 1):
            for M in (1, 2):
                out.append(dict(fam='loop', base=base, M=M, verbosity=verb))
    for s in dyns.kinds():
        if s['kind'] == 'CBO':
            for i, bt in enumerate(list(dyns.batches(3))):
                out.append(dict(s, fam='doc', M=2 + i % 2, N=3, batch=bt, steps=3, **({} if th else dict(dev=2))))
            out.append(dict(s, fam='doc', M=4, N=9, batch=dict(size=4, partial=True, var='concat', seed=5), steps=10, dev=1))
    return [{k: v for k, v in s.items() if k != 'dev' or v is not None} for s in out]


def own(base, kept, energies, moves, log):
    class Own(base):
        def inner_step(self):
            log.append('inner')
            k = log.count('inner') - 1
            e = energies(k, self.x.shape[:2])
            m = moves(k, self.x.shape)
            self.energy[:] = e
            if k % 2:
                self.x += m  # in place
            else:
                self.x = self.x + m

        def pre_step(self):
            log.append('pre')
            if kept:
                super().pre_step()

        def post_step(self):
            log.append('post')
            super().post_step()
    return Own


def run_own(sc, ch, ctx):
    M, N, d, si = sc['M'], sc['N'], tuple(sc['d']), sc['save_int']
    base = ParticleDynamic if sc['base'] == 'particle' else CBXDynamic
    log, given, pp = [], [], []
    lattice = M * N <= 6

    def energies(k, shape):
        if lattice:
            e = np.array([[ch.pick(VALUES, 'energy %d %d %d' % (k, m, n)) for n in range(N)] for m in range(M)])
        else:
            e = env.generic((M, N), 70 + k) + ch.pick([0., -9., 9.], 'level %d' % k)
        given.append(e)
        return e

    def moves(k, shape):
        return env.generic(shape, 30 + k) * [1., 0., 300.][ch.choose(3, 'move %d' % k)] if not lattice or k else env.generic(shape, 30)

    mode = ch.choose(4, 'post-processing and check')
    kw = dict(post_process=lambda dyn: pp.append(np.array(dyn.x))) if mode % 2 else {}
    if mode >= 2:
        kw['check_f_dims'] = False
    x = env.generic((M, N) + d, 3)
    f = lambda q: (q.reshape(q.shape[0], q.shape[1], -1) ** 2).sum(-1)
    dyn = own(base, sc['old'], energies, moves, log)(f, f_dim='3D', x=x, verbosity=0, max_it=sc['steps'],
                                                     track_args=dict(names=['x', 'energy', 'update_norm', 'best_energy'], save_int=si), **kw)
    start = N if mode < 2 else 0
    need_equal('evaluations at the start', dyn.num_f_eval, np.full(M, start))
    need(np.all(np.isinf(dyn.best_energy)), 'best energy before the first step is %s' % dyn.best_energy)
    want = dict(x=[x.copy()], energy=[], update_norm=[], best_energy=[])
    best, at = np.full(M, np.inf), [[] for _ in range(M)]
    here = x.copy()

    def watch(t, it):
        nonlocal here, best
        new = env.as_np(dyn.x).copy()
        move = new - here
        e = given[t]
        need(log[3 * t:3 * t + 3] == ['pre', 'inner', 'post'] and len(log) == 3 * t + 3, 'the parts of step %d run as %s' % (t + 1, log))
        need(dyn.it == it, 'iteration counter is %s after %d steps' % (dyn.it, it))
        need_equal('stored energies', dyn.energy, e)
        need_equal('smallest energies after step %d' % (t + 1), dyn.f_min, e.min(axis=1))
        need_equal('current best energies', dyn.best_cur_energy, e.min(axis=1))
        pts = here if sc['old'] else new
        for m in range(M):
            cand = [pts[m, n] for n in range(N) if e[m, n] == e[m].min()]
            need(any(np.array_equal(c, dyn.best_cur_particle[m]) for c in cand), 'current best particle of run %d after step %d is %s, it is not one of %s' % (m, t + 1, dyn.best_cur_particle[m], cand))
            if e[m].min() < best[m]:
                best[m], at[m] = e[m].min(), []
            if e[m].min() == best[m]:
                at[m] += cand
            if np.isfinite(best[m]):
                need(any(np.array_equal(c, dyn.best_particle[m]) for c in at[m]), 'best particle of run %d after step %d is %s, it is not one of %s' % (m, t + 1, dyn.best_particle[m], at[m]))
        need_equal('best energies after step %d' % (t + 1), dyn.best_energy, best)
        if sc['old']:
            un = np.array([np.sqrt((move[m] ** 2).sum()) / N for m in range(M)])
            need_close('update norm after step %d' % (t + 1), dyn.update_diff, un)
        else:
            need(np.all(np.isinf(dyn.update_diff)), 'update norm without old positions is %s' % dyn.update_diff)
        if kw.get('post_process'):
            need(len(pp) == t + 1, 'post-processing ran %d times in %d steps' % (len(pp), t + 1))
        need_equal('evaluations', dyn.num_f_eval, np.full(M, start))
        if (it - 1) % si == 0:
            for k, v in dict(x=new, energy=e, update_norm=np.array(dyn.update_diff), best_energy=best.copy()).items():
                want[k].append(np.array(v))
        for k in want:
            need(len(dyn.history[k]) == len(want[k]), 'history of %s has %d entries after %d iterations, expected %d' % (k, len(dyn.history[k]), it, len(want[k])))
            for i, (a, b) in enumerate(zip(dyn.history[k], want[k])):
                need_equal('history[%s][%d]' % (k, i), a, b)
        if base is CBXDynamic:
            need_close('time', dyn.t, it * dyn.dt)
        here = new
        ctx.step()
        ctx.state(sc['base'], sc['old'], it, e, new, best)

    L = sc['steps']
    byhand = ch.choose(3, 'by hand')
    t, it = 0, 0

    class Sched:
        def update(self, dyn):
            nonlocal t, it
            it += 1
            watch(t, it)
            t += 1
    if byhand:
        dyn.step()
        it += 1
        watch(t, it)
        t += 1
    if byhand == 2:
        dyn.reset()
        it = 0
        for k in want:
            want[k] = []
        want['x'] = [here.copy()]
        need(dyn.it == 0, 'iteration counter after reset is %s' % dyn.it)
        need_equal('best energies after reset', dyn.best_energy, best)
    res = dyn.optimize(sched=Sched())
    need(it == L, 'optimize() ends after %d iterations instead of %d' % (it, L))
    need_equal('returned particle', res, dyn.best_particle)
    need_equal('active runs', np.asarray(dyn.active_runs_idx), np.arange(0))
    need([list(r) for r in dyn.term_reason] == [[0]] * M, 'reasons are %s' % dyn.term_reason)
    need_equal('initial array of the user', x, env.generic((M, N) + d, 3))


def run_loop(sc, ch, ctx):
    """Without any inner step: no particle moves, the loop and the output are as for every dynamic."""
    base = ParticleDynamic if sc['base'] == 'particle' else CBXDynamic
    M = sc['M']
    n = ch.choose(4, 'iterations')
    kind = ch.choose(3, 'terms')
    seen = []
    terms = [[dict(name='max-it', max_it=n)], None, [lambda dyn: np.array([dyn.it >= max(0, n - m) for m in range(M)])]][kind]

    class Mine(base):
        def inner_step(self):
            seen.append(('step', np.asarray(self.active_runs_idx).tolist()))
            super().inner_step()

        def post_step(self):
            super().post_step()

    class Sched(scheduler):
        def update(self, dyn):
            seen.append(('sched', dyn.it))
    x = env.generic((M, 2, 2), 6)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        dyn = Mine(env.quad(), f_dim='3D', x=x.copy(), verbosity=sc['verbosity'], term_criteria=terms, **(dict(max_it=n) if terms is None else {}))
        dyn.optimize(sched=Sched([]))
    want = []
    for k in range(n):
        want += [('step', [m for m in range(M) if k < max(0, n - m)] if kind == 2 else list(range(M))), ('sched', k + 1)]
    need(seen == want, 'optimize() runs %s, expected %s' % (seen, want))
    need_equal('particles', dyn.x, x)
    text = out.getvalue()
    need((text == '') if sc['verbosity'] == 0 else 'Mine' in text, 'output with verbosity %d is %r' % (sc['verbosity'], text))
    ctx.step(n)
    ctx.state(sc['base'], M, n, kind, sc['verbosity'], text)


class Documented(CBXDynamic):
    """The update of the user guide, written with the interface offered to users."""

    def inner_step(self):
        self.compute_consensus()
        self.drift = self.x[self.particle_idx] - self.consensus
        self.drift = self.correction(self.drift)
        self.s = self.sigma * self.noise()
        self.x[self.particle_idx] = self.x[self.particle_idx] - self.lamda * self.dt * self.drift + self.s


def run_doc(sc, ch, ctx):
    switches = [env.Switch(sc['M']) for _ in range(2)]
    z = [lambda size=None, c=c: next_noise(c, size) for c in range(2)]
    count = [0, 0]

    def next_noise(c, size):
        count[c] += 1
        return env.generic(size, 40 + count[c])
    pair = [dyns.build(sc, dyns.objective(sc), sampler=z[c], switch=switches[c], cls=cls, track_args=dict(names=['x', 'energy', 'consensus', 'drift', 'update_norm'], save_int=2))
            for c, cls in enumerate((D.CBO, Documented))]
    for t in range(sc['steps']):
        off = lock.acts(ch, sc['M'], 'terminated %d' % t)
        for c in range(2):
            switches[c].mask = np.array([m in off for m in range(sc['M'])])
            pair[c].terminate()
            pair[c].step()
        a, b = pair
        tol = lock.tol(sc, 1e-9, 1e-10)
        for k in ('x', 'energy', 'consensus', 'drift', 'best_particle', 'best_energy', 'update_diff', 'f_min'):
            need_close('%s of the user class after step %d' % (k, t + 1), getattr(b, k), getattr(a, k), **tol)
        need_equal('evaluations', b.num_f_eval, a.num_f_eval)
        need(a.it == b.it and a.t == b.t, 'counters differ')
        for k in a.history:
            if k != 'particle_idx':
                need(len(a.history[k]) == len(b.history[k]), 'lengths of the histories of %s differ' % k)
                for i, (u, v) in enumerate(zip(a.history[k], b.history[k])):
                    need_close('history[%s][%d] of the user class' % (k, i), v, u, **tol)
        ctx.step(2)
        ctx.state('doc', env.public(env.snap(a)))


def run(sc, ch, ctx):
    dict(own=run_own, loop=run_loop, doc=run_doc)[sc['fam']](sc, ch, ctx)
    ctx.sample(str(sc))
