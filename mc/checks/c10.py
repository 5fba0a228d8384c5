"""An ensemble against its runs one by one, on the real dynamics driven with the same noise and batches."""
import numpy as np

from .. import dyns, env, keyed, lock
from ..core import Chooser
from ..env import need, need_close, need_equal

ID, LEVEL = 'C10', 'model_checking'
RULE = ('lattice: every dynamic and variant x shape x batch x objective (smooth, ties, infinite region); choices: terminated '
        'runs at every step (growing); and whole optimisations with per-run criteria and schedules')
BOUNDS = 'M<=3, N<=3, d<=3 and (2,2); 3 steps (4 thorough); optimisations up to 12 steps; copies with M=4, N=9, 8 steps and at most one deviation'
ASSUMPTIONS = ['one-run dynamics are given the batches of the ensemble; update norms are compared for active runs']

NAMES = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for b in dyns.kinds():
        for d in (2, 3, [2, 2]) if not th else (2, 1, 3, 4, [2, 2]):
            s = dyns.dim(b, d)
            if s is None or (d == 3 and 'quadric' in s.get('cons', '')) and not th:
                continue
            bts = [None] if dyns.unbatched(s) else list(dyns.batches(3, partial_only=dyns.partial_only(s)))
            for i, bt in enumerate(bts):
                if not th and (i % 2 if d == 2 else i % 4 if d != 3 else i):
                    continue
                for M in (2, 3):
                    if M == 3 and (i or d != 2) and not th:
                        continue
                    for f in ('quad', 'plateau', 'walls', 'holes'):
                        if f != 'quad' and (i > 2 or d != 2 or M == 3):
                            continue
                        if f == 'holes' and 'nk' in s:  # the polar factor of a non-finite matrix does not exist
                            continue
                        if f in ('walls', 'holes') and (bt or s.get('corr', 'no_correction') != 'no_correction'):
                            continue
                        out.append(dict(s, M=M, N=3, batch=bt, fun=f, depth=4 if th else 3, alpha=[0.7, 6., 50.]))
    for cons in ('none', 'plane', 'sphere'):
        for si in (0.4, 1.2):
            out.append(dict(kind='DriftConstrainedCBO', cons=cons, eps=0.3, M=3, N=3, d=2, noise='isotropic', fun='quad', depth=4,
                            sigma_indep=si, eps_indep=0.3, mute=1, alpha=[0.7, 6., 50.], noise_='indep'))
    for b in dyns.kinds(rich=th):
        if not dyns.unbatched(b):
            for bt in list(dyns.batches(3, partial_only=dyns.partial_only(b)))[1:]:
                out.append(dict(dyns.dim(b, 2), others=1, M=3, N=3, batch=bt, fun='quad', depth=4 if th else 3, alpha=[0.7, 6., 50.]))
    for b in dyns.kinds(rich=False):
        s = dyns.dim(b, 2)
        for crit in (['max-eval', 17], ['max-eval', 26], ['energy-tol', 0.35], ['diff-tol', 0.12], ['energy-stagnation', 3, 0.05]):
            for sched in (None, 'default', 'multiply', 'effective'):
                if sched in ('default', 'effective') and crit[0] != 'diff-tol' and not th:
                    continue
                out.append(dict(s, M=3, N=3, opt=crit, sched=sched, fun='quad', alpha=[0.7, 6., 50.]))
    return dyns.stretch(out, depth=8, skip=('others', 'sigma_indep'))


def rows(d, m):
    return {k: d[k][m] for k in NAMES if d.get(k) is not None and np.asarray(d[k]).ndim}


def compare(sc, m, ens, one, when):
    a, b = rows(ens, m), rows(one, 0)
    need(set(a) == set(b), 'attributes differ: %s' % (set(a) ^ set(b)))
    for k in a:
        if k == 'm' and sc['kind'] == 'PSO':
            continue
        need_close('%s of run %d %s, compared with the run on its own' % (k, m, when), a[k], b[k], **lock.tol(sc, 1e-7, 1e-8))


def start(sc):
    x = dyns.x0(sc)
    if sc.get('mute'):
        x[0] = x[0, :1] + 0.05 * (x[0] - x[0, :1])
    return x


def run(sc, ch, ctx):
    if 'others' in sc:
        return others(sc, ch, ctx)
    if 'opt' in sc:
        return optimise(sc, ch, ctx)
    M, N = sc['M'], sc['N']
    x = start(sc)
    f = keyed.fun(sc['fun'], dyns.nd(sc))
    log = []
    S = keyed.Keyed(sc, ch, ctx, x.copy(), range(M), fun=f, mute_draws=sc.get('mute', False))
    ones = []
    for m in range(M):
        one = dict(sc, M=1, alpha=[sc['alpha'][m]])
        T = keyed.Keyed(one, Chooser(), ctx, x[m:m + 1].copy(), [m], fun=f, mute_draws=sc.get('mute', False))
        if sc.get('batch'):
            T.install(lambda t, m=m: {0: log[-1].csel[m]})
        ones.append(T)
    for m in range(M):
        compare(sc, m, env.snap(S.dyn), env.snap(ones[m].dyn), 'initially')
    live = list(range(M))
    last = [env.snap(o.dyn) for o in ones]
    for s in range(sc['depth']):
        k = ch.choose(2 ** len(live) - 1, 'terminated') if s else 0
        live = [m for i, m in enumerate(live) if not k >> i & 1]
        if not np.isfinite(f(env.as_np(S.dyn.x))).any(axis=1)[live].all():
            return  # no consensus without a finite energy
        r = S.step([m for m in range(M) if m not in live])
        log.append(r)
        for m in live:
            q = ones[m].step()
            last[m] = q.post
            a = live.index(m)
            need_close('consensus of run %d after step %d, compared with the run on its own' % (m, s + 1),
                       r.post['consensus'][a], q.post['consensus'][0], **lock.tol(sc, 1e-7, 1e-8))
            need_close('update norm of run %d after step %d' % (m, s + 1), r.post['update_diff'][m], q.post['update_diff'][0], **lock.tol(sc, 1e-7, 1e-8))
            need(q.csel[0] == list(r.csel[m]) or not sc.get('batch'), 'harness: batches differ')
        for m in range(M):
            compare(sc, m, r.post, last[m], 'after step %d' % (s + 1))
        if not np.all(np.isfinite(r.post['energy']).any(axis=1)):
            return
    ctx.sample('%s -> x=%s' % (sc, r.post['x'].round(3).tolist()))


def others(sc, ch, ctx):
    """With its own random batches: a run does the same whether or not other runs terminate."""
    M = sc['M']
    x = dyns.x0(sc)
    f = keyed.fun(sc['fun'], dyns.nd(sc))
    A = keyed.Keyed(sc, Chooser(), ctx, x.copy(), range(M), fun=f)
    B = keyed.Keyed(sc, ch, ctx, x.copy(), range(M), fun=f)
    live = list(range(M))
    for s in range(sc['depth']):
        k = ch.choose(2 ** len(live) - 1, 'terminated') if s else 0
        live = [m for i, m in enumerate(live) if not k >> i & 1]
        a = A.step()
        b = B.step([m for m in range(M) if m not in live])
        for m in live:
            when = 'after step %d, runs %s active, compared with all runs active' % (s + 1, live)
            need(list(a.csel[m]) == list(b.csel[m]) and list(a.psel[m]) == list(b.psel[m]), 'run %d selects %s instead of %s %s' % (m, b.csel[m], a.csel[m], when))
            u, v = rows(b.post, m), rows(a.post, m)
            for n in u:
                if not (n == 'm' and sc['kind'] == 'PSO'):
                    need_close('%s of run %d %s' % (n, m, when), u[n], v[n], **lock.tol(sc, 1e-7, 1e-8))
    ctx.sample('%s batches %s -> live %s' % (sc['kind'], sc['batch'], live))


def crit(c):
    if c[0] == 'max-eval':
        return dict(name='max-eval', max_eval=c[1])
    if c[0] == 'energy-tol':
        return dict(name='energy-tol', energy_tol=c[1])
    if c[0] == 'diff-tol':
        return dict(name='diff-tol', diff_tol=c[1])
    return dict(name='energy-stagnation', patience=c[1], std_thresh=c[2])


def optimise(sc, ch, ctx):
    """optimize() of the ensemble against optimize() of each run."""
    from cbx.scheduler import scheduler, multiply
    M, N = sc['M'], sc['N']
    x = start(sc)
    res = []
    for runs in [list(range(M))] + [[m] for m in range(M)]:
        steps = []
        one = dict(sc, M=len(runs), alpha=[sc['alpha'][m] for m in runs])
        noise = env.Noise()
        f = env.Rec(keyed.fun(sc['fun'], 1), 1)
        from cbx.utils.termination import select_term
        terms = [select_term(crit(sc['opt'])), select_term(dict(name='max-it', max_it=12))]
        dyn = dyns.build(one, f, x=x[runs].copy(), sampler=noise, term_criteria=terms, max_it=12)
        its = np.zeros(len(runs), dtype=int)

        def provide(k, size):
            g = env.sel(dyn, dyn.particle_idx)
            out = np.empty(size)
            n = len(noise.calls) - mark[0]
            for i, j in np.ndindex(*g.shape):
                m, p = divmod(int(g[i, j]), N)
                out[i, j] = keyed.vec(tuple(size[2:]), runs[m], p, n, its[m])
            return out
        noise.provider, noise.live = provide, True
        mark = [0]

        def post(d, orig=dyn.post_process):
            orig(d)
        step = dyn.step

        def counted():
            mark[0] = len(noise.calls)
            step()
            its[np.asarray(dyn.active_runs_idx)] += 1
            ctx.step()
        dyn.step = counted
        sched = {'multiply': lambda: scheduler([multiply(name='alpha', factor=1.2), multiply(name='sigma', factor=0.9)])}.get(sc['sched'], lambda: sc['sched'])()
        if sc['kind'] == 'CBS' and sc['sched'] == 'effective':
            from cbx.scheduler import effective_sample_size
            sched = scheduler([effective_sample_size()])
        ret = dyn.optimize(sched=sched)
        s = env.snap(dyn)
        s['its'], s['ret'] = its, env.as_np(ret)
        s['term'] = [None if t is None else np.array(t).tolist() for t in dyn.term_reason]
        ctx.state(sc['kind'], env.public(s), its)
        res.append(s)
    for m in range(M):
        need(int(res[0]['its'][m]) == int(res[1 + m]['its'][0]), 'run %d makes %d steps in the ensemble and %d on its own' % (
            m, res[0]['its'][m], res[1 + m]['its'][0]))
        compare(sc, m, res[0], res[1 + m], 'after optimize()')
        need_close('returned particle of run %d' % m, res[0]['ret'][m], res[1 + m]['ret'][0], **lock.tol(sc, 1e-7, 1e-8))
    ctx.sample('%s -> steps per run %s' % (sc, res[0]['its'].tolist()))
