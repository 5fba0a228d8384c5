"""Two arrangements of the same ensemble - relabelled, or translated - on the real dynamics, driven with the same noise and compared."""
import itertools

import numpy as np

from .. import dyns, env, keyed, lock
from ..core import Chooser
from ..env import need, need_close, need_equal

ID, LEVEL = 'C33', 'model_checking'
RULE = ('every dynamic and variant x shape x batch form; choices: every relabelling of the particles (per run) and of the runs, or every '
        'translation of a lattice; the particles selected in each step; the runs terminated in each step; noise is bound to the labels')
BOUNDS = 'M<=3, N=3; all 6 particle and 6 run permutations; 3 steps (4 thorough); translations up to 16; optimisations up to 10 steps; also M=4, N=5 over 10 steps with at most one deviation'
ASSUMPTIONS = ['generic energies (the best particle among exactly equal ones may depend on the labels)',
               'translation: dynamics without constraints and mirror map', 'batches are scripted']

NAMES = ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval', 'update_diff', 'best_cur_energy')
EACH = ('x', 'y', 'v', 'm', 'energy')  # one entry per particle, the others one per run
FREE = ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS', 'PolarCBO')


def scenarios(tier):
    th = tier == 'thorough'
    out, turn = [], 0
    for b in dyns.kinds(rich=th):
        for d in (2, 3, 1, [2, 2]):
            s = dyns.dim(b, d)
            if s is None or d != 2 and 'quadric' in s.get('cons', '') and not th or d == 1 and s['kind'] == 'HyperSurfaceCBO':
                continue
            for i, bt in enumerate([None] if dyns.unbatched(s) else [None, dict(size=2, partial=True, var='resample', seed=3)] +
                                   ([] if dyns.partial_only(s) else [dict(size=2, partial=False, var='concat', seed=3)])):
                for fam in ('perm', 'trans'):
                    if fam == 'trans' and s['kind'] not in FREE:
                        continue
                    turn += 1
                    if not th and turn % (2 if d == 2 and i == 0 else 5 if d == 2 else 7):
                        continue
                    M = 3 if d == 2 and len(out) % 3 == 0 or th else 2
                    out.append(dict(s, fam=fam, M=M, N=3, batch=bt, alpha=[.7, 2., 6.], depth=4 if th else 3,
                                    fun='plateau' if i == 0 and s['kind'] in FREE and s.get('corr', 'no_correction') == 'no_correction' and d == 3 else 'quad'))
        s = dyns.dim(b, 2)
        for crit in (['energy-tol', .35], ['diff-tol', .12], ['max-eval', 26], ['energy-stagnation', 3, .05]):
            for fam in ('perm', 'trans') if s['kind'] in FREE else ('perm',):
                out.append(dict(s, fam=fam, M=3, N=3, opt=crit, alpha=[.7, 2., 6.], fun='quad', sched='default' if crit[0] != 'max-eval' else None))
    for s in dyns.kinds():
        if s['kind'] in FREE and s.get('corr', 'no_correction') == 'no_correction':  # all particles at the origin: nothing is special there
            for d in (2, [2, 2]):
                t = dyns.dim(s, d)
                for z in ('all', 'run', 'one') if t else ():
                    out.append(dict(t, fam='trans', M=2, N=3, batch=None, alpha=[.7, 2., 6.], depth=3, fun='quad', zero=z))
    big = []
    for i, b in enumerate(dyns.kinds()):
        s = dyns.dim(b, 2)
        for fam in ('perm', 'trans') if s['kind'] in FREE else ('perm',):
            if (i + len(fam)) % 3 == 0 and (s['kind'], fam) != ('AdamCBO', 'trans'):  # Adam amplifies the rounding of translations
                big.append(dict(s, fam=fam, M=4, N=5, batch=None if dyns.unbatched(s) or i % 2 else dict(size=3, partial=True, var='concat', seed=3), alpha=[.7, 2., 6., 20.],
                                depth=10, fun='quad', dev=1))
    return out + big


def arrangements(sc, ch):
    """(runs, parts, shift): the second arrangement."""
    M, N = sc['M'], sc['N']
    if sc['fam'] == 'trans':
        t = ch.pick(['gen', 'far', 'axis', 'neg'] if 'opt' not in sc else ['gen', 'far'], 'shift')
        d = dyns.shape(sc)[2:]
        v = {'gen': np.round(env.generic(d, 71, 2.) * 16) / 16, 'far': np.round(env.generic(d, 72, 16.)) + 7.,
             'axis': np.zeros(d), 'neg': np.full(d, -.5)}[t]
        if t == 'axis':
            v.reshape(-1)[-1] = 4.
        return list(range(M)), [list(range(N))] * M, v
    P = list(itertools.permutations(range(N)))
    R = list(itertools.permutations(range(M)))
    k = ch.choose(len(P), 'particles')
    runs = list(R[ch.choose(len(R), 'runs')] if k < 3 else R[k % len(R)])
    parts = [list(P[(k + 2 * m * (k > 0)) % len(P)]) for m in range(M)]  # a different relabelling in each run
    return runs, parts, 0.


def place(a, runs, parts, each=True):
    """Array of the labelled ensemble (per particle or per run) rearranged for the second one."""
    a = np.asarray(a)
    if each:
        return np.stack([a[r][p] for r, p in zip(runs, parts)])
    return a[runs]


def compare(sc, A, B, runs, parts, shift, when, act):
    # Adam normalises the drift: the rounding of a far translation is amplified where it is small
    t = lock.tol(sc, 1e-7, 1e-8) if sc['kind'] != 'AdamCBO' or sc['fam'] == 'perm' else dict(rtol=1e-4, atol=1e-5)
    for k in NAMES:
        if A.get(k) is None or B.get(k) is None:
            need((A.get(k) is None) == (B.get(k) is None), '%s %s: present in one arrangement only' % (k, when))
            continue
        if np.ndim(A[k]) == 0 or sc['kind'] == 'PSO' and k == 'm':
            continue
        if k == 'best_particle' and sc['fun'] == 'plateau':
            continue
        want = place(A[k], runs, parts, k in EACH)
        got = B[k]
        if k in ('x', 'y', 'best_particle'):
            want = want + shift
        if k == 'best_cur_energy':
            keep = [i for i, r in enumerate(runs) if r in act]
            want, got = want[keep], got[keep]
        if k == 'best_particle':  # a placeholder until the first energies are known
            keep = [i for i, r in enumerate(runs) if np.isfinite(A['best_energy'][r])]
            want, got = want[keep], got[keep]
        need_close('%s %s (runs %s, particles %s, shift %s)' % (k, when, runs, parts, np.ravel(shift).tolist()), got, want, **t)
    need(int(A['it']) == int(B['it']), 'iteration counter %s' % when)


def run(sc, ch, ctx):
    M, N = sc['M'], sc['N']
    x = dyns.x0(sc)
    if 'zero' in sc:
        x[(slice(None) if sc['zero'] == 'all' else 0, 1 if sc['zero'] == 'one' else slice(None))] = 0.
    f = keyed.fun(sc['fun'], dyns.nd(sc))
    runs, parts, shift = arrangements(sc, ch)
    trans = sc['fam'] == 'trans'
    g = (lambda p: f(p - shift)) if trans else f
    x2 = place(x, runs, parts) + shift
    two = dict(sc, alpha=[sc['alpha'][r] for r in runs])
    if 'opt' in sc:
        return optimise(sc, two, ctx, x, x2, f, g, runs, parts, shift)
    if sc['kind'] == 'MirrorCBO' and sc.get('map') == 'Stiefel':
        sc['nk'] = list(sc['nk'])
    A = keyed.Keyed(sc, ch, ctx, x.copy(), list(range(M)), fun=f)
    B = keyed.Keyed(two, Chooser(), ctx, x2.copy(), runs, parts=parts, fun=g)
    compare(sc, env.snap(A.dyn), env.snap(B.dyn), runs, parts, shift, 'initially', list(range(M)))
    picked = []
    if sc.get('batch'):
        combos = [list(c) for c in itertools.combinations(range(N), sc['batch']['size'])]
        A.install(lambda t: {m: combos[(picked[t] + m) % len(combos)] for m in range(M)})

        def second(t):
            out = {}
            for i, r in enumerate(runs):
                lab = combos[(picked[t] + r) % len(combos)]
                out[i] = sorted((parts[i].index(l) for l in lab), reverse=bool(t % 2))
            return out
        B.install(second)
    live = list(range(M))
    for s in range(sc['depth']):
        if s == 1:
            subs = [t for t in dyns.subsets(M)]
            t = subs[ch.choose(len(subs), 'terminated')]
            live = [m for m in live if m not in t]
        if sc.get('batch'):
            picked.append(ch.choose(3, 'batch') if s < 2 else s % 3)
        r = A.step([m for m in range(M) if m not in live])
        q = B.step([i for i in range(M) if runs[i] not in live])
        compare(sc, r.post, q.post, runs, parts, shift, 'after step %d' % (s + 1), live)
        ca, cb = r.post['consensus'], q.post['consensus']
        order = [live.index(rr) for rr in runs if rr in live]
        want = ca[order]
        if sc['kind'] == 'PolarCBO':  # one consensus point per particle (of the batch)
            pos = [i for i in range(M) if runs[i] in live]
            rows = []
            for i in pos:
                src, dst = r.csel[runs[i]], [parts[i][n] for n in q.csel[i]]
                if ca.shape[1] != len(src):
                    src, dst = list(range(N)), parts[i]
                rows.append(ca[live.index(runs[i])][[src.index(l) for l in dst]])
            want = np.stack(rows)
        need_close('consensus after step %d (runs %s, particles %s)' % (s + 1, runs, parts), cb, want + shift, **lock.tol(sc, 1e-7, 1e-8))
    if len(ctx.samples) < 3:
        ctx.sample('%s: runs %s, particles %s, shift %s' % (sc['kind'], runs, parts, np.ravel(shift).tolist()))


def optimise(sc, two, ctx, x, x2, f, g, runs, parts, shift):
    """The termination decisions and schedules do not depend on the arrangement either."""
    from cbx.utils.termination import select_term
    from .c10 import crit
    res = []
    c = list(sc['opt'])
    for s, xx, ff, rr, pp in ((sc, x, f, list(range(sc['M'])), [list(range(sc['N']))] * sc['M']), (two, x2, g, runs, parts)):
        noise = env.Noise()
        terms = [select_term(crit(c)), select_term(dict(name='max-it', max_it=10))]
        dyn = dyns.build(s, env.Rec(ff, 1), x=xx.copy(), sampler=noise, term_criteria=terms)
        mark, acts = [0], []

        def provide(k, size):
            sel = env.sel(dyn, dyn.particle_idx)
            out = np.empty(size)
            for i, j in np.ndindex(*sel.shape):
                m, p = divmod(int(sel[i, j]), sc['N'])
                out[i, j] = keyed.vec(tuple(size[2:]), rr[m], pp[m][p], k - mark[0], dyn.it)
            return out
        noise.provider, noise.live = provide, True
        step = dyn.step

        def counted():
            mark[0] = len(noise.calls)
            acts.append(sorted(rr[m] for m in dyn.active_runs_idx))
            step()
            ctx.step()
        dyn.step = counted
        ret = dyn.optimize(sched=sc['sched'])
        e = env.snap(dyn)
        e['ret'], e['acts'] = env.as_np(ret), acts
        ctx.state(sc['kind'], env.public(e))
        res.append(e)
    a, b = res
    need(a['acts'] == b['acts'], 'active runs per step are %s and, arranged as runs %s, particles %s, shift %s, %s' % (
        a['acts'], runs, parts, np.ravel(shift).tolist(), b['acts']))
    compare(sc, a, b, runs, parts, shift, 'after optimize()', [])
    need_close('returned best particle', b['ret'], a['ret'][runs] + shift, **lock.tol(sc, 1e-7, 1e-8))
