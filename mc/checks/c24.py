"""Resampling: every sequence of indicator-relevant values on a real dynamic, and every dynamic run with resampling after each step."""
import contextlib
import io
import itertools

import numpy as np

import cbx.dynamics as D
from cbx.utils.resampling import consensus_stagnation, ensemble_update_resampling, loss_update_resampling, resampling

from .. import dyns, env, lock, ref
from ..env import need, need_close, need_equal

CHUNK = 1
ID, LEVEL = 'C24', 'model_checking'
RULE = ('(a) every sequence of per-run best energies / update norms / consensus moves over a small alphabet on a real dynamic, for every '
        'waiting time, patience and shape; (b) every list of indicators selecting any subsets of runs, for every set of terminated runs; '
        '(c) every dynamic stepped with every kind of resampling after each step; noise owned by the harness')
BOUNDS = 'M<=3; sequences of up to 7 calls; waiting time and patience <= 4; dynamics runs of 4-6 steps; copies with M=4, N=9, 10 steps and at most one deviation'
ASSUMPTIONS = ['runs do not become active again after termination', 'the resampling is applied between a step and the next termination check',
               'the consensus indicator and the best consensus need one consensus point per run (not PolarCBO)']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for w in (1, 2, 3, 4):
        for t in (None, 1, 3):
            out.append(dict(fam='loss', M=2, w=w, depth=(7 if th else 5 if w < 3 else 6) if t is None else 5, term=t, d=2))
        out.append(dict(fam='loss', M=1, w=w, depth=9 if th else 6, term=None, d=2, alphabet=['same', 'lower', 'higher']))
        if th or w < 3:
            out.append(dict(fam='loss', M=3, w=w, depth=4 if th else 3, term=None, d=2))
    out.append(dict(fam='loss', M=1, w='default', depth=11 if th else 8, term=None, d=2, alphabet=['same', 'lower']))
    for M in (1, 2):
        out.append(dict(fam='diff', M=M, depth=3 if M == 1 else 2, d=2))
    for p in (1, 2, 3, 4):
        for d in (2, 1, [2, 2]):
            out.append(dict(fam='cons', M=1, p=p, d=d, depth=6 if th else 5, moves=[0., .125, .25, .5], term=None))
            if d == 2 or th:
                for t in (None, 2):
                    out.append(dict(fam='cons', M=2, p=p, d=d, depth=6 if th else 5, moves=[.125, .5], term=t))
                out.append(dict(fam='cons', M=3, p=p, d=d, depth=3, moves=[.125, .5], term=1))
    for M in (1, 2, 3):
        for sig in (.1, 1.5):
            for d in (2, 1, [2, 2]):
                out.append(dict(fam='list', M=M, sig=sig, d=d, lists=2, depth=1))
        out.append(dict(fam='list', M=M, sig='default', d=2, lists=1, depth=2 if M == 3 else 3))
    out.append(dict(fam='list', M=2, sig=.3, d=2, lists=3, depth=1))
    for b in dyns.kinds(rich=th):
        for d in (2, 1, [2, 2]) if th else (2, [2, 2]):
            s = dyns.dim(b, d)
            if s is None or d == 1 and ('quadric' in s.get('cons', '')):
                continue
            for i, bt in enumerate([None] if dyns.unbatched(s) else [None] + list(dyns.batches(3, partial_only=dyns.partial_only(s)))[1:]):
                if i and (d != 2 or not th and i % 3 != 1):
                    continue
                for var in ('x', 'y') if s['kind'] == 'MirrorCBO' else ('x',):
                    out.append(dict(s, fam='dyn', M=3, N=3, batch=bt, alpha=[.7, 6., 50.], depth=6 if th else 4, var=var, sig=.4))
                    out.append(dict(s, fam='post', M=3, N=3, batch=bt, alpha=[.7, 6., 50.], depth=6 if th else 4, var=var, sig=.4))
    return dyns.stretch(out, count=10, depth=10)


def base(sc, N=2):
    nd = 1 if not isinstance(sc['d'], list) else len(sc['d'])
    noise = env.Noise()
    sw = env.Switch(sc['M'])
    d = tuple(sc['d']) if nd > 1 else (sc['d'],)
    x = env.generic((sc['M'], N) + d, 5)
    f = env.Rec(env.quad(nd), nd)
    dyn = D.CBO(f, x=x, f_dim='3D', sampler=noise, term_criteria=[sw], verbosity=0, dt=.25)
    noise.live = True
    dyn.step()
    noise.calls.clear()
    return dyn, noise, sw, d, f


def call(rs, dyn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        rs(dyn)
    need(buf.getvalue() == '', 'verbosity is 0 but the resampling prints %r' % buf.getvalue())


def apply_and_judge(rs, dyn, noise, idx, sig, var='x', what='', evals=None):
    """Calls the resampling and demands that exactly the runs idx are perturbed."""
    pre = env.snap(dyn)
    n0 = len(noise.calls)
    cnt = np.zeros(dyn.M) if rs.num_resampling is None else np.array(rs.num_resampling)
    call(rs, dyn)
    z = noise.calls[n0:]
    post = env.snap(dyn)
    idx = sorted(idx)
    need(len(z) == (1 if idx else 0), '%s: %d noise samples for resampled runs %s' % (what, len(z), idx))
    want = np.array(pre[var])
    if idx:
        need(z[0].shape == (len(idx), dyn.N) + tuple(dyn.d), '%s: noise of shape %s for resampled runs %s' % (what, z[0].shape, idx))
        for a, m in enumerate(idx):
            want[m] = want[m] + sig * np.sqrt(float(dyn.dt)) * z[0][a]
    need_close('%s: %s after resampling runs %s' % (what, var, idx), post[var], want, rtol=1e-13, atol=1e-13)
    for m in set(range(dyn.M)) - set(idx):
        need_equal('%s: %s of the run %d that is not selected' % (what, var, m), post[var][m], pre[var][m])
    for k in pre:
        if k == var or pre[k] is None or k == 'num_f_eval':
            continue
        need_equal('%s: %s after resampling' % (what, k), post[k], pre[k])
    ev = np.zeros(dyn.M, dtype=int)
    if evals:
        ev[idx] = 1
    need_equal('%s: evaluation counters' % what, post['num_f_eval'] - pre['num_f_eval'], ev)
    cnt[idx] += 1
    need(rs.num_resampling is not None, '%s: no resampling counters' % what)
    need_equal('%s: resampling counters' % what, np.array(rs.num_resampling, float), cnt)
    return post


def run(sc, ch, ctx):
    return dict(loss=loss, diff=diff, cons=cons, list=lists, dyn=dynamic, post=post)[sc['fam']](sc, ch, ctx)


class LossSpec:
    def __init__(self, M, w):
        self.w, self.best, self.wait = w, [np.inf] * M, [0] * M

    def __call__(self, e):
        sel = []
        for m in range(len(e)):
            if e[m] < self.best[m]:
                self.best[m], self.wait[m] = e[m], 0
            else:
                self.wait[m] += 1
            if self.wait[m] == self.w:
                sel.append(m)
                self.wait[m] = 0
        return sel


class ConsSpec:
    def __init__(self, M, p, thresh):
        self.p, self.thresh, self.moves, self.old = p, thresh, [[] for _ in range(M)], [None] * M

    def __call__(self, c):
        """c: run -> consensus point (active runs only)"""
        sel = []
        for m in c:
            if self.old[m] is not None:
                self.moves[m] = (self.moves[m] + [np.sqrt(np.sum((c[m] - self.old[m]) ** 2))])[-self.p:]
                if max(self.moves[m]) < self.thresh:
                    sel.append(m)
            self.old[m] = np.array(c[m])
        return sel


def terminate(dyn, sw, sc, s):
    if sc.get('term') is not None and s == sc['term']:
        need(not dyns.set_active(dyn, sw, [0]), 'all runs terminated')
    return set(int(m) for m in np.asarray(dyn.active_runs_idx))


def loss(sc, ch, ctx):
    dyn, noise, sw, d, f = base(sc)
    M = sc['M']
    ind = loss_update_resampling() if sc['w'] == 'default' else loss_update_resampling(wait_thresh=sc['w'])
    w = 5 if sc['w'] == 'default' else sc['w']
    rs = resampling([ind], sigma_indep=.5)
    spec = LossSpec(M, w)
    al = sc.get('alphabet', ['same', 'lower'])
    e = np.array([4. + m for m in range(M)])
    ind2 = loss_update_resampling(wait_thresh=w)  # queried directly
    for s in range(sc['depth']):
        act = terminate(dyn, sw, sc, s)
        for m in range(M):
            if m not in act:
                continue
            a = ch.pick(al, 'energy of run %d' % m)
            e[m] += {'same': 0, 'lower': -1 - s / 8, 'higher': .5}[a]
        dyn.best_energy = e.copy()
        want = spec(e)
        got = np.asarray(ind2(dyn))
        need_equal('call %d: runs selected by the loss indicator' % (s + 1), got, np.array(want, dtype=int))
        apply_and_judge(rs, dyn, noise, act & set(want), .5, what='call %d, waiting time %d' % (s + 1, w))
        ctx.step()
        ctx.state(w, s, e, rs.num_resampling, spec.wait)
    ctx.sample('waiting time %d, energies at the end %s, resamplings %s' % (w, e, rs.num_resampling))


def diff(sc, ch, ctx):
    dyn, noise, sw, d, f = base(sc)
    M = sc['M']
    th = ch.pick([.25, 1., 0.])
    rs = resampling([ensemble_update_resampling(th)], sigma_indep=.5)
    for s in range(sc['depth']):
        act = set(range(M)) if s == 0 else {int(m) for m in np.asarray(dyn.active_runs_idx)}
        if s == 1 and M > 1 and ch.choose(2):
            dyns.set_active(dyn, sw, [1])
            act = {0}
        v = np.array([ch.pick([0., th / 2, th, np.nextafter(th, 9), 3., np.inf]) for m in range(M)])
        dyn.update_diff = v.copy()
        want = {m for m in range(M) if v[m] < th}
        need_equal('runs with a small update', np.asarray(ensemble_update_resampling(th)(dyn)), np.array(sorted(want), dtype=int))
        apply_and_judge(rs, dyn, noise, want & act, .5, what='call %d, update norms %s, threshold %g' % (s + 1, v, th))
        ctx.step()
        ctx.state(th, s, v, rs.num_resampling)
    ctx.sample('threshold %g, update norms %s, resamplings %s' % (th, v, rs.num_resampling))


def cons(sc, ch, ctx):
    dyn, noise, sw, d, f = base(sc)
    M, th = sc['M'], .25
    ind = consensus_stagnation(patience=sc['p'], update_thresh=th)
    rs = resampling([ind], sigma_indep=.5)
    spec = ConsSpec(M, sc['p'], th)
    c = np.zeros((M, 1) + d)
    act = set(range(M))
    dirs = [np.ones(d) / np.sqrt(np.prod(d)) if np.prod(d) == 4 else np.eye(int(np.prod(d)))[k % int(np.prod(d))].reshape(d) for k in range(7)]
    for s in range(sc['depth']):
        act = terminate(dyn, sw, sc, s)
        for m in act:
            c[m, 0] += (ch.pick(sc['moves'], 'move') if s else 0.) * dirs[s] * (-1) ** (s // 2)
        dyn.consensus = c[sorted(act)].copy()
        want = spec({m: c[m, 0] for m in sorted(act)})
        apply_and_judge(rs, dyn, noise, want, .5, what='call %d, patience %d' % (s + 1, sc['p']))
        ctx.step()
        ctx.state(sc['p'], s, c, rs.num_resampling)
    ctx.sample('patience %d, moves %s, resamplings %s' % (sc['p'], [np.round(m, 3).tolist() for m in spec.moves], rs.num_resampling))


def lists(sc, ch, ctx):
    dyn, noise, sw, d, f = base(sc)
    M = sc['M']
    sel = [None] * sc['lists']
    inds = [lambda dyn, k=k: np.array(sel[k], dtype=int) for k in range(sc['lists'])]
    sig = sc['sig']
    kw = {} if sig == 'default' else dict(sigma_indep=sig)
    sig = .1 if sig == 'default' else sig
    seen = []
    custom = sc['lists'] == 2 and ch.choose(2, 'own apply')
    if custom:
        kw['apply'] = lambda dyn, idx, **k: seen.append((np.array(idx).tolist(), k))
    rs = resampling(inds, **kw)
    for s in range(sc['depth']):
        if M > 1 and s == 0:
            dyns.set_active(dyn, sw, ch.pick(list(dyns.subsets(M)), 'terminated'))
        act = {int(m) for m in np.asarray(dyn.active_runs_idx)}
        opts = [list(c) for r in range(M + 1) for c in itertools.combinations(range(M), r)] + [[M - 1, 0], [0, 0]]
        for k in range(len(sel)):
            sel[k] = ch.pick(opts, 'selected')
        want = act & set(sum(sel, []))
        what = 'call %d, indicators select %s, active %s' % (s + 1, sel, sorted(act))
        if custom:
            pre = env.snap(dyn)
            call(rs, dyn)
            need([i for i, _ in seen] == ([sorted(want)] if want else []), '%s: the user\'s function is applied to %s' % (what, seen))
            need_equal('counters', np.array(rs.num_resampling, float), np.array([float(m in want) for m in range(M)]))
            need_equal('x', dyn.x, pre['x'])
            if want:
                need(seen[0][1].get('sigma_indep') == sig and seen[0][1].get('var_name') == 'x', 'the user\'s function gets %s' % (seen[0][1],))
        else:
            apply_and_judge(rs, dyn, noise, want, sig, what=what)
        ctx.step()
        ctx.state(s, sorted(act), sel, rs.num_resampling)
    ctx.sample(what)


def dynamic(sc, ch, ctx):
    M = sc['M']
    S = lock.Session({k: v for k, v in sc.items() if k != 'fam'}, ch, ctx)
    dyn = S.dyn
    polar = sc['kind'] == 'PolarCBO'
    kind = ch.pick(['loss', 'diff', 'all'] if polar else ['loss', 'cons', 'diff', 'all'], 'indicators')
    th = .3
    mk = dict(loss=lambda: loss_update_resampling(2), diff=lambda: ensemble_update_resampling(th), cons=lambda: consensus_stagnation(2, th))
    names = [kind] if kind != 'all' else (['loss', 'diff'] if polar else ['loss', 'diff', 'cons'])
    track = not polar
    rs = resampling([mk[n]() for n in names], sigma_indep=sc['sig'], var_name=sc['var'], track_best_consensus=track)
    spec = dict(loss=LossSpec(M, 2), cons=ConsSpec(M, 2, th))
    best = {}
    term = []
    for s in range(sc['depth']):
        if s == 2:
            term = lock.acts(ch, M)
        r = S.step(term)
        S.pat = 'gen'
        want = set()
        if 'loss' in names:
            want |= set(spec['loss'](r.post['best_energy']))
        if 'diff' in names:
            want |= {m for m in range(M) if r.post['update_diff'][m] < th}
        if 'cons' in names:
            want |= set(spec['cons']({m: r.post['consensus'][a, 0] for a, m in enumerate(r.active)}))
        want &= set(r.active)
        what = 'after step %d (%s)' % (s + 1, kind)
        S.n0 = len(S.noise.calls)
        post = apply_and_judge(rs, dyn, S.noise, want, sc['sig'], sc['var'], what, evals=track)
        if track:
            for m in want:
                c = r.post['consensus'][r.active.index(m)]
                e = S.value(c[0])
                if sc['kind'] == 'RegCombinationCBO':  # its energies include the penalty
                    e += sum(ref.con_val(k, c[0]) ** 2 for k in env.constr(sc['cons']) or []) / sc['nu']
                if np.isfinite(e) and (m not in best or e < best[m][0]):
                    best[m] = (e, c)
            for m in best:
                need_close('%s: best consensus of run %d' % (what, m), rs.best_consensus[m], best[m][1], rtol=1e-12, atol=1e-14)
                need_close('%s: energy of the best consensus of run %d' % (what, m), float(np.ravel(rs.best_consensus_energy[m])[0]), best[m][0], rtol=1e-10)
        ctx.state(post['x'], rs.num_resampling)
    ctx.sample('%s with indicators %s: resamplings %s' % (sc['kind'], names, rs.num_resampling))


def post(sc, ch, ctx):
    """Resampling given as the post-processing of the dynamic, over a whole optimisation."""
    M, polar, th = sc['M'], sc['kind'] == 'PolarCBO', .3
    names = ch.pick([['loss'], ['diff'], ['loss', 'diff']] if polar else [['loss'], ['diff'], ['cons'], ['loss', 'diff', 'cons']], 'indicators')
    stop = ch.pick([(s + [6])[:sc['M']] for s in ([99, 99, 99], [99, 2, 99], [1, 99, 3])], 'iterations of the runs')
    own = ch.choose(2, 'default post-processing first')
    mk = dict(loss=lambda: loss_update_resampling(2), diff=lambda: ensemble_update_resampling(th), cons=lambda: consensus_stagnation(2, th))
    rs = resampling([mk[n]() for n in names], sigma_indep=sc['sig'], var_name=sc['var'])
    spec = dict(loss=LossSpec(M, 2), cons=ConsSpec(M, 2, th))
    noise = env.Noise(lambda k, size: env.generic(size, 50 + k, .4))
    calls = []

    def process(dyn):
        if own:
            pp(dyn)
        act = [m for m in range(M) if stop[m] > dyn.it]
        need([int(m) for m in np.asarray(dyn.active_runs_idx)] == act, 'active runs in iteration %d' % dyn.it)
        want = set()
        if 'loss' in names:
            want |= set(spec['loss'](np.array(dyn.best_energy)))
        if 'diff' in names:
            want |= {m for m in range(M) if np.ravel(dyn.update_diff * np.ones(M))[m] < th}
        if 'cons' in names:
            want |= set(spec['cons']({m: np.array(dyn.consensus)[a, 0] for a, m in enumerate(act)}))
        want &= set(act)
        apply_and_judge(rs, dyn, noise, want, sc['sig'], sc['var'], 'in step %d (%s, runs end at %s)' % (dyn.it + 1, names, stop))
        calls.append((dyn.it, sorted(want)))
        ctx.step()
        ctx.state(sc['kind'], names, dyn.x, rs.num_resampling)
    from cbx.dynamics.pdyn import post_process_default
    from cbx.utils.termination import max_it_term
    pp = post_process_default()
    dyn = dyns.build({k: v for k, v in sc.items() if k != 'fam'}, env.quad(dyns.nd(sc)), sampler=noise, post_process=process,
                     term_criteria=[max_it_term(sc['depth']), lambda dyn: np.array([dyn.it >= k for k in stop])])
    noise.live = True
    dyn.optimize(sched='default' if ch.choose(2, 'scheduler') else None)
    need([i for i, _ in calls] == list(range(sc['depth'])), 'the post-processing is called in iterations %s' % [i for i, _ in calls])
    ctx.sample('%s as post-processing with indicators %s: %s' % (sc['kind'], names, calls))
