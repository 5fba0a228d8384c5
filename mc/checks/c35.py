"""What is printed and what is saved on request is the state the dynamic is in; verbosity 0 is silent."""
import contextlib
import io
import re

import numpy as np

import cbx.dynamics as D
from cbx.scheduler import scheduler
from cbx.utils.resampling import ensemble_update_resampling, resampling
from cbx.utils.success import dist_to_min, evaluation, value_thresh

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C35', 'model_checking'
RULE = ('every dynamic and variant x batch form x verbosity x print interval: the output of whole optimisations is parsed and compared with the state '
        'after each step; choices: the runs terminated in each step, which runs an indicator resamples; the saved evaluation points are compared with '
        'the points at which the objective was really evaluated; all subsets of successful runs')
BOUNDS = 'M<=3, N=3, 5 steps; verbosity 0..2 and left out, print intervals None, 1, 2, 3 with save intervals 1, 2; saved points: all proper subsets of terminated runs in each of 3 steps (at most 3 deviations for M=3), also M=4, N=9, 10 steps'
ASSUMPTIONS = ['only numbers and their labels are compared, with the printed precision', 'evaluation points are saved by the dynamics whose consensus is that of the current particles']

SAVERS = ('CBO', 'AdamCBO', 'CBS', 'MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO')
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)')


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for i, b in enumerate(dyns.kinds(rich=th)):
        s = dyns.dim(b, 2)
        bts = [None] if dyns.unbatched(s) else [None, dict(size=2, partial=True, var='resample', seed=3), dict(size=2, partial=dyns.partial_only(s), var='concat', seed=3)]
        for j, bt in enumerate(bts):
            if th or (i + j) % 3 == 0:
                out.append(dict(s, fam='print', M=1 + (i + j) % 3, N=3, batch=bt, steps=5))
            if s['kind'] in SAVERS:
                for M in (1, 2, 3):
                    if M < 3 or th or (i + j) % 3 == 0:
                        out.append(dict(s, fam='points', M=M, N=3, batch=bt, depth=3, **({'dev': 3} if M == 3 else {})))
    out.append(dict(fam='print', kind='ParticleDynamic', M=2, N=3, d=2, batch=None, steps=4))
    for d in (1, 3, [2, 2]):
        for k in ('CBO', 'AdamCBO', 'MirrorCBO', 'CBS', 'DriftConstrainedCBO'):
            s = dyns.dim(dict(kind=k, **({'mode': 'sampling'} if k == 'CBS' else {'map': 'L2'} if k == 'MirrorCBO' else {'cons': 'plane'} if k == 'DriftConstrainedCBO' else {})), d)
            if s is not None:
                for bt in [None] if dyns.unbatched(s) else [None, dict(size=2, partial=False, var='concat', seed=3)]:
                    out.append(dict(s, fam='points', M=2, N=3, batch=bt, depth=3))
    for v in (0, 1, 2):
        for M in (1, 2, 3, 12):
            out.append(dict(fam='resample', M=M, N=3, verbosity=v))
        for M in (1, 2, 3, 4):
            out.append(dict(fam='success', M=M, verbosity=v))
    return out + dyns.stretch([s for s in out if s['fam'] == 'points' and s['M'] == 3], count=10, depth=10)


def numbers(text):
    return np.array([float(a) for a in NUM.findall(text)])


def shown(what, text, label, value, abs_=0.):
    """The numbers that follow the label in the text are the value."""
    i = text.find(label)
    need(i >= 0, '%s: "%s" is not printed in %r' % (what, label, text))
    v = np.ravel(np.asarray(value, dtype=float))
    got = numbers(text[i + len(label):])[:len(v)]
    need(len(got) == len(v), '%s: %d of %d numbers printed after "%s"' % (what, len(got), len(v), label))
    need_close('%s: printed %s' % (what, label), got, v, rtol=2e-7, atol=abs_ or 2e-8)
    return text[i + len(label):]


class Watch:
    """A schedule that notes the state after each step."""

    def __init__(self, out, shrink=False):
        self.out, self.log, self.pos, self.shrink = out, [], [], shrink

    def update(self, dyn):
        if self.shrink and hasattr(dyn, 'dt'):  # a schedule may change the step size
            dyn.dt = .6 * dyn.dt
        self.pos.append(self.out.tell())
        self.log.append((int(dyn.it), getattr(dyn, 't', None), np.array(dyn.f_min), np.array(dyn.num_f_eval), np.array(getattr(dyn, 'alpha', 0))))


def run_print(sc, ch, ctx):
    given = ch.pick([0, 1, 2, None], 'verbosity')
    v = 1 if given is None else given
    cbs = sc['kind'] == 'CBS'
    pi = ch.pick([None] if cbs else [None, 1, 2, 3], 'print_int')
    save = ch.pick([1, 2], 'save_int')
    stag = ch.choose(2, 'staggered')
    L, M = sc['steps'], sc['M']
    crit = [lambda dyn: np.array([dyn.it >= (max(1, L - 1 - m) if stag else L) for m in range(dyn.M)])]
    out = io.StringIO()
    w = Watch(out, bool(stag))
    with contextlib.redirect_stdout(out):
        common = dict(verbosity=... if given is None else given, track_args=dict(names=[], save_int=save), term_criteria=crit)
        if sc['kind'] == 'ParticleDynamic':
            from cbx.dynamics.pdyn import ParticleDynamic
            dyn = ParticleDynamic(env.quad(), f_dim='3D', x=env.generic((M, 3, 2), 3), **{n: o for n, o in common.items() if o is not ...})
        else:
            dyn = dyns.build(sc, dyns.objective(sc), sampler=lambda size=None: env.generic(size, 5), **common)
        head = out.tell()
        if cbs:
            best = dyn.optimize(sched=scheduler([w]))
        else:
            best = dyn.optimize(sched=w) if pi is None else dyn.optimize(print_int=pi, sched=w)
    text = out.getvalue()
    ctx.step(len(w.log))
    ctx.state(sc['kind'], v, pi, save, stag, text)
    need(head == 0, 'construction prints %r' % text[:head])
    if v == 0:
        need(text == '', 'verbosity 0 prints %r' % text)
        return
    need(sc['kind'] in text[:w.pos[0]], 'the dynamic is not named at the start: %r' % text[:w.pos[0]])
    interval = pi if pi is not None else save
    for i, (it, t, fmin, nev, alpha) in enumerate(w.log):
        seg = text[w.pos[i]:w.pos[i + 1] if i + 1 < len(w.log) else None]
        if i + 1 == len(w.log):
            seg = seg.split('Finished')[0]
        what = 'iteration %d (print interval %s, save interval %d)' % (i, pi, save)
        if cbs or sc['kind'] == 'ParticleDynamic' or i % interval:
            need(not numbers(seg).size, '%s: unexpected output %r' % (what, seg))
            continue
        rest = shown(what, seg, 'Time:', t, abs_=6e-4)
        shown(what, rest, 'energy:', fmin)
        shown(what, seg, 'evaluations:', nev)
        if v > 1:
            shown(what, seg, 'alpha:', alpha)
        else:
            need('alpha' not in seg, '%s: alpha is printed for verbosity 1' % what)
    if not cbs:
        need('Finished' in text, 'the end is not reported')
        shown('end', text[text.index('Finished'):], 'Best energy:', dyn.best_energy)
    need_equal('returned particle', best, dyn.best_particle)
    if sc['kind'] != 'ParticleDynamic':
        r = repr(dyn)
        for k in ('M', 'N', 'dt', 'lamda'):
            shown('repr', r, "'%s':" % k, getattr(dyn, k))
        need(sc['kind'] in r, 'the representation does not name the dynamic')


def run_points(sc, ch, ctx):
    s = lock.Session(sc, ch, ctx, save_consensus_eval_points=True, track_args=dict(names=[]))
    M, N = s.M, s.N
    x = np.array(s.dyn.x)
    want = None
    for k in range(sc['depth']):
        act = lock.acts(ch, M)
        x = np.array(s.dyn.x)
        r = s.step(act)
        got = getattr(s.dyn, 'consensus_eval_points', None)
        need(got is not None, 'no evaluation points are saved')
        if want is None:
            want = x.copy()
        for m in r.active:
            want[m][r.csel[m]] = x[m][r.csel[m]]
        need_equal('saved evaluation points after step %d (terminated %s)' % (k, act), np.array(got), want)
        e = r.post['energy']
        for m in range(M):
            for n in range(N):
                if np.isfinite(e[m, n]):
                    need_close('objective at the saved evaluation point of run %d, particle %d' % (m, n), np.array(s.dyn.f(np.array(got[m][n])[None, None])[0, 0]),
                               np.array(e[m, n]), rtol=1e-9, atol=1e-10)


def run_resample(sc, ch, ctx):
    M, N = sc['M'], sc['N']
    x = env.generic((M, N, 2), 4)
    dyn = D.CBO(env.quad(), f_dim='3D', x=x, verbosity=sc['verbosity'], sampler=lambda size=None: env.generic(size, 6))
    sub = [m for m in range(M) if ch.choose(2, 'run')] if M < 4 else ch.pick([[], [11], [0, 10, 11], list(range(12))], 'runs')
    r = resampling([lambda d: np.array(sub, dtype=int)])
    out = io.StringIO()
    dyn.step()
    with contextlib.redirect_stdout(out):
        r(dyn)
    ctx.step()
    ctx.state('resample', M, tuple(sub), sc['verbosity'])
    text = out.getvalue()
    if sc['verbosity'] == 0 or not sub:
        need(text == '', 'unexpected output %r' % text)
    else:
        need(numbers(text).tolist() == sub, 'resampled runs %s, printed %r' % (sub, text))
    need_equal('resampling counts', r.num_resampling, np.array([float(m in sub) for m in range(M)]))


def run_success(sc, ch, ctx):
    M = sc['M']
    sub = [m for m in range(M) if ch.choose(2, 'run')]
    x = np.array([[[0., 0.], [2., 2.]] if m in sub else [[1.5, 1.], [2., 2.]] for m in range(M)])
    f = lambda z: (z ** 2).sum(-1)
    dyn = D.CBO(f, f_dim='3D', x=x, verbosity=0, sampler=lambda size=None: np.zeros(size))
    dyn.step()
    out = io.StringIO()
    ev = evaluation(criteria=[dist_to_min(np.zeros(2), tol=.5), value_thresh(thresh=.5)], verbosity=sc['verbosity'])
    with contextlib.redirect_stdout(out):
        res = ev(dyn)
    text = out.getvalue()
    ctx.step()
    ctx.state('success', M, tuple(sub), sc['verbosity'])
    need(list(res['idx']) == sub, 'successful runs %s instead of %s' % (list(res['idx']), sub))
    if sc['verbosity'] == 0:
        need(text == '', 'verbosity 0 prints %r' % text)
    else:
        shown('success', text, 'Rate:', len(sub) / M)
        shown('success', text, 'runs:', len(sub))
        need(numbers(text[text.index('idx:'):]).tolist() == sub, 'successful runs %s, printed %r' % (sub, text))


def run(sc, ch, ctx):
    {'print': run_print, 'points': run_points, 'resample': run_resample, 'success': run_success}[sc['fam']](sc, ch, ctx)
    ctx.sample('%s %s' % (sc['fam'], sc.get('kind', '')))
