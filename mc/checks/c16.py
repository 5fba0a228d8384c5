"""The history is a faithful record, under every short sequence of operations."""
import itertools
import warnings

import numpy as np

from cbx.scheduler import scheduler

from .. import dyns, env
from ..env import need, need_close, need_equal

ID, LEVEL = 'C16', 'model_checking'
RULE = ('lattice: every dynamic x batch x tracked names x save interval; choices: every sequence of operations '
        '(step, optimize, terminate a run, modify the dynamic in place, reset)')
BOUNDS = 'M<=2, N<=3; sequences of length 4 (5 thorough); save_int 1,2,3; sequences of 14-18 operations with M=4, N=9, save_int up to 7 and at most one operation other than a step'
ASSUMPTIONS = ['drift_mean is judged for flat particles', 'quantities of terminated runs are whatever the dynamic reports for them']

KNOWN = ['update_norm', 'energy', 'x', 'consensus', 'drift', 'drift_mean']
ATTR = ['alpha', 'best_particle', 'best_energy', 'best_cur_energy', 'num_f_eval', 'f_min']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    ks = [dict(kind='CBO'), dict(kind='CBO', corr='heavi_side', noise='covariance'), dict(kind='CBOMemory'), dict(kind='PSO'),
          dict(kind='AdamCBO'), dict(kind='CBS'), dict(kind='PolarCBO'), dict(kind='MirrorCBO', map='ProjectionBall'),
          dict(kind='HyperSurfaceCBO'), dict(kind='DriftConstrainedCBO', cons='plane'), dict(kind='RegCombinationCBO', cons='plane'),
          dict(kind='base')]
    for i, k in enumerate(ks):
        kn = KNOWN if k['kind'] != 'base' else KNOWN[:3]
        own = {'CBOMemory': ['y'], 'PSO': ['y', 'v'], 'AdamCBO': ['m', 'v'], 'MirrorCBO': ['y']}.get(k['kind'], [])
        for si in (1, 2, 3):
            bts = [None] if k['kind'] in ('CBS', 'base') else [None, dict(size=2, partial=True), dict(size=1, partial=k['kind'] == 'PolarCBO')]
            for j, bt in enumerate(bts):
                if j > 1 and not th and (i + si) % 3:
                    continue
                names = kn + own + ATTR
                out.append(dict(k, M=2, N=3, d=2, batch=bt, names=names, save_int=si, extra=1, depth=5 if th else 4 if i in (0, 2) and j < 2 else 3))
        for n in kn + own + ATTR[:2] + ['nonsense']:
            out.append(dict(k, M=1, N=2, d=2, names=[n], save_int=1, extra=0, depth=3))
        out.append(dict(k, M=2, N=2, d=2, names=None, save_int=1, extra=0, depth=3))
        out.append(dict(k, M=2, N=2, d=2, names=[], save_int=2, extra=1, depth=3))
        if k['kind'] in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO') and not k.get('noise'):
            out.append(dict(k, M=2, N=2, d=[2, 2], names=[n for n in kn + own + ATTR if n != 'drift_mean'], save_int=1, extra=1, depth=3))
            out.append(dict(k, M=1, N=1, d=1, names=kn + own + ATTR, save_int=2, extra=1, depth=4))
        for si, depth in ((4, 14), (5, 14), (7, 18), (1, 14)):  # long histories
            out.append(dict(k, M=4, N=9, d=2, batch=None if si == 5 or k['kind'] in ('CBS', 'base') else dict(size=4, partial=True), names=kn + own + ATTR, save_int=si, extra=1,
                            depth=depth, dev=2 if th else 1))
    return dyns.magnify(out)


class Mine:
    def __init__(self):
        self.n = 0

    def init_history(self, dyn):
        dyn.history['mine'] = []

    def update(self, dyn):
        self.n += 1
        dyn.history['mine'].append(self.n)


def quantity(dyn, name):
    a = {'update_norm': 'update_diff'}.get(name, name)
    if name == 'drift_mean':
        return np.abs(np.array(dyn.drift)).mean(axis=(-2, -1))
    return np.array(getattr(dyn, a))


def sel(dyn, idx):
    return np.arange(dyn.M * dyn.N).reshape(dyn.M, dyn.N)[idx].copy()


def make(sc, sw, args, f, x, z):
    if sc['kind'] != 'base':
        return dyns.build(sc, f, x=x, sampler=z, switch=sw, track_args=args)
    from cbx.dynamics.pdyn import ParticleDynamic

    class Walk(ParticleDynamic):
        def inner_step(self):
            a = self.active_runs_idx
            self.energy[a] = self.f(self.x[a])
            self.num_f_eval[a] += self.N
            self.x[a] += 0.5 * self.sampler(size=self.x[a].shape)
            self.alpha = 1. + self.it
    return Walk(f, f_dim='3D', x=x, sampler=z, term_criteria=[sw], verbosity=0, track_args=args)


def run(sc, ch, ctx):
    M = sc['M']
    sw = env.Switch(M)
    names = sc['names'] if sc['names'] is not None else ['update_norm', 'energy'] if sc['kind'] != 'CBS' else []
    mine = Mine()
    args = None
    if sc['names'] is not None:
        args = dict(names=list(sc['names']))
        if sc['save_int'] != 1:
            args['save_int'] = sc['save_int']
        if sc['extra']:
            args['extra_tracks'] = [mine]
    f = dyns.objective(sc)
    z = env.Noise(lambda k, size: env.generic(size, 40 + k))
    x0 = dyns.x0(sc) if sc['kind'] != 'base' else env.generic(dyns.shape(sc), 3)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        dyn = make(sc, sw, args, f, x0, z)
        z.live = True
    unknown = [n for n in names if n not in type(dyn).known_tracks]
    need(sum('tracking key' in str(v.message) for v in w) == len(unknown), 'unknown names %s: warnings %s' % (unknown, [str(v.message)[:40] for v in w]))
    shadow = {}
    count = [0, 0]  # iterations since reset, entries of mine overall

    def fresh():
        shadow.clear()
        for n in names:
            shadow[n] = []
        if 'x' in names:
            shadow['x'].append(np.array(dyn.x))
        if 'drift' in names:
            shadow['particle_idx'] = []
        if sc['extra']:
            shadow['mine'] = []
        count[0] = 0
    fresh()

    def note():
        if count[0] % sc['save_int'] == 0:
            for n in names:
                if n != 'nonsense':
                    shadow[n].append(quantity(dyn, n))
            if 'drift' in names:
                shadow['particle_idx'].append(sel(dyn, dyn.particle_idx))
            if sc['extra']:
                count[1] += 1
                shadow['mine'].append(np.array(count[1]))
        count[0] += 1

    def compare(when):
        h = dyn.history
        need(set(h) == set(shadow), 'the history holds %s, tracked are %s (%s)' % (sorted(h), sorted(shadow), when))
        for n in shadow:
            need(len(h[n]) == len(shadow[n]), 'history[%r] has %d entries instead of %d (%s)' % (n, len(h[n]), len(shadow[n]), when))
            for i, (a, b) in enumerate(zip(h[n], shadow[n])):
                if n == 'particle_idx':
                    a = sel(dyn, a)
                if n == 'drift_mean':
                    need_close('history[%r][%d] %s' % (n, i, when), np.asarray(a), b)
                else:
                    need_equal('history[%r][%d] %s' % (n, i, when), np.asarray(a), b)

    class Sched:
        def update(self, d):
            note()
            compare('within optimize')

    compare('after construction')
    term = []
    done = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i in range(sc['depth']):
            op = ch.pick(('step', 'inplace', 'reset', 'term', 'opt') if M > 1 else ('step', 'inplace', 'reset', 'opt'), 'op')
            done.append(op)
            if op == 'term':
                term = [] if term else [0]
                continue
            sw.mask[:] = [m in term for m in range(M)]
            if op == 'step':
                dyn.terminate()
                dyn.step()
                ctx.step()
                note()
            elif op == 'opt':
                left = [2]

                class Stop:
                    def __call__(self, d):
                        left[0] -= 1
                        return sw.mask | (left[0] < 0)
                old, dyn.term_criteria = dyn.term_criteria, [Stop()]
                dyn.optimize(sched=scheduler([Sched()]))
                dyn.term_criteria = old
                ctx.step(2)
            elif op == 'reset':
                dyn.reset()
                fresh()
            else:
                for a in ('x', 'y', 'v', 'm', 'energy', 'consensus', 'drift', 'best_particle', 'best_energy', 'best_cur_energy', 'f_min',
                          'update_diff', 'alpha', 'x_old'):
                    v = getattr(dyn, a, None)
                    if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and not (a == 'y' and sc['kind'] == 'MirrorCBO'):
                        v += 0.25 if a != 'alpha' else 0.125
            compare('after %s' % done)
            ctx.state(sc['kind'], done, [[np.asarray(e, dtype=float) for e in v] for n, v in sorted(dyn.history.items()) if n != 'particle_idx'])
    ctx.sample('%s, ops %s -> entries %s' % (sc['kind'], done, {n: len(v) for n, v in dyn.history.items()}))
