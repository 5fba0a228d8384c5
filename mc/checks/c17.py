"""Two dynamics over shared inputs: every interleaving gives each the result it has alone."""
import copy

import numpy as np

import cbx.dynamics as D
from cbx.scheduler import effective_sample_size, multiply, scheduler

from .. import dyns, env
from ..core import canon
from ..env import need, need_equal

ID, LEVEL = 'C17', 'model_checking'
RULE = ('lattice: pairs of dynamics of every kind over the same objective, array and configuration objects; choices: every '
        'interleaving of their operations (construct, step and optimize, reset and optimize, check and step) and of the user overwriting the array')
BOUNDS = 'two dynamics with 3 operations each (4 thorough) plus one user write; M<=2, N=3; one large copy of each kind (M=4, N=9, d=5, optimisations of 12 steps)'
ASSUMPTIONS = ['stateful objects the user shares on purpose (criteria, trackers, samplers, counting objectives) are excluded']


def pairs():
    k = [dict(kind='CBO'), dict(kind='CBO', corr='heavi_side', batch=dict(size=2, partial=True, var='concat', seed=3)),
         dict(kind='CBO', noise='covariance'), dict(kind='CBOMemory', batch=dict(size=2, partial=False, seed=3)), dict(kind='PSO'),
         dict(kind='AdamCBO'), dict(kind='CBS'), dict(kind='PolarCBO', kernel='Gaussian'), dict(kind='PolarCBO', kernel='Taz', noise='covariance'),
         dict(kind='MirrorCBO', map='ProjectionBall', mapkw=dict(center=[.1, .2], radius=.7)), dict(kind='MirrorCBO', map='EntropySimplex'),
         dict(kind='MirrorCBO', map='ProjectionHyperplane', mapkw=dict(a=[1., 2.])),
         dict(kind='HyperSurfaceCBO', sdf='plane'), dict(kind='HyperSurfaceCBO', sdf='sphere', noise='anisotropic'),
         dict(kind='DriftConstrainedCBO', cons='plane+sphere', eps=.3), dict(kind='DriftConstrainedCBO', cons='none', eps_indep=.3, sigma_indep=.3),
         dict(kind='RegCombinationCBO', cons='quadric', eps=.7, nu=.5)]
    for s in k:
        yield s, s
        yield s, dict(s, dt=.25, lamda=.6, sigma=.3)
    for i in range(0, len(k) - 1):
        yield k[i], k[i + 1]
    yield k[0], k[14]
    yield k[3], k[4]
    yield k[9], k[0]


def scenarios(tier):
    out = []
    for i, (a, b) in enumerate(pairs()):
        for form in ('array', 'N,d') if tier == 'thorough' or a is b or i % 3 == 0 else ('array',):
            out.append(dict(A=a, B=b, form=form, ops=4 if tier == 'thorough' else 3))
        if a is b and 'mapkw' not in a:
            out.append(dict(A=a, B=b, form='large', ops=3))
    for a in (dict(kind='CBO'), dict(kind='CBOMemory'), dict(kind='PSO')):
        out.append(dict(A=a, B=a, form='d', ops=3))
    return out


class Plus:
    @staticmethod
    def init_history(dyn):
        dyn.history['plus'] = []

    @staticmethod
    def update(dyn):
        dyn.history['plus'].append(float(np.sum(dyn.x)))


def config(sc):
    """The shared configuration objects."""
    M = {'array': 2, 'large': 4}.get(sc['form'], 1)
    N = {'d': 1, 'large': 9}.get(sc['form'], 3)
    d = 5 if sc['form'] == 'large' else 2
    x = dyns.x0(dict(sc['A'], M=M, N=N, d=d))
    for k in ('A', 'B'):
        if sc[k]['kind'] == 'MirrorCBO' and sc[k]['map'].startswith('Entropy'):
            x = dyns.x0(dict(sc[k], M=M, N=N, d=d))
    x = x if sc['form'] in ('array', 'large') else x[0] if sc['form'] == 'N,d' else x[0, 0]
    cfg = dict(x=x, track_args=dict(names=['x', 'energy', 'update_norm', 'consensus', 'drift', 'alpha'], extra_tracks=[Plus], save_int=1),
               term_criteria=['energy-tol', dict(name='max-it', max_it=3 if sc['form'] != 'large' else 12), dict(name='energy-stagnation', patience=2, std_thresh=1e-12), 'max-time'],
               alpha=np.full((M, 1), 2.), seed=5,
               sched=scheduler([multiply(name='alpha', factor=1.5, maximum=4.), multiply(name='sigma', factor=.9)]),
               eff=scheduler([effective_sample_size(eta=.7, solve_max_it=2)]))
    for k in ('A', 'B'):
        kw = dyns.kwargs(dict(sc[k], M=M, N=N, d=d))
        kw.pop('alpha')
        cfg[k] = kw
    if sc['A'] is sc['B'] or sc['A'] == sc['B']:
        cfg['B'] = cfg['A']
    return cfg


class Actor:
    def __init__(self, name, sc, cfg, f):
        self.name, self.sc, self.cfg, self.f, self.pc = name, sc, cfg, f, 0
        self.dyn = None

    def op(self):
        c, s = self.cfg, self.sc[self.name]
        cbs = s['kind'] == 'CBS'
        k = self.pc
        self.pc += 1
        if k == 0:
            kw = dict(c[self.name], **{n: c[n] for n in ('x', 'track_args', 'term_criteria', 'alpha', 'seed')})
            self.dyn = getattr(D, s['kind'])(self.f, f_dim='3D', verbosity=0, **kw)
        elif k == 1:
            self.dyn.step()
            self.dyn.optimize(sched=c['sched'])
        elif k == 2:
            self.dyn.reset()
            self.dyn.optimize(sched=c['eff'] if not cbs and s.get('kernel') is None else c['sched'])
        else:
            self.dyn.terminate()
            self.dyn.step()
        return self.obs()

    def obs(self):
        d = self.dyn
        return dict(env.public(env.snap(d)), alpha=np.array(d.alpha), sigma=np.array(d.sigma), reasons=repr(d.term_reason),
                    history={n: [np.asarray(e, dtype=float) if n != 'particle_idx' else 0 for e in v] for n, v in d.history.items()})


def cfgview(c):
    if isinstance(c, dict):
        return {str(k): cfgview(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return [type(c).__name__] + [cfgview(v) for v in c]
    if isinstance(c, np.ndarray):
        return [str(c.dtype), c.shape, c.tobytes()]
    if isinstance(c, (str, int, float, type(None), type)) or callable(c):
        return repr(c)
    return [type(c).__name__, cfgview(vars(c))] if hasattr(c, '__dict__') else repr(c)


def same(a, b, what):
    need(set(a) == set(b), '%s: %s / %s' % (what, sorted(a), sorted(b)))
    for k in a:
        if k == 'history':
            need(set(a[k]) == set(b[k]), '%s: history of %s / %s' % (what, sorted(a[k]), sorted(b[k])))
            for n in a[k]:
                need(len(a[k][n]) == len(b[k][n]), '%s: history[%r] has %d entries, alone %d' % (what, n, len(a[k][n]), len(b[k][n])))
                for i in range(len(a[k][n])):
                    need_equal('%s: history[%r][%d]' % (what, n, i), a[k][n][i], b[k][n][i])
        elif k == 'reasons':
            need(a[k] == b[k], '%s: reasons %s, alone %s' % (what, a[k], b[k]))
        else:
            need_equal('%s: %s' % (what, k), a[k], b[k])


_ALONE = {}


def alone(sc):
    key = repr(sc)
    if key not in _ALONE:
        _ALONE.clear()
        res = {}
        for n in 'AB':
            a = Actor(n, sc, config(sc), env.quad(1))
            res[n] = [a.op() for _ in range(sc['ops'])]
        _ALONE[key] = res
    return _ALONE[key]


def run(sc, ch, ctx):
    ref = alone(sc)
    cfg = config(sc)
    before = cfgview(cfg)
    f = env.quad(1)
    act = {n: Actor(n, sc, cfg, f) for n in 'AB'}
    written = False
    trace = []
    while True:
        en = [n for n in 'AB' if act[n].pc < sc['ops']]
        if not en:
            break
        if all(a.pc for a in act.values()) and not written:
            en.append('user')
        who = ch.pick(en, 'who')
        trace.append(who)
        if who == 'user':
            cfg['x'] += 0.375
            written = True
            before = cfgview(cfg)
        else:
            o = act[who].op()
            same(o, ref[who][act[who].pc - 1], '%s after %s' % (who, ' '.join(trace)))
            ctx.step()
        for n in 'AB':  # the other one is not affected either
            if act[n].dyn is not None and n != who:
                same(act[n].obs(), ref[n][act[n].pc - 1], '%s (idle) after %s' % (n, ' '.join(trace)))
        now = cfgview(cfg)
        need(now == before, 'the configuration objects of the user are modified after %s: %s' % (
            ' '.join(trace), [k for k in before if now[k] != before[k]]))
        ctx.state(sc['A']['kind'], sc['B']['kind'], [act[n].pc for n in 'AB'], written, canon([a.dyn.x for a in act.values() if a.dyn is not None]))
    ctx.sample('interleaving %s of %s and %s' % (' '.join(trace), sc['A'], sc['B']))
