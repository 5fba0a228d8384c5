"""Every way of writing the same configuration: the same dynamic built twice from differently written options, run to the end and compared."""
import contextlib
import io
import warnings

import numpy as np

import cbx.correction as corr
import cbx.dynamics as D
import cbx.noise as noises
from cbx.dynamics import mirrorcbo, pdyn, polarcbo
from cbx.scheduler import multiply, scheduler
from cbx.utils import history as hist
from cbx.utils import termination as term
from cbx.utils.objective_handling import cbx_objective

from .. import dyns, env, lock
from ..env import need, need_close, need_equal

ID, LEVEL = 'C34', 'model_checking'
RULE = ('every dynamic and variant x shape x batch form; choices: for each option of the constructor and of optimize() which of its equivalent '
        'spellings is used (bounded number of options written differently from the reference spelling); every step of the whole run, a reset and '
        'a second run are compared')
BOUNDS = ('up to 14 options with 2 to 7 spellings each, all pairs of options for one scenario of each dynamic (for all flat ones thorough); M<=3, N=3, 4 steps, '
          'reset and the same again; runs terminating one after the other; also M=4, N=9, d=5 over 12 steps with single options')
ASSUMPTIONS = ['defaults are those of the documentation of CBXDynamic and ParticleDynamic']

CORRECTED = ('CBO', 'CBOMemory', 'PSO', 'PolarCBO', 'MirrorCBO')
SEED = 11


def scenarios(tier):
    th = tier == 'thorough'
    out, seen = [], set()
    for i, b in enumerate(dyns.kinds(rich=th)):
        for j, d in enumerate((2, 3, [2, 2], 1)):
            s = dyns.dim(b, d)
            if s is None or (d == 1 and 'quadric' in s.get('cons', '')) or (d != 2 and not th and (i + j) % 3):
                continue
            bts = [None] if dyns.unbatched(s) else [None, dict(size=2, partial=True, var='resample', seed=42)]
            if not dyns.unbatched(s) and not dyns.partial_only(s):
                bts.append(dict(size=2, partial=False, var='concat', seed=7))
            for k, bt in enumerate(bts):
                if k and d != 2 or k == 2 and not th and i % 2:
                    continue
                pairs = d == 2 and (th and k < 2 or s['kind'] not in seen)
                seen.add(s['kind'])
                out.append(dict(s, M=1 + (i + j + k) % 3, N=3, batch=bt, steps=4, base='default' if (i + j + k) % 2 else 'set', stagger=bool((i + k) % 3), dev=2 if pairs else 1))
    big = []
    for i, b in enumerate(dyns.kinds()):
        d = 5 if not any(k in b for k in ('nk', 'mapkw')) and 'cons' not in b else 2
        s = dyns.dim(b, d)
        if s is not None and (th or i % 2):
            # the root of a rank-deficient covariance magnifies the rounding by which two spellings may differ
            cov = s.get('noise') in ('covariance', 'sampling') or s['kind'] == 'CBS'
            big.append(dict(s, M=4, N=9, batch=None if dyns.unbatched(s) or i % 3 == 0 else dict(size=4, partial=True, var='resample', seed=42), steps=4 if cov else 12,
                            base='set' if i % 4 == 1 else 'default', stagger=True, dev=1))
    for kernel in dyns.KERNELS:  # all magnitudes
        for i, (xs, fs, kap) in enumerate(((1e5, (1., 0.), 8e4), (1e-4, (30., -4.), 7e-5), (1., (1e-3, 5.), 1e-6), (1., (1., 0.), 1e6))):
            if kernel in ('Gaussian', 'Laplace') and kap == 1e-6:
                kap = .05
            out.append(dict(kind='PolarCBO', kernel=kernel, kappa=kap, xs=xs, fs=list(fs), d=2, M=1 + i % 2, N=3, batch=None, steps=4, base='set', stagger=False, dev=1))
    out.append(dict(kind='PolarCBO', kernel='Gaussian', kappa='inf', d=2, M=2, N=3, batch=None, steps=4, base='set', stagger=False, dev=1))
    for i, k in enumerate(('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'CBS')):
        for j, (xs, fs) in enumerate(((1e4, (1e4, 3.)), (1e-4, (1e-4, -1.)))):
            for cr in ('no_correction', 'heavi_side', 'heavi_side_reg') if k in CORRECTED else ('no_correction',):
                s = dict(kind=k, xs=xs, fs=list(fs), d=2, M=1 + (i + j) % 2, N=3, batch=None, steps=4, base='default' if j else 'set', stagger=False, dev=1)
                if cr != 'no_correction':
                    s['corr'] = cr
                if k == 'CBS':
                    s['mode'] = 'sampling'
                out.append(s)
    return out + big


# ---------------------------------------------------------------------------- equivalent spellings
class Config:
    """The reference spelling; the options replace parts of it."""

    def __init__(self, sc):
        self.sc = sc
        M = sc['M']
        self.f = dyns.objective(sc)
        self.rng = np.random.default_rng(SEED)
        self.k = k = dyns.kwargs(dict(sc, batch=None))
        if sc['base'] == 'default':
            k.update(dt=.01, lamda=1., alpha=1.)
            if sc['kind'] != 'CBS':
                k['sigma'] = 5.1
            if sc.get('corr') == 'heavi_side_reg':
                k['correction_eps'] = 1e-3
        else:
            k.update(lamda=2., alpha=3.)
            if sc['kind'] != 'CBS':
                k['sigma'] = 1.
        k.update(f_dim='3D', x=dyns.x0(sc), sampler=self.rng.standard_normal, verbosity=0)
        if sc.get('batch'):
            k['batch_args'] = dict(sc['batch'])
        L = sc['steps']
        self.log = []
        self.stagger = lambda dyn: np.array([sc['stagger'] and dyn.it >= max(1, L - 1 - m) for m in range(dyn.M)])
        self.terms = [term.max_it_term(L), self.stagger, self.rec]
        self.track = None if sc['base'] == 'default' else dict(names=['x', 'energy', 'consensus', 'update_norm'], save_int=2)
        if self.track:
            k['track_args'] = self.track
        self.opt = {}
        self.order = True

    def rec(self, dyn):
        self.log.append(env.snap(dyn))
        return np.zeros(dyn.M, dtype=bool)


def noise_object(sc, c, norm=True):
    cls = {'isotropic': noises.isotropic_noise, 'anisotropic': noises.anisotropic_noise, 'constant': noises.constant_noise,
           'covariance': noises.covariance_noise, 'sampling': noises.covariance_noise}[noise_name(sc)]
    kw = dict(sampler=c.rng.standard_normal)
    if norm:
        kw['norm'] = np.linalg.norm
    return cls(**kw)


def noise_name(sc):
    return sc.get('noise', 'covariance' if sc['kind'] == 'CBS' else 'isotropic')


def noise_user(sc, c):
    name = noise_name(sc)

    def z(dyn):
        return c.rng.standard_normal(size=dyn.drift.shape)

    def iso(dyn):
        ax = tuple(range(2, dyn.drift.ndim))
        return np.sqrt(dyn.dt) * np.sqrt((dyn.drift ** 2).sum(ax, keepdims=True)) * z(dyn)
    if name in ('covariance', 'sampling'):
        def S(dyn):
            return dyn.Cov_sqrt if dyn.Cov_sqrt.ndim == 4 else dyn.Cov_sqrt[:, None]

        def cov(dyn):
            dyn.update_covariance()
            return np.sqrt(2 * dyn.dt * (1 + dyn.alpha[dyn.active_runs_idx]))[:, :, None] * (S(dyn) @ z(dyn)[..., None])[..., 0]
        return cov
    return {'isotropic': iso, 'anisotropic': lambda dyn: np.sqrt(dyn.dt) * dyn.drift * z(dyn), 'constant': lambda dyn: np.sqrt(dyn.dt) * z(dyn)}[name]


def corr_user(name, eps):
    def H(dyn, v):
        if name == 'no_correction':
            return v
        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
        z = dyn.energy[dyn.particle_idx] - dyn.f(dyn.consensus)
        h = (z > 0) * 1. if name == 'heavi_side' else .5 + .5 * np.tanh(z / eps)
        return v * h.reshape(h.shape + (1,) * (v.ndim - 2))
    return H


def gibbs(energy, x, alpha):
    w = np.exp(-alpha * (energy - energy.min(axis=1, keepdims=True)))
    w = w / w.sum(axis=1, keepdims=True)
    return (w.reshape(w.shape + (1,) * (x.ndim - 2)) * x).sum(axis=1, keepdims=True), energy


def polar(energy, x, neg_log_eval, alpha=1., kernel_factor=1.):
    e = alpha * (energy - energy.min(axis=1, keepdims=True))[:, None, :]
    with np.errstate(over='ignore'):
        w = -kernel_factor * neg_log_eval - e
    w = np.exp(w - w.max(axis=2, keepdims=True))
    w = w / w.sum(axis=2, keepdims=True)
    return (w.reshape(w.shape + (1,) * (x.ndim - 2)) * x[:, None]).sum(axis=2), energy


def clip(dyn):
    dyn.x = np.clip(np.where(np.isnan(dyn.x), 1e8, dyn.x), -1e8, 1e8)


class Own(cbx_objective):
    def __init__(self, f):
        super().__init__()
        self.q = f

    def apply(self, x):
        return self.q(x)


class Grow:
    """A user-written schedule."""

    def __init__(self, factor):
        self.factor = factor

    def update(self, dyn):
        dyn.alpha = np.minimum(self.factor * dyn.alpha, np.maximum(dyn.alpha, 1e5))


class View:
    def __init__(self, k):
        self.k = k

    def neg_log(self, x, y):
        return self.k.neg_log(x, y)


class Map:
    def __init__(self, m):
        self.m = m

    def grad(self, x):
        return self.m.grad(x)

    def grad_conj(self, y):
        return self.m.grad_conj(y)


TRACKS = {'x': hist.track_x, 'energy': hist.track_energy, 'consensus': hist.track_consensus, 'update_norm': hist.track_update_norm}
MAPDEFAULTS = {'ProjectionBall': dict(radius=1., center=0.), 'ElasticNet': dict(delta=1., lamda=1.), 'L2': dict(lamda=1.), 'None': dict(lamda=1.),
               'ProjectionHyperplane': dict(a=None, b=0), 'ProjectionSphere': dict(r=1.), 'ProjectionSquare': dict(r=1.)}


def options(sc):
    """[(option, [spelling, ...])]; a spelling is a function that rewrites a Config.  The reference spelling is not listed."""
    kind, M, N = sc['kind'], sc['M'], sc['N']
    deflt = sc['base'] == 'default'
    out = []

    def opt(name, *sp):
        out.append((name, [(a, b) for a, b in sp if b is not None]))

    def put(key, val):
        def g(c):
            c.k[key] = val(c) if callable(val) and getattr(val, '__name__', '') == '<lambda>' else val
        return g

    def drop(*keys):
        def g(c):
            for key in keys:
                c.k.pop(key, None)
        return g

    nn = noise_name(sc)
    hyper = kind == 'HyperSurfaceCBO'
    free = not (hyper and nn != 'isotropic')
    opt('noise', ('left out', drop('noise') if nn == 'isotropic' or kind == 'CBS' else None),
        ('explicit', put('noise', nn)) if kind == 'CBS' else ('explicit', None),
        ('object', put('noise', lambda c: noise_object(sc, c)) if free else None),
        ('object without norm', put('noise', lambda c: noise_object(sc, c, False)) if free else None),
        ('own function', put('noise', lambda c: noise_user(sc, c)) if free and kind != 'CBS' else None),
        ('other name', put('noise', {'covariance': 'sampling', 'sampling': 'covariance'}.get(nn)) if nn in ('covariance', 'sampling') else None))
    if kind in CORRECTED:
        cn = sc.get('corr', 'no_correction')
        eps = 1e-3 if deflt else sc.get('correction_eps', 1e-3)
        obj = {'no_correction': corr.no_correction, 'heavi_side': corr.heavi_side_correction,
               'heavi_side_reg': (lambda: corr.heavi_side_reg_correction(eps=eps))}[cn]
        opt('correction', ('explicit', put('correction', cn)), ('left out', drop('correction') if cn == 'no_correction' else None),
            ('object', put('correction', lambda c: obj())), ('own function', put('correction', lambda c: corr_user(cn, eps))),
            ('default eps', drop('correction_eps') if cn == 'heavi_side_reg' and deflt else None),
            ('object with default eps', put('correction', lambda c: corr.heavi_side_reg_correction()) if cn == 'heavi_side_reg' and deflt else None))
    if kind == 'PolarCBO':
        opt('consensus', ('None', put('compute_consensus', None)), ('library function', put('compute_consensus', lambda c: polarcbo.compute_polar_consensus)),
            ('own function', put('compute_consensus', lambda c: polar)))
        kap = dyns.kwargs(sc)['kappa']
        ker = {'Gaussian': polarcbo.Gaussian_kernel, 'Laplace': polarcbo.Laplace_kernel, 'Constant': polarcbo.Constant_kernel,
               'InverseQuadratic': polarcbo.InverseQuadratic_kernel, 'Taz': polarcbo.Taz_kernel}[sc['kernel']]

        def kobj(c):
            c.k['kernel'] = ker(kappa=kap)
            c.k.pop('kappa')
        opt('kernel', ('object', kobj), ('left out', drop('kernel') if sc['kernel'] == 'Gaussian' else None), ('positional kappa', put('kernel', lambda c: ker(kap))),
            ('own class', put('kernel', lambda c: View(ker(kap)))))
        opt('kernel_factor_mode', ('left out', drop('kernel_factor_mode') if sc.get('kmode', 'alpha') == 'alpha' else None))
    elif not hyper:
        opt('consensus', ('None', put('compute_consensus', None)), ('library object', put('compute_consensus', lambda c: pdyn.compute_consensus_default())),
            ('checked', put('compute_consensus', lambda c: pdyn.compute_consensus_default(check_coeffs=True))), ('own function', put('compute_consensus', lambda c: gibbs)))

    def seeded(c):
        c.k.pop('sampler')
        c.k['seed'] = SEED
    opt('sampler', ('seed', seeded), ('own function', put('sampler', lambda c: (lambda rng: lambda size=None: rng.standard_normal(size))(c.rng))),
        ('seed besides', put('seed', 5)))
    opt('array functions', ('copy', put('copy', lambda c: np.copy)), ('own copy', put('copy', lambda c: lambda x: np.array(x, copy=True))),
        ('norm', put('norm', lambda c: np.linalg.norm)), ('own norm', put('norm', lambda c: lambda x, axis=None: np.sqrt((np.abs(x) ** 2).sum(axis=axis)))),
        ('None', lambda c: c.k.update(copy=None, norm=None)))

    def fd(dim):
        def g(c):
            if dim == '1D':
                c.k.pop('f_dim')
            else:
                c.k['f_dim'] = dim
        return g

    def fwrap(w):
        def g(c):
            c.f = w(c.f)
        return g
    flat = dyns.nd(sc) == 1
    opt('objective', *((('1D by default', fd('1D')), ('1D', put('f_dim', '1D')), ('2D', put('f_dim', '2D'))) if flat else ()), ('library class', fwrap(Own)),
        ('other function', fwrap(lambda f: lambda x: f(np.ascontiguousarray(x)))))
    s = dyns.shape(sc)
    opt('particles', ('strided', lambda c: c.k.update(x=np.repeat(c.k['x'], 2, axis=1)[:, ::2])), ('Fortran order', lambda c: c.k.update(x=np.asfortranarray(c.k['x']))),
        ('without the run axis', (lambda c: c.k.update(x=c.k['x'][0])) if M == 1 and len(s) == 3 else None),
        ('read only', lambda c: c.k['x'].setflags(write=False)), ('M, N besides', lambda c: c.k.update(M=1, N=2, d=9)))
    b = sc.get('batch')
    if b is None and not dyns.unbatched(sc):
        opt('batches', ('None', put('batch_args', None)), ('empty', put('batch_args', {})), ('size None', put('batch_args', dict(size=None))), ('size N', put('batch_args', dict(size=N))),
            ('size above N', put('batch_args', dict(size=N + 4, seed=3, var='concat'))), ('partial or not', put('batch_args', dict(size=N, partial=False))))
    elif b is None:
        opt('batches', ('None', put('batch_args', None)), ('size N', put('batch_args', dict(size=N))))
    elif b == dict(size=b['size'], partial=True, var='resample', seed=42):
        opt('batches', *[('without ' + key, put('batch_args', {a: v for a, v in b.items() if a != key})) for key in ('partial', 'var', 'seed')],
            ('size alone', put('batch_args', dict(size=b['size']))))
    a = 1. if deflt else 3.
    opt('alpha', ('left out', drop('alpha') if deflt else None), ('int', put('alpha', int(a))), ('numpy float', put('alpha', np.float64(a))),
        ('per run', put('alpha', lambda c: np.full((M, 1), a))))
    sig = ([('numpy sigma', put('sigma', np.float64(5.1 if deflt else 1.)))] if kind != 'CBS' else []) + ([('sigma left out', drop('sigma'))] if deflt and kind != 'CBS' else []) + \
          ([('int sigma', put('sigma', 1))] if not deflt and kind != 'CBS' else [])
    opt('parameters', ('int lamda', put('lamda', 1 if deflt else 2)), ('lamda left out', drop('lamda') if deflt else None), ('dt left out', drop('dt') if deflt else None),
        ('numpy dt', put('dt', np.float64(.01 if deflt else dyns.params(sc)['dt']))), *sig)
    L = sc['steps']

    def main(t):
        def g(c):
            c.terms[0] = t
        return g

    def only(c):
        c.terms = None
        c.k['max_it'] = L

    def back(c):
        c.terms = c.terms[::-1]
        c.order = False
    opt('criteria', ('dict', main(dict(name='max-it', max_it=L))), ('other name', main(dict(name='max_it', max_it=L))), ('third name', main(dict(name='max it', max_it=L))),
        ('own function', main(lambda dyn: np.full(dyn.M, dyn.it >= L))), ('max_it besides', put('max_it', 1)), ('reversed', back),
        ('max_it alone', only if not sc['stagger'] else None), ('tuple', lambda c: setattr(c, 'terms', tuple(c.terms))))
    if c_track(sc):
        names = c_track(sc)
        save = 1 if deflt else 2

        def tr(**kw):
            def g(c):
                c.k['track_args'] = kw
            return g
        opt('tracking', ('explicit', tr(names=names, save_int=save)), ('tuple', tr(names=tuple(names), save_int=save)),
            ('reversed', tr(names=names[::-1], save_int=save)), ('objects', tr(names=[], extra_tracks=[TRACKS[n]() for n in names], save_int=save)),
            ('mixed', tr(names=names[1:], extra_tracks=[TRACKS[names[0]]()], save_int=save)),
            ('no save_int', tr(names=names) if deflt else None), ('save_int alone', tr(save_int=1) if deflt else None), ('empty', tr() if deflt else None))
    opt('post-processing', ('None', put('post_process', None)), ('object', put('post_process', lambda c: pdyn.post_process_default())),
        ('threshold', put('post_process', lambda c: pdyn.post_process_default(max_thresh=1e8, copy_nan_to_num=True))), ('own function', put('post_process', lambda c: clip)))
    opt('output', ('verbosity 1', put('verbosity', 1)), ('verbosity by default', drop('verbosity')), ('verbosity 2', put('verbosity', 2)),
        ('saved evaluation points', put('save_consensus_eval_points', True)),
        ('print_int', (lambda c: c.opt.update(print_int=2)) if kind != 'CBS' else None))

    def sch(v):
        def g(c):
            c.opt['sched'] = v()
        return g
    if kind == 'CBS':
        opt('schedule', ('default', sch(lambda: 'default')), ('None', sch(lambda: None)), ('empty', sch(lambda: scheduler([]))))
    else:
        opt('schedule', ('default', sch(lambda: 'default')), ('explicit', sch(lambda: scheduler([multiply(name='alpha', factor=1.05)]))),
            ('keywords', sch(lambda: scheduler([multiply(name='alpha', factor=1.05, maximum=1e5)]))), ('parameter alone', sch(lambda: multiply(name='alpha', factor=1.05))),
            ('own class', sch(lambda: Grow(1.05))), ('own class in the list', sch(lambda: scheduler([Grow(1.05)]))), ('two factors', sch(lambda: scheduler([multiply(name='alpha', factor=1.05 / 2), multiply(name='alpha', factor=2)]))))
    if kind == 'MirrorCBO' and sc['map'] != 'Stiefel':
        mm = sc['map']
        cls = mirrorcbo.mirror_dict[mm]
        other = {'None': 'L2', 'L2': 'None'}.get(mm)
        opt('mirrormap', ('dict', put('mirrormap', dict(name=mm))), ('spelled out', put('mirrormap', dict(name=mm, **MAPDEFAULTS[mm])) if mm in MAPDEFAULTS else None),
            ('object', put('mirrormap', lambda c: cls())), ('own class', put('mirrormap', lambda c: Map(cls()))), ('other name', put('mirrormap', other) if other else None),
            ('left out', drop('mirrormap') if mm in ('None', 'L2') else None), ('None', put('mirrormap', None) if mm in ('None', 'L2') else None))
    if hyper and sc['sdf'] == 'sphere':
        opt('sdf', ('None', put('sdf', None)), ('left out', drop('sdf')))
    if 'cons' in sc:
        def cons(f):
            def g(c):
                c.k['constraints'] = f(c.k['constraints'])
            return g
        opt('constraints', ('tuple', cons(lambda l: tuple(l or ()))), ('with None', cons(lambda l: [None] + list(l or []) + [None])),
            ('left out', drop('constraints') if sc['cons'] == 'none' else None), ('other key order', cons(lambda l: [dict(reversed(list(e.items()))) for e in l or []])))
    if kind == 'AdamCBO':
        opt('betas', ('list', put('betas', [.9, .99])), ('tuple', put('betas', (.9, .99))), ('array', put('betas', np.array([.9, .99]))), ('eps', put('eps', 1e-8)))
    if kind == 'PSO':
        opt('gamma', ('explicit', lambda c: c.k.update(gamma=1 - c.k.get('m', .001))), ('None', put('gamma', None)))
    if kind in ('PSO', 'CBOMemory'):
        opt('memory', ('explicit', lambda c: c.k.update(lamda_memory=.4, sigma_memory=.4 * c.k.get('sigma', 5.1))), ('None', put('sigma_memory', None)),
            ('explicit sigma', lambda c: c.k.update(sigma_memory=.4 * c.k.get('sigma', 5.1))))
    return [(a, b) for a, b in out if b]


def c_track(sc):
    """Tracked names of the reference spelling."""
    if sc['base'] != 'default':
        return ['x', 'energy', 'consensus', 'update_norm']
    return None if sc['kind'] == 'CBS' else ['update_norm', 'energy']


# ---------------------------------------------------------------------------- running and comparing
def execute(sc, picks):
    c = Config(sc)
    for g in picks:
        g(c)
    if c.terms is not None:
        c.k['term_criteria'] = c.terms
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        dyn = getattr(D, sc['kind'])(c.f, **c.k)
        res = [dict(end=env.snap(dyn), history=history(dyn))]
        for again in (0, 1):
            if again:
                dyn.reset()
            best = dyn.optimize(**c.opt)
            res.append(dict(end=env.snap(dyn), history=history(dyn), best=np.array(best),
                            reason=[None if r is None else sorted(map(int, np.ravel(r))) for r in dyn.term_reason]))
    return dict(res=res, log=c.log if c.terms is not None else None, order=c.order)


def history(dyn):
    return {k: [np.array(a) for a in v] if isinstance(v, list) else np.array(v) for k, v in dyn.history.items()}


_last = [None, None]


def reference(sc):
    key = repr(sc)
    if _last[0] != key:
        _last[:] = [key, execute(sc, [])]
    return _last[1]


def same(what, got, want, t):
    for k in want:
        if want[k] is None:
            continue
        need(got.get(k) is not None, '%s %s: %s is missing' % (k, what, k))
        if want[k].dtype.kind in 'iub':
            need_equal('%s %s' % (k, what), got[k], want[k])
        else:
            need_close('%s %s' % (k, what), got[k], want[k], **t)


def run(sc, ch, ctx):
    t = lock.tol(sc, 1e-7, 1e-7)
    t = dict(rtol=t['rtol'], atol=t['atol'] * sc.get('xs', 1.))
    opts = options(sc)
    picks, names = [], []
    for name, sp in opts:
        k = ch.choose(len(sp) + 1, name)
        if k:
            picks.append(sp[k - 1][1])
            names.append('%s: %s' % (name, sp[k - 1][0]))
    if len(names) == 2 and incompatible(names):
        return
    ref = reference(sc)
    got = execute(sc, picks)
    how = 'with %s' % ('; '.join(names) or 'the same spelling')
    if got['log'] is not None:
        need(len(got['log']) == len(ref['log']), '%d termination checks instead of %d %s' % (len(got['log']), len(ref['log']), how))
        for i, (a, b) in enumerate(zip(got['log'], ref['log'])):
            same('at check %d %s' % (i, how), a, b, t)
            ctx.step()
            ctx.state(sc['kind'], env.public(a))
    for j, (a, b) in enumerate(zip(got['res'], ref['res'])):
        what = '%s %s' % (('after construction', 'after the run', 'after reset and second run')[j], how)
        same(what, a['end'], b['end'], t)
        need(set(a['history']) == set(b['history']), 'history has %s instead of %s %s' % (sorted(a['history']), sorted(b['history']), what))
        for k, v in b['history'].items():
            need(len(a['history'][k]) == len(v), 'history of %s has %d entries instead of %d %s' % (k, len(a['history'][k]), len(v), what))
            for i in range(len(v)):
                need_close('history[%s][%d] %s' % (k, i, what), a['history'][k][i], v[i], **t)
        if j:
            need_close('returned particle ' + what, a['best'], b['best'], **t)
            if got['order'] and got['log'] is not None:
                need(a['reason'] == b['reason'], 'term_reason is %s instead of %s %s' % (a['reason'], b['reason'], what))
    ctx.sample('%s %s' % (sc['kind'], how))


def incompatible(names):
    """Pairs of spellings that overwrite each other."""
    j = ' '.join(names)
    return 'sampler: seed' in j and 'noise: o' in j
