"""Construction of every dynamic from a JSON-able scenario."""
import zlib

import numpy as np

import cbx.dynamics as D

from . import env

DEFAULTS = dict(dt=0.1, lamda=1.3, sigma=0.7, alpha=2.0)
BASIC = ['CBO', 'CBOMemory', 'PSO', 'AdamCBO']
MIRRORS = ['None', 'L2', 'ElasticNet', 'ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere',
           'ProjectionSquare', 'LogBarrierBox', 'NonsmoothBarrier', 'Entropy', 'EntropySimplex', 'Stiefel']
KERNELS = ['Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz']


def shape(sc):
    d = sc.get('d', 2)
    return (sc.get('M', 2), sc.get('N', 3)) + (tuple(d) if isinstance(d, (list, tuple)) else (d,))


def nd(sc):
    d = sc.get('d', 2)
    return len(d) if isinstance(d, (list, tuple)) else 1


def params(sc):
    p = dict(DEFAULTS)
    p.update({k: sc[k] for k in ('dt', 'lamda', 'sigma', 'alpha') if k in sc})
    return p


def alpha_arr(sc, M):
    a = params(sc)['alpha']
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=float)[:M]
    return np.full(M, float(a))


def mirror_spec(sc):
    mm = sc.get('map', 'None')
    kw = dict(sc.get('mapkw', {}))
    d = shape(sc)[-1]
    if mm == 'ProjectionHyperplane' and kw.get('a') is not None:
        kw['a'] = np.array(kw['a'], dtype=float)
    if mm == 'ProjectionBall' and isinstance(kw.get('center'), list):
        kw['center'] = np.array(kw['center'], dtype=float)
    if mm == 'Stiefel':
        from cbx.dynamics.mirrorcbo import ProjectionStiefel
        return ProjectionStiefel(nk=tuple(sc['nk']))
    if mm == 'None' and not kw:
        return None
    if not kw:
        return mm
    return dict(name=mm, **kw)


def hyper_spec(sc):
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return None if sc.get('sdf_default') else dict(name='sphere')
    if s == 'plane':
        return dict(name='plane', a=np.array(sc.get('a', env.generic((shape(sc)[-1],), 77) * 1.5)), b=sc.get('b', 0.4))
    return dict(name='Stiefel', nk=tuple(sc['nk']))


def kwargs(sc):
    """Constructor keywords of the scenario (without f, x, sampler, term_criteria)."""
    k = dict(params(sc))
    M = shape(sc)[0]
    if isinstance(k['alpha'], (list, tuple)):
        k['alpha'] = alpha_arr(sc, M)[:, None].copy()
    for o in ('noise', 'correction_eps', 'max_it', 'seed'):
        if o in sc:
            k[o] = sc[o]
    if 'corr' in sc:
        k['correction'] = sc['corr']
    if sc.get('batch'):
        k['batch_args'] = dict(sc['batch'])
    kind = sc['kind']
    if kind in ('CBOMemory', 'PSO'):
        for o in ('lamda_memory', 'sigma_memory'):
            if o in sc:
                k[o] = sc[o]
    if kind == 'PSO':
        for o in ('m', 'gamma'):
            if o in sc:
                k[o] = sc[o]
    if kind == 'AdamCBO':
        if 'betas' in sc:
            k['betas'] = tuple(sc['betas'])
        if 'eps' in sc:
            k['eps'] = sc['eps']
    if kind == 'CBS':
        k.pop('sigma')
        if 'mode' in sc:
            k['mode'] = sc['mode']
    if kind == 'PolarCBO':
        kap = sc.get('kappa', 0.7)
        k.update(kernel=sc.get('kernel', 'Gaussian'), kappa=np.inf if kap == 'inf' else kap,
                 kernel_factor_mode=sc.get('kmode', 'alpha'))
    if kind == 'MirrorCBO':
        k['mirrormap'] = mirror_spec(sc)
    if kind == 'HyperSurfaceCBO':
        k['sdf'] = hyper_spec(sc)
    if kind == 'DriftConstrainedCBO':
        k['constraints'] = env.constr(sc.get('cons', 'none'), shape(sc)[-1])
        for o in ('eps', 'eps_indep', 'sigma_indep'):
            if o in sc:
                k[o] = sc[o]
    if kind == 'RegCombinationCBO':
        k['constraints'] = env.constr(sc.get('cons', 'none'), shape(sc)[-1])
        for o in ('eps', 'nu'):
            if o in sc:
                k[o] = sc[o]
    return k


def x0(sc, key=0):
    """Generic initial particles suitable for the scenario's dynamic."""
    s = shape(sc)
    x = env.generic(s, 3 + key, 0.9) * sc.get('xs', 1.)
    kind = sc['kind']
    if kind == 'HyperSurfaceCBO':
        x = on_surface(sc, x)
    if kind == 'MirrorCBO':
        mm = sc.get('map', 'None')
        if mm in ('Entropy',):
            x = np.abs(x) + 0.2
        if mm == 'EntropySimplex':
            x = np.abs(x) + 0.2
            x = x / x.sum(axis=-1, keepdims=True)
    return x


def on_surface(sc, x):
    s = sc.get('sdf', 'sphere')
    if s == 'sphere':
        return x / np.sqrt((x ** 2).sum(-1, keepdims=True))
    if s == 'plane':
        h = hyper_spec(sc)
        a, b = h['a'], h['b']
        return x - (((x * a).sum(-1) - b) / (a * a).sum())[..., None] * a
    n, k = sc['nk']
    out = np.empty_like(x)
    for i in np.ndindex(*x.shape[:-1]):
        q, _ = np.linalg.qr(x[i].reshape(n, k))
        out[i] = q.reshape(-1)
    return out


FS = [(1., -40.), (25., 7.), (1e-3, 0.), (1., 1e3)]


def objective(sc):
    """The generic objective at the magnitude of the scenario: values a*f(x/xs)+b."""
    q = env.quad(nd(sc))
    if 'fs' not in sc and 'xs' not in sc:
        return q
    (a, b), xs = sc.get('fs', (1., 0.)), sc.get('xs', 1.)
    return lambda x: a * q(x / xs) + b


def magnify(out, every=6):
    """Adds copies of every n-th scenario with energies and coordinates of other magnitudes."""
    i = 0
    for s in list(out):
        if 'lazy' in s or 'alph' in s or 'kind' not in s or 'form' in s:
            continue
        i += 1
        if i % every:
            continue
        j = i // every
        fs = FS[j % 4]
        if s.get('corr', 'no_correction') != 'no_correction' and fs[0] > 1:
            fs = FS[0]
        c = dict(s, fs=list(fs))
        if s['kind'] in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'PolarCBO', 'CBS') and j % 3:
            c['xs'] = (30., 0.05)[j % 2]
        elif 'dt' not in c:
            c['dt'] = (1.7, 4.)[j // 3 % 2]
        out.append(c)
    return out


def stretch(out, count=14, key='depth', depth=12, dev=1, M=4, N=9, skip=()):
    """Adds large and long copies (more runs, particles, coordinates, steps) of evenly chosen scenarios, with at most dev deviations from the
    default choices."""
    seen, pool = set(), []
    for s in out:
        if any(k in s for k in ('lazy', 'alph', 'form', 'torch', 'root', 'kernels', 'fs', 'collapse', 'f_dim', 'opt') + tuple(skip)) or 'kind' not in s or s.get('ens', 'generic') != 'generic':
            continue
        b = s.get('batch') or {}
        sig = repr(sorted((k, v) for k, v in s.items() if k not in ('M', 'N', 'd', 'alpha', 'batch', key))) + repr((b.get('partial'), b.get('var'), type(s['d'])))
        if sig not in seen:
            seen.add(sig)
            pool.append(s)
    n = max(1, len(pool) // count)
    for i, s in enumerate(pool[n // 2::n]):
        c = dict(s, M=M, N=N, dev=dev)
        c[key] = depth
        if isinstance(c.get('alpha'), list):
            c['alpha'] = [.5, 4., 20., 1.3, 7.][:M]
        if c.get('batch'):
            c['batch'] = dict(c['batch'], size=(4, 5, 2)[i % 3])
        if isinstance(c['d'], int) and not any(k in c for k in ('a', 'nk', 'mapkw', 'cons')) and i % 2:
            c['d'] = 5
        out.append(c)
    return out


def aside(sc):
    """Settings that must not influence the particles; every scenario gets one of them."""
    i = zlib.crc32(repr(sorted((a, str(b)) for a, b in sc.items())).encode()) % 4
    if i == 1:
        return dict(track_args=dict(names=['x', 'update_norm'], save_int=3))
    if i == 2:
        return dict(track_args=dict(names=['energy', 'consensus'], save_int=2))
    if i == 3:
        return dict(track_args=dict(names=[]), save_consensus_eval_points=True)
    return {}


def build(sc, f, x=None, sampler=None, switch=None, cls=None, **over):
    k = kwargs(sc)
    if sc.get('no_sampler'):
        sampler = None
    if sampler is not None:
        k['sampler'] = sampler
    k['f_dim'] = sc.get('f_dim', '3D')
    k['verbosity'] = 0
    if switch is not None:
        k['term_criteria'] = [switch]
    k['x'] = x0(sc) if x is None else x
    k.update(over)
    k = {n: v for n, v in k.items() if v is not ...}  # ... leaves an option out
    cls = cls or getattr(D, sc['kind'])
    if 'track_args' not in k:
        k.update(aside(sc))
    return cls(f, **k)


def set_active(dyn, switch, terminated):
    """Terminate exactly the given runs through the public termination check."""
    switch.mask[:] = False
    switch.mask[list(terminated)] = True
    return dyn.terminate()


# ---------------------------------------------------------------------------------- scenario lattices
def batches(N, partial_only=False, full_only=False):
    yield None
    for size in range(1, N):
        for part in ((True,) if partial_only else (False,) if full_only else (True, False)):
            for var in ('resample', 'concat'):
                yield dict(size=size, partial=part, var=var, seed=size + 1)


def subsets(M):
    """All proper subsets of runs (as terminated sets), the empty one first."""
    for k in range(2 ** M - 1):
        yield [m for m in range(M) if k >> m & 1]


NOISES = ['isotropic', 'anisotropic', 'constant', 'covariance']
CORRS = ['no_correction', 'heavi_side', 'heavi_side_reg']


def kinds(rich=True, d=2):
    """Every dynamic with its own variants (no batching, no runs yet)."""
    out = []
    for n in NOISES:
        for c in (CORRS if rich or n == 'isotropic' else CORRS[:1]):
            for k in ('CBO', 'CBOMemory', 'PSO'):
                s = dict(kind=k, noise=n, corr=c)
                if c == 'heavi_side_reg':
                    s['correction_eps'] = 0.4
                if k == 'PSO':
                    s['m'] = 0.3
                out.append(s)
        out.append(dict(kind='AdamCBO', noise=n))
    out.append(dict(kind='CBO', noise='sampling'))
    out += [dict(kind='CBS', mode=m) for m in ('sampling', 'optimization')]
    for i, k in enumerate(KERNELS):
        for n in (NOISES if rich else [NOISES[i % 4]]):
            for km in (('alpha', 'const') if n == 'isotropic' else ('alpha',)):
                out.append(dict(kind='PolarCBO', kernel=k, noise=n, kmode=km))
    for c in CORRS[1:]:
        out.append(dict(kind='PolarCBO', kernel='Gaussian', noise='isotropic', corr=c, correction_eps=0.4))
    for i, mm in enumerate(MIRRORS):
        for n in (NOISES if rich and i < 4 else [NOISES[i % 4]]):
            s = dict(kind='MirrorCBO', map=mm, noise=n)
            if mm == 'Stiefel':
                s.update(nk=[2, 1])
            out.append(s)
    out.append(dict(kind='MirrorCBO', map='ProjectionBall', noise='isotropic', corr='heavi_side'))
    for s in ('sphere', 'plane', 'Stiefel'):
        for n in ('isotropic', 'anisotropic') if s == 'sphere' else ('isotropic',):
            q = dict(kind='HyperSurfaceCBO', sdf=s, noise=n)
            if s == 'Stiefel':
                q['nk'] = [2, 1]
            out.append(q)
    for i, c in enumerate(env.CONSTR):
        for n in (NOISES if rich and i < 2 else [NOISES[i % 4]]):
            out.append(dict(kind='DriftConstrainedCBO', cons=c, noise=n, eps=0.2))
    for i, c in enumerate(['none', 'plane', 'sphere', 'quadric', 'quadric_ns']):
        for n in (NOISES if rich and i < 2 else [NOISES[i % 4]]):
            out.append(dict(kind='RegCombinationCBO', cons=c, noise=n, eps=0.8, nu=0.5))
    return out


def partial_only(s):
    return s['kind'] == 'PolarCBO'


def unbatched(s):
    return s['kind'] == 'CBS'


def flat_only(s):
    """Dynamics that are defined for flat particles only."""
    return (s['kind'] in ('CBS', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'MirrorCBO')
            or s.get('noise') in ('covariance', 'sampling')
            or (s['kind'] == 'PolarCBO' and s.get('kernel') != 'Gaussian'))


def dim(s, d):
    """Scenario s for dimension d (None if it is not defined there)."""
    s = dict(s)
    if isinstance(d, list) and flat_only(s):
        return None
    if 'nk' in s:
        if isinstance(d, list) or d < 2:
            return None
        s['nk'] = [d // 2, 2] if d >= 4 and d % 2 == 0 else [d, 1]
    if d == 1 and (s.get('sdf') == 'sphere' or s.get('map') in ('ProjectionSphere',)):
        return None
    s['d'] = d
    return s
