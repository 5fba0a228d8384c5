"""Batches: consecutive pieces of uniformly drawn permutations, used exactly as configured."""
import itertools
import math

import numpy as np

from cbx.dynamics import pdyn

from .. import dyns, env, lock
from ..env import need, need_equal

ID, LEVEL = 'C15', 'model_checking'
RULE = ('scripted generator: every permutation of every run at every draw is an environment choice; real generator: every batch '
        'seed below a bound, all dynamics, sizes, variants and partial modes; choices: the step at which runs terminate; '
        'all seeds together must reach every pair of (joint) permutations evenly')
BOUNDS = 'N<=4, M<=2, up to 3 scripted permutations per run; seeds <40 per configuration, <4000 for uniformity; 8 steps; real generators with M=4, N=9 and 11 over 20-25 steps'
ASSUMPTIONS = ['runs are judged until their first termination',
               'uniformity is judged over the seeds 0..S-1 (all cells reached, chi-square far below a 1e-9 rejection level)']


class Foreign(Exception):
    pass


class Script:
    """A generator whose permutations are choices; draws[k] is the k-th answered array."""

    def __init__(self, ch, limit):
        self.ch, self.draws, self.limit = ch, [], limit

    def row(self, r):
        r = np.array(r)
        if self.limit <= 0:
            return r[::-1]
        perms = list(itertools.permutations(range(len(r))))
        return r[list(perms[self.ch.choose(len(perms), 'perm')])]

    def permuted(self, x, axis=None, out=None):
        x = np.asarray(x)
        if x.ndim != 2 or axis not in (1, -1) or out is not None:
            raise Foreign()
        y = np.stack([self.row(r) for r in x])
        self.limit -= 1
        self.draws.append(np.array(y))
        return y

    def __getattr__(self, name):
        raise Foreign(name)


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    # every permutation
    for M, N, draws in ((1, 3, 3), (2, 2, 3), (2, 3, 2), (1, 4, 2)) + (((3, 3, 1), (2, 3, 3), (1, 4, 3)) if th else ()):
        for size in range(1, N):
            for var in ('resample', 'concat'):
                for part in (True, False):
                    if M * N > 5 and not part and not th or draws > 1 and N == 4 and not part:
                        continue
                    out.append(dict(fam='script', kind='CBO', M=M, N=N, d=1, draws=draws, steps=draws * (N // size) + 1,
                                    batch=dict(size=size, partial=part, var=var)))
    # the real generator
    ks = [dict(kind=k) for k in ('CBO', 'CBOMemory', 'PSO', 'AdamCBO')] + [
        dict(kind='PolarCBO'), dict(kind='MirrorCBO'), dict(kind='MirrorCBO', map='ProjectionBall'), dict(kind='HyperSurfaceCBO'),
        dict(kind='DriftConstrainedCBO', cons='sphere'), dict(kind='RegCombinationCBO', cons='plane'),
        dict(kind='CBO', noise='covariance'), dict(kind='CBO', corr='heavi_side'), dict(kind='CBOMemory', noise='anisotropic')]
    for k in ks:
        for M, N in ((1, 1), (1, 3), (2, 4), (3, 3)) + (((1, 5), (2, 5), (4, 4)) if th else ()):
            for size in [None] + list(range(1, N + 2)):
                for var in ('resample', 'concat'):
                    for part in (True, False):
                        if not part and k['kind'] == 'PolarCBO':
                            continue
                        out.append(dict(k, fam='real', M=M, N=N, d=2, batch=dict(size=size, partial=part, var=var, seed=7 * N + M),
                                        steps=8 if th else 6, M2=M))
        for i, size in enumerate((2, 4, 5, 7, 8)):
            for var in ('resample', 'concat'):
                part = k['kind'] == 'PolarCBO' or (i + len(var)) % 2 == 0
                out.append(dict(k, fam='real', M=4, N=9, d=2, batch=dict(size=size, partial=part, var=var, seed=size), steps=20, M2=4, dev=1))
    for b in ({}, dict(size=2), dict(partial=False), dict(var='concat', size=2), dict(seed=3), dict(size=2, seed=3)):
        out.append(dict(fam='real', kind='CBO', M=2, N=5, d=1, batch=b, steps=6))
    for size in (1, 2, 3):
        for var in ('resample', 'concat'):
            for s in range(0, 400 if th else 80, 10):
                out.append(dict(fam='seeds', kind='CBO', M=2, N=4, d=1, seeds=[s, s + 10], batch=dict(size=size, var=var), steps=9))
            out.append(dict(fam='seeds', kind='CBO', M=4, N=11, d=1, seeds=[size, size + 3], batch=dict(size=3 + 2 * size, var=var), steps=25))
    # uniformity over all seeds
    for M, N, size, var in ((1, 3, 1, 'resample'), (2, 3, 2, 'concat'), (2, 2, 1, 'resample'), (3, 2, 1, 'concat'), (1, 4, 2, 'resample'),
                            (1, 4, 3, 'concat')):
        out.append(dict(fam='uniform', kind='CBO', M=M, N=N, d=1, S=4000 if th else 1500, batch=dict(size=size, var=var)))
    for k in ks:
        out.append(dict(k, fam='det', M=2, N=4, d=2, batch=dict(size=3 if k['kind'] != 'CBO' else 2, var='concat'), steps=5))
    return out


def effective(sc):
    N = sc['N']
    size = sc['batch'].get('size', N)
    return N if size is None else min(size, N)


def seq_ok(seq, N, size, var, what):
    """seq: the consecutively used particle numbers of one run."""
    if size == N:
        return
    if var == 'concat':
        blocks = [seq[i:i + N] for i in range(0, len(seq), N)]
    else:
        c = (N // size) * size
        blocks = [seq[i:i + c] for i in range(0, len(seq), c)]
    for b in blocks:
        need(len(set(b)) == len(b), '%s: a particle is used twice within one permutation: %s (%s)' % (what, b, seq))
    if var == 'concat':
        n = [seq.count(i) for i in range(N)]
        need(max(n) - min(n) <= 1, '%s: usage counts %s' % (what, n))


def joined(rows, size):
    """Left-over particles come first, the batch is completed with the first ones of the new permutation that do not belong to it."""
    out = []
    for q in rows:
        k = len(out) % size
        left = out[len(out) - k:]
        head = [n for n in q if n not in left][:size - k] if k else []
        out += head + [n for n in q if n not in head]
    return out


def drive(sc, ch, ctx, s, steps, terms, seqs):
    """Steps of session s with all selections judged."""
    N, size, part = sc['N'], effective(sc), sc['batch'].get('partial', True)
    mem = sc['kind'] in ('CBOMemory', 'PSO')
    alive = set(range(sc['M']))
    for t in range(steps):
        term = terms(t)
        r = s.step(term)
        alive -= set(term)
        for m in r.active:
            b = r.csel[m]
            need(len(b) == size, 'step %d: the batch of run %d has %d particles, %d configured' % (t + 1, m, len(b), size))
            need(len(set(b)) == size, 'step %d: the batch %s of run %d contains a particle twice' % (t + 1, b, m))
            if m in alive:
                seqs[m] += b
            want = b if part or size == N else list(range(N))
            need(sorted(r.psel[m]) == sorted(want), 'step %d: run %d updates %s, batch %s, partial=%s' % (t + 1, m, r.psel[m], b, part))
            moved = [n for n in range(N) if not np.array_equal(r.pre['x'][m, n], r.post['x'][m, n])]
            if sc['kind'] != 'MirrorCBO' and (t == 0 or N > 1):
                # a particle may only stay if its attraction and noise vanish (a batch of one CBO particle, first step of PSO)
                still = (len(set(b)) == 1 and sc['kind'] not in ('CBOMemory', 'PSO')) or mem and len(set(b)) == 1 or sc.get('corr') == 'heavi_side' \
                    or sc.get('noise') == 'covariance' or sc.get('map')
                if not still:
                    need(moved == sorted(set(want)), 'step %d: particles %s of run %d moved, %s are selected' % (t + 1, moved, m, want))
                need(set(moved) <= set(want), 'step %d: particles %s of run %d moved, %s are selected' % (t + 1, moved, m, want))
            if size < N:
                ev = [c[r.active.index(m)] for c in r.fcalls if c.shape[0] == len(r.active)]
                x = r.post['x'] if mem else r.pre['x']
                cols = r.psel[m] if mem else b
                need(any(len(e) == len(cols) and np.array_equal(e, x[m, cols]) for e in ev) or sc['kind'] == 'RegCombinationCBO',
                     'step %d: the objective is not evaluated on exactly the batch %s of run %d' % (t + 1, cols, m))
                extra = 1 if sc.get('corr') == 'heavi_side' else 0
                need(sum(len(e) for e in ev) <= len(cols) + extra * (1 if sc['kind'] != 'PolarCBO' else N),
                     'step %d: run %d is evaluated at %d points for a batch of %d' % (t + 1, m, sum(len(e) for e in ev), len(cols)))
            seq_ok(seqs[m], N, size, sc['batch'].get('var', 'resample'), 'run %d' % m)
        ctx.state(sc['kind'], [list(q) for q in seqs], sc['batch'].get('var', ''))


def run(sc, ch, ctx):
    M, N, size = sc['M'], sc['N'], effective(sc)
    var = sc['batch'].get('var', 'resample')
    if sc['fam'] == 'script':
        script = Script(ch, sc['draws'])
        real = pdyn.Generator if hasattr(pdyn, 'Generator') else None
        try:
            if real is not None:
                pdyn.Generator = lambda *a, **k: script
            try:
                s = lock.Session(sc, ch, ctx)
                seqs = [[] for _ in range(M)]
                drive(sc, ch, ctx, s, sc['steps'], lambda t: [], seqs)
            except Foreign:
                ctx.state('foreign')
                ctx.step()
                return
        finally:
            if real is not None:
                pdyn.Generator = real
        if not script.draws or any(dr.shape != (M, N) for dr in script.draws):
            return
        for m in range(M):
            rows = [list(map(int, dr[m])) for dr in script.draws]
            if var != 'concat':
                rows = [q[:(N // size) * size] for q in rows]
            flat = sum(rows, []) if var != 'concat' else joined(rows, size)
            need(seqs[m] == flat[:len(seqs[m])], 'run %d uses %s, the drawn permutations are %s' % (m, seqs[m], rows))
        ctx.sample('permutations %s -> batches of %d: %s' % ([dr.tolist() for dr in script.draws], size, seqs))
    elif sc['fam'] == 'real':
        s = lock.Session(sc, ch, ctx)
        seqs = [[] for _ in range(M)]
        at = ch.choose(3, 'when') if M > 1 else 0
        who = lock.acts(ch, M) if at else []
        drive(sc, ch, ctx, s, sc['steps'], lambda t: who if at and t >= at else [], seqs)
        if sc['batch'].get('size', N) is None or size == N:
            for q in seqs:
                need(all(q[i:i + N] == list(range(N)) for i in range(0, len(q), N)), 'an unbatched dynamic does not use all particles: %s' % q)
    elif sc['fam'] == 'seeds':
        for seed in range(*sc['seeds']):
            c = dict(sc, batch=dict(sc['batch'], seed=seed))
            s = lock.Session(c, ch, ctx)
            seqs = [[] for _ in range(M)]
            drive(c, ch, ctx, s, sc['steps'], lambda t: [], seqs)
    elif sc['fam'] == 'uniform':
        per = N if var == 'concat' else (N // size) * size
        steps = -(-2 * per // size)
        cells = {}
        x = np.zeros((M, N, 1))
        for seed in range(sc['S']):
            b = dict(sc['batch'], seed=seed)
            dyn = dyns.build(dict(sc, batch=b), lambda p: p[..., 0], x=x, sampler=lambda size: np.zeros(size))
            seqs = [[] for _ in range(M)]
            for _ in range(steps):
                dyn.set_batch_idx()
                g = env.sel(dyn, dyn.consensus_idx)
                for m in range(M):
                    seqs[m] += (g[m] % N).tolist()
            for name, key in [('first permutations of all runs', tuple(tuple(q[:per]) for q in seqs)),
                              ('second permutations of all runs', tuple(tuple(q[per:2 * per]) for q in seqs))] + \
                    [('two consecutive permutations of run %d' % m, tuple(seqs[m][:2 * per])) for m in range(M) if N <= 3 and (var != 'concat' or N % size == 0)]:
                cells.setdefault(name, {}).setdefault(key, [0])[0] += 1
            ctx.step(steps)
            ctx.state(seqs)
        one = math.perm(N, per)
        for name, c in cells.items():
            k = one ** 2 if name.startswith('two') else one ** M
            e = sc['S'] / k
            chi = sum((v[0] - e) ** 2 / e for v in c.values()) + (k - len(c)) * e
            need(len(c) <= k, '%s: %d different outcomes, only %d exist' % (name, len(c), k))
            need(len(c) == k or e < 20, '%s: only %d of %d outcomes occur for %d seeds' % (name, len(c), k, sc['S']))
            need(chi < k + 8 * math.sqrt(2 * k) + 20, '%s are not uniform over %d seeds: chi-square %.1f for %d cells' % (name, sc['S'], chi, k))
    else:
        ref = None
        for i, alt in enumerate((dict(), dict(seed=3), dict(sigma=0.), dict(lamda=2., alpha=9.), dict(dt=0.5))):
            c = dict(sc, batch=dict(sc['batch'], seed=11), no_sampler=True)
            c.update(alt)
            c['no_sampler'] = False
            np.random.seed(i)
            s = lock.Session(c, ch, ctx, x=dyns.x0(c, key=i), fun=env.quad(1, seed=5 + i))
            log = []
            for t in range(sc['steps']):
                np.random.rand(i + t)
                r = s.step()
                log.append([r.csel[m] for m in range(M)])
            if ref is None:
                ref = log
            need(log == ref, 'with the same batch seed the batches differ: %s / %s (%s)' % (ref, log, alt))
        c = dict(sc, batch=dict(sc['batch'], seed=12))
        s = lock.Session(c, ch, ctx)
        other = [[s.step().csel[m] for m in range(M)] for t in range(sc['steps'])]
        # r is not kept: csel of one step each
        need(other != ref, 'different batch seeds give the same batches')
