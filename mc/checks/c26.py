"""optimize() against the manual loop: every sequence of loop operations up to a depth on two copies of one dynamic."""
import contextlib
import io

import numpy as np

import cbx.dynamics as D
from cbx.scheduler import effective_sample_size, multiply, scheduler
from cbx.utils.termination import max_it_term, max_time_term

from .. import dyns, env
from ..core import Violation
from ..env import need, need_equal

ID, LEVEL = 'C26', 'model_checking'
RULE = ('every sequence of loop operations (termination check, step with schedule update, optimize() up to one or two further iterations or with '
        'nothing left to do, reset) up to the depth, on every kind of dynamic, with every kind of schedule, verbosity and print interval; a second '
        'identical dynamic is driven by the written-out loop, a third one by one optimize() call; all states and histories are compared exactly')
BOUNDS = 'M<=3, N=3; sequences of up to 3 operations, up to 8 iterations; runs ending at different iterations; also M=4, N=9 with runs of up to 24 iterations'
ASSUMPTIONS = ['the termination criteria depend on the current state only (stagnation criteria sample the state at every check)',
               'stepping goes through the termination check']


class Limit:
    """Ends run m at iteration own[m], and all runs at the current pause."""

    def __init__(self, own):
        self.own, self.pause = np.array(own), 10 ** 6

    def __call__(self, dyn):
        return dyn.it >= np.minimum(self.own, self.pause)


class Probe:
    def __init__(self):
        self.log = []

    def update(self, dyn):
        self.log.append(dyn.it)


class Shrink:
    """A schedule entry of the user's own."""

    def update(self, dyn):
        if hasattr(dyn, 'lamda'):
            dyn.lamda = dyn.lamda * .95


SCHEDS = ['default', 'effective', None, 'list', 'user']


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for s in dyns.kinds(rich=False) + [dict(kind='base')]:
        d = dict(s, d=2)
        for i, bt in enumerate([None] if dyns.unbatched(s) or s['kind'] == 'base'
                               else [None] + list(dyns.batches(3, partial_only=dyns.partial_only(s)))[1:]):
            scheds = [q for q in SCHEDS if not (q == 'effective' and s['kind'] in ('CBS', 'base'))]
            for q, sched in enumerate(scheds):
                if not th and (i and (i + q) % 8 or not i and q % 2 and sched is not None):
                    continue
                out.append(dict(d, fam='ops', M=3, N=3, batch=bt, sched=sched, depth=2 if not th or i else 3, verbosity=(q + i) % 3,
                                save_int=1 + (q + i) % 2, alpha=2., pint=(None, 1, 2)[len(out) % 3]))
                if s['kind'] != 'CBS' and (th or not len(out) % 5):
                    out[-1]['swap'] = 1
        if s['kind'] != 'base':
            for crit in ('max_it', 'list', 'time', 'both') if th else (('max_it', 'time') if len(out) % 2 else ('max_it', 'both')):
                out.append(dict(d, fam='real', M=2, N=3, crit=crit, sched='default'))
    for i, s in enumerate(dyns.kinds(rich=False)):
        if i % 27 == 0 or th:
            out.append(dict(s, d=2, fam='ops', M=3, N=3, sched='default', depth=3, verbosity=1, save_int=1, alpha=2.))
        if i % 9 == 0 or th:
            out.append(dict(dyns.dim(s, 2), fam='ops', M=4, N=9, sched=SCHEDS[i % 4 if s['kind'] != 'CBS' else 0], depth=2, verbosity=i % 3, save_int=(1, 4, 5)[i % 3], alpha=[.5, 4., 20., 1.3],
                            own=[7, 24, 13, 19], pint=(None, 5, 7)[i % 3], batch=None if dyns.unbatched(s) else dict(size=4, partial=dyns.partial_only(s) or i % 2 == 0)))
    return sorted(out, key=lambda s: (s['fam'] != 'real', s.get('depth', 0)))


def walk():
    from cbx.dynamics.pdyn import ParticleDynamic

    class Walk(ParticleDynamic):
        def inner_step(self):
            a = self.active_runs_idx
            self.energy[a] = self.f(self.x[a])
            self.num_f_eval[a] += self.N
            self.x[a] = self.x[a] + .25 * self.sampler(size=self.x[a].shape)
    return Walk


def make(sc, crit, verbosity=0, x=None):
    noise = env.Noise(lambda k, size: env.generic(size, 40 + k))
    ta = dict(names=['x', 'energy', 'update_norm', 'best_energy'], save_int=sc.get('save_int', 1))
    if sc['kind'] == 'base':
        dyn = walk()(env.quad(1), f_dim='3D', x=env.generic((sc['M'], sc['N'], 2), 3) if x is None else x, sampler=noise,
                     term_criteria=[crit], track_args=ta)
    else:
        over = dict(track_args=ta)
        if crit is not None:
            over['term_criteria'] = [crit] if not isinstance(crit, list) else crit
        else:
            over['max_it'] = 4
        dyn = dyns.build(sc, env.quad(1), x=x, sampler=noise, **over)
    dyn.verbosity = verbosity
    noise.live = True
    return dyn


def sched_of(sc):
    """(argument for optimize, fresh equal schedule for the loop, probe)."""
    q = sc['sched']
    if q in ('default', 'effective', None):
        return q, None
    p = Probe()
    base = sc['kind'] == 'base'
    if q == 'list':
        return scheduler(([] if base else [multiply(name='sigma', factor=.9), multiply(name='dt', factor=.8)]) + [p]), p
    return scheduler([Shrink(), p]), p


def loop_sched(sc, dyn):
    q = sc['sched']
    if q == 'default':
        return dyn.default_sched()
    if q == 'effective':
        return effective_sample_size()
    if q is None:
        return scheduler([])
    return sched_of(sc)[0]


def same(what, a, b):
    sa, sb = env.snap(a), env.snap(b)
    for k in sa:
        if k in ('active',):
            continue
        if sa[k] is None or sb[k] is None:
            need(sa[k] is None and sb[k] is None, '%s: %s is %r and %r' % (what, k, sa[k], sb[k]))
            continue
        need_equal('%s: %s' % (what, k), sa[k], sb[k])
    hist(what, a.history, b.history)


def hist(what, ha, hb):
    need(list(ha) == list(hb), '%s: tracked names %s and %s' % (what, list(ha), list(hb)))
    for k in ha:
        need(len(ha[k]) == len(hb[k]), '%s: history of %s has %d entries, expected %d' % (what, k, len(ha[k]), len(hb[k])))
        for i in range(len(ha[k])):
            need_equal('%s: history[%s][%d]' % (what, k, i), ha[k][i], hb[k][i])


def quiet(dyn, fun, what):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fun()
    need(dyn.verbosity > 0 or buf.getvalue() == '', '%s prints %r with verbosity 0' % (what, buf.getvalue()[:60]))
    return r


def counters(what, dyn, it, t):
    need(int(dyn.it) == it, '%s: it is %s, expected %d' % (what, dyn.it, it))
    if hasattr(dyn, 't'):
        env.need_close('%s: t' % what, np.array(float(dyn.t)), np.array(t), rtol=1e-12, atol=1e-12)
    s = dyn.save_int
    n = len(range(0, it, s))
    for k, h in dyn.history.items():
        need(len(h) == n + (k == 'x'), '%s: %d history entries of %s after %d iterations recorded every %d' % (what, len(h), k, it, s))


def run(sc, ch, ctx):
    return ops(sc, ch, ctx) if sc['fam'] == 'ops' else real(sc, ch, ctx)


def optimize(dyn, sched, pint):
    if isinstance(dyn, D.CBS):
        return dyn.optimize(sched=sched)
    return dyn.optimize(sched=sched) if pint is None else dyn.optimize(print_int=pint, sched=sched)


def ops(sc, ch, ctx):
    own = sc.get('own', [2, 6, 4])
    la, lb = Limit(own), Limit(own)
    A, B = make(sc, la, sc['verbosity']), make(sc, lb)
    sa, probe = sched_of(sc)
    sb = loop_sched(sc, B)
    sa_manual = loop_sched(sc, A)
    it, t, trace, was_reset, logged, switched = 0, 0., [], False, 0, False
    dt = lambda: float(getattr(B, 'dt', 0.))
    left = lambda: max(0, max(own) - it)

    def one_b():
        """One pass of the written-out loop on B; False when it ends."""
        nonlocal it, t
        if B.terminate():
            return False
        h = dt()
        B.step()
        sb.update(B)
        it, t = it + 1, t + h
        ctx.step()
        return True

    for k in range(sc['depth']):
        menu = ['step', 'opt1', 'opt2', 'optall', 'reset']
        if k and trace[-1] == 'reset':
            menu.remove('reset')
        if k == 0:
            menu += ['opt0']
        elif trace[-1] not in ('check', 'opt0'):
            menu += ['opt0', 'check']
        op = ch.pick(menu, 'op')
        trace.append(op)
        what = '%s (%s)' % (op, ' '.join(trace))
        if op == 'reset':
            before = env.snap(A)
            A.reset(), B.reset()
            it, t, was_reset = 0, 0., True
            after = env.snap(A)
            for key in before:
                if key not in ('it', 't') and before[key] is not None:
                    need_equal('%s: reset changes %s' % (what, key), after[key], before[key])
            F = make(sc, Limit(own), x=np.array(A.x)) if sc['kind'] != 'MirrorCBO' else None
            if F is not None:
                hist('%s, against a new dynamic' % what, A.history, F.history)
        elif op == 'check':
            la.pause = lb.pause = 10 ** 6
            need(bool(A.terminate()) == (left() == 0), '%s: terminate() is %s with %d iterations left' % (what, not left() == 0, left()))
        elif op == 'step':
            la.pause = lb.pause = 10 ** 6
            if quiet(A, A.terminate, what):
                need(left() == 0, '%s: terminate() with %d iterations left' % (what, left()))
            else:
                quiet(A, A.step, what)
                sa_manual.update(A)
            one_b()
        else:
            n = dict(opt0=0, opt1=1, opt2=2, optall=10 ** 6)[op]
            la.pause = lb.pause = it + n
            other = 'list' if sc['sched'] == 'default' else 'default'
            swap = k > 0 and n > 0 and sc.get('swap') and any(o.startswith('opt') for o in trace[:-1]) and ch.pick(['same', other], 'sched') == other
            keep = sa, sb
            if swap:  # another schedule for this call only
                switched = True
                sa, sb = sched_of(dict(sc, sched=other))[0], loop_sched(dict(sc, sched=other), B)
            pint = ch.pick([None, 1, 2], 'print_int') if sc['verbosity'] and k == 0 and 'pint' not in sc else sc.get('pint')
            i0 = it
            while one_b():
                pass
            need(it - i0 == min(n, max(0, max(own) - i0)), 'reference loop made %d iterations' % (it - i0))
            ret = quiet(A, lambda: optimize(A, sa, pint), what)
            sa, sb = keep
            if probe is not None and not swap:
                got = probe.log[logged:]
                need(got == list(range(i0 + 1, it + 1)), '%s: schedule updated at iterations %s, expected once after each of %s' % (
                    what, got, list(range(i0 + 1, it + 1))))
                logged = len(probe.log)
            need_equal('%s: returned best particle' % what, ret, A.best_particle)
        counters(what, A, it, t)
        same(what, A, B)
        ctx.state(sc['kind'], trace, env.public(env.snap(A)))
        ctx.step()
    if not was_reset and not switched:
        C = make(sc, Limit(np.minimum(own, it)))
        quiet(C, lambda: optimize(C, sched_of(sc)[0] if sc['sched'] not in ('default', 'effective', None) else sc['sched'], None), 'optimize')
        same('%s against one optimize() call' % ' '.join(trace), A, C)
    if len(ctx.samples) < 3:
        ctx.sample('%s %s: %s, %d iterations' % (sc['kind'], sc['sched'], ' '.join(trace), it))


def real(sc, ch, ctx):
    crit = dict(max_it=None, list=[max_it_term(4)], time=[max_time_term(1.)], both=[max_it_term(4), max_time_term(1.7)])[sc['crit']]
    A = make(dict(sc, dt=.25), crit)
    F = make(dict(sc, dt=.25), Limit([10 ** 6, 10 ** 6]))
    steps = 0
    for k in range(3):
        pre = ch.choose(3, 'steps') if k < 2 else 0
        for _ in range(pre):
            need(not A.terminate(), 'terminates before its limit')
            A.step()
            counters('step', A, _ + 1, .25 * (_ + 1))
        quiet(A, lambda: optimize(A, None, None), 'optimize')
        counters('optimisation %d' % k, A, 4, 1.)
        while steps < 4 * (k + 1):
            F.terminate()
            F.step()
            steps += 1
        for key in ('x', 'energy', 'best_energy', 'num_f_eval'):
            need_equal('optimisation %d with %d manual steps: %s' % (k, pre, key), env.snap(A)[key], env.snap(F)[key])
        ctx.state(sc['kind'], sc['crit'], k, env.public(env.snap(A)))
        ctx.step()
        if k < 2:
            A.reset()
            counters('reset', A, 0, 0.)
            if sc['kind'] == 'AdamCBO':  # its bias correction uses the iteration counter
                F.reset()
