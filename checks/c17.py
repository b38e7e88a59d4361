"""C17  tempering: schedules are followed exactly, adaptive temperatures move forward by the effective-size rule, runs end at the final temperature."""
import jax
from jax import random
from .lib import *
from .c16 import ess_of, state, pri, lik
from mocat.src.transport.smc import MetropolisedSMCSampler, TemperedSMCSampler
from mocat.src.transport.teki import TemperedEKI, AdaptiveTemperedEKI
from mocat.src.mcmc.standard_mcmc import RandomWalk

P = 'C17'


def conj(*a):
    return jnp.all(jnp.stack([jnp.asarray(x) for x in a]))


def ratio(lw, dt, l, keep):
    """effective size after a move by dt over the size to keep."""
    return ess_of(lw - dt * l) / (keep * ess_of(lw))


for m in (0, 1):
    S = MetropolisedSMCSampler(RandomWalk, ess_threshold_retain=.8)

    @harness(P, f'adaptive_m{m}', about='adaptive step: the final temperature when it keeps enough effective size, otherwise a bracketed temperature between the current and the final one')
    def _(T, m=m, S=S):
        n = 2
        w, l, t0, dt, tau = T.real('w', (n,), pos=True), T.real('l', (n,)), T.real('t0', lo=0), T.real('dt', pos=True), T.real('tau', lo=1, hi=1.2)
        T.assume(T.call('tau', lambda tau: tau > 1, tau))
        lw = T.call('lw', jnp.log, w)

        def f(lw, l, t0, dt, tau):
            S.max_temperature = t0 + dt
            S.parameters.max_bisection_iter, S.parameters.bisection_tol = m, jnp.log(tau)
            s = cdict(value=jnp.zeros((n, 1)), likelihood_potential=l, temperature=jnp.ones(n) * t0, log_weight=lw, ess=jnp.ones(n) * ess_of(lw))
            return S.next_temperature(s, cdict(iter=3))
        t = T.call('next', f, lw, l, t0, dt, tau)
        r = T.call('end', lambda lw, l, dt: ratio(lw, dt, l, .8), lw, l, dt)
        T.check('forward and not beyond the end', T.call('in', lambda t, t0, dt: conj(t0 <= t, t <= t0 + dt), t, t0, dt))
        T.check('end reached when allowed', T.call('end2', lambda t, t0, dt, r: ~(r >= 1) | (t == t0 + dt), t, t0, dt, r))
        T.check('end reached within tolerance', T.call('end3', lambda t, t0, dt, r, tau: ~((r < tau) & (r * tau > 1)) | (t == t0 + dt), t, t0, dt, r, tau))
        if m == 0:
            T.check('the nearer end without search steps', T.call('far', lambda t, t0, dt, r: jnp.where(r > .8, t == t0 + dt, t == t0), t, t0, dt, r))


class Still(RandomWalk):
    """kernel that leaves everything in place (the schedule is what is under test)."""
    name = 'still'

    def update(self, scenario, state, extra):
        return state, extra


def scen1():
    s = uf_scenario(1, 1.)
    type(s).prior_sample = lambda self, key: jnp.zeros(1)
    return s


for tag, sched, want in (('plain', [.25, .5, 1.], [.25, .5, 1.]), ('leading_zero', [0., .5, .75], [.5, .75]), ('single', [.5], [.5])):
    for late in (False, True):
        Sq = MetropolisedSMCSampler(Still, ess_threshold_resample=0., **({} if late else dict(temperature_schedule=jnp.array(sched))))
        if late:
            Sq.temperature_schedule = jnp.array(sched)

        @harness(P, f'schedule_{tag}' + ('_assigned' if late else ''), about='a given schedule is visited temperature by temperature, once each, and the run stops exactly at its end')
        def _(T, Sq=Sq, want=want):
            x, k = T.real('x', (1, 1)), T.key('k')

            def f(x, k):
                scen = scen1()
                s, e = Sq.startup(scen, 1, cdict(value=x), cdict(random_key=k))
                ts, stops, pots, e.parameters.mcmc_steps = [s.temperature[0]], [Sq.termination_criterion(s, e)], [s.potential[0]], 1
                for _ in want[1:]:
                    s, e = Sq.update(scen, s, e)
                    ts.append(s.temperature[0])
                    pots.append(s.potential[0])
                    stops.append(Sq.termination_criterion(s, e))
                return jnp.stack(ts), jnp.stack([jnp.asarray(b) for b in stops]), jnp.stack(pots), jnp.exp(s.log_weight)
            ts, stops, pots, w = T.call('run', f, x, k)
            T.eq('temperatures', ts, np.asarray(want))
            T.eq('stops at the end only', stops, np.array([False] * (len(want) - 1) + [True]))
            T.eq('potentials', pots, T.call('ref', lambda x: jnp.stack([pri(x[0]) + t * lik(x[0]) for t in want]), x))
            T.eq('weights total the move from the prior', w, T.call('rw', lambda x: jnp.exp(-want[-1] * lik(x[0]))[None], x))
            T.true('length', Sq.max_iter == len(want))


@harness(P, 'termination', about='a run ends when the final temperature is reached, iterations are used up, or more than a tenth of the coordinates are NaN; not before')
def _(T):
    n = 2
    x, t, tm, it, mi = T.xreal('x', (n, 1)), T.real('t', lo=0), T.real('tmax', pos=True), T.real('it', integer=True, lo=0), 5
    S = MetropolisedSMCSampler(Still, max_iter=mi)

    def f(x, t, tm, it):
        S.max_temperature = tm
        return S.termination_criterion(cdict(value=x, temperature=jnp.ones(n) * t), cdict(iter=it))
    a = T.call('stop', f, x, t, tm, it)
    T.eq('stop', a, T.call('ref', lambda x, t, tm, it: (t >= tm) | (it >= mi) | (jnp.sum(jnp.isnan(x)) > .1 * n), x, t, tm, it))


@harness(P, 'recorded', about='the returned record has one temperature, effective size and evidence per step and leaves the target at the final temperature')
def _(T):
    K, n = 2, 2
    S = MetropolisedSMCSampler(Still)
    e, z = T.real('e', (K,)), T.real('z', (K,))

    def f(e, z):
        scen = scen1()
        c = S.clean_chain(scen, cdict(value=jnp.zeros((K, n, 1)), temperature=np.array([[.25, .25], [.75, .75]]), ess=jnp.stack([e, e], 1), log_norm_constant=jnp.stack([z, z], 1)))
        return c.temperature, c.ess, c.log_norm_constant, scen.temperature
    t, a, b, st = T.call('clean', f, e, z)
    T.eq('temperatures', t, np.array([.25, .75]))
    T.eq('effective sizes', a, e)
    T.eq('evidence', b, z)
    T.eq('target left at', st, np.asarray(.75))


@harness(P, 'back_to_adaptive', about='removing the schedule restores adaptive temperatures and the iteration limit')
def _(T):
    S = MetropolisedSMCSampler(Still, temperature_schedule=jnp.array([.5, 1.]))
    S.temperature_schedule = None
    T.true('limit', S.max_iter == 10000)
    n = 2
    l, t0 = T.real('l', (n,)), T.real('t0', lo=0, hi=1)
    T.assume(T.call('lt', lambda t: t < 1, t0))

    def f(l, t0):
        S.parameters.max_bisection_iter = 0
        return S.next_temperature(cdict(value=jnp.zeros((n, 1)), likelihood_potential=l, temperature=jnp.ones(n) * t0, log_weight=jnp.zeros(n), ess=jnp.ones(n) * n), cdict(iter=1))
    t = T.call('next', f, l, t0)
    r = T.call('r', lambda l, t0: ratio(jnp.zeros(n), 1 - t0, l, .9), l, t0)
    T.check('rule', T.call('c', lambda t, t0, r: jnp.where(r > .9, t == 1., t == t0), t, t0, r))
