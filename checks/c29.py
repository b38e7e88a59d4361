"""C29  a run depends on its arguments only: not on earlier uses of the same objects; it alters nothing it is given."""
import jax
from jax import random
from .lib import *
from .c18 import plain_numbers
from mocat.src.transport import smc as smc_mod
from mocat.src.sample import run
from mocat.src.mcmc.standard_mcmc import RandomWalk, Underdamped
from mocat.src.mcmc.qn_underdamped import QNUnderdamped
from mocat.src.mcmc.metropolis import RMMetropolis
from mocat.src.transport.smc import MetropolisedSMCSampler
from mocat.src.transport.svgd import SVGD
from mocat.src.transport.teki import TemperedEKI
from mocat.src.abc.abc import ABCScenario
from mocat.src.abc.importance import VanillaABC
from mocat.src.abc.mcmc import RandomWalkABC
from mocat.src.abc.smc import MetropolisedABCSMCSampler
from mocat.src.ssm.ssm import StateSpaceModel
from mocat.src.ssm import filtering, backward, online_smoothing

P = 'C29'


class plain(plain_numbers):
    def __enter__(self):
        super().__enter__()
        smc_mod.float = lambda v: v

    def __exit__(self, *a):
        super().__exit__(*a)
        del smc_mod.float


D = 2


class Target(Scenario):
    """arbitrary target with a parameter a."""
    name, dim, a = 'target', D, 0.

    def prior_potential(self, x, random_key=None):
        return uf('prior')(x, self.a)

    def likelihood_potential(self, x, random_key=None):
        return uf('lik')(x, self.a)

    def prior_sample(self, random_key):
        return uf('draw', (D,))(random.normal(random_key, (D,)), self.a)

    def likelihood_sample(self, x, random_key=None):
        return uf('sim', (1,))(x, random.normal(random_key, (1,)), self.a)
    data = jnp.zeros(1)


class Problem(ABCScenario):
    name, dim, a, data = 'problem', D, 0., jnp.zeros(1)

    def prior_potential(self, x, random_key=None):
        return uf('prior')(x, self.a)

    def prior_sample(self, random_key):
        return uf('draw', (D,))(random.normal(random_key, (D,)), self.a)

    def likelihood_sample(self, x, random_key=None):
        return uf('sim', (1,))(x, random.normal(random_key, (1,)), self.a)

    def distance_function(self, y):
        return uf('dist')(y, self.a)


def rm(h):
    s = RandomWalk(stepsize=h)
    s.correction = RMMetropolis()
    return s


TS = jnp.array([0., .5, 1.])
CASES = dict(
    random_walk=(Target, lambda h: RandomWalk(stepsize=h), 3, 2, False, 'stepsize'),
    random_walk_adaptive=(Target, rm, 2, 1, False, 'stepsize'),
    underdamped=(Target, lambda h: Underdamped(stepsize=h, leapfrog_steps=2, friction=1.), 2, 1, False, 'stepsize'),
    qn_underdamped=(Target, lambda h: QNUnderdamped(stepsize=h, leapfrog_steps=1, friction=1., m=2), 2, 1, False, 'stepsize'),
    smc=(Target, lambda h: MetropolisedSMCSampler(RandomWalk(stepsize=h), temperature_schedule=TS, ess_threshold_resample=0., mcmc_steps=jnp.asarray(1, jnp.int32)), 2, 1, True, None),
    svgd=(Target, lambda h: SVGD(stepsize=.1, max_iter=1), 2, 1, True, None),
    ensemble_kalman=(Target, lambda h: TemperedEKI(temperature_schedule=TS), 2, 2, True, None),
    vanilla_abc=(Problem, lambda h: VanillaABC(threshold=h), 3, 2, None, 'threshold'),
    random_walk_abc=(Problem, lambda h: RandomWalkABC(threshold=2., stepsize=h), 3, 2, False, 'stepsize'),
    abc_smc=(Problem, lambda h: MetropolisedABCSMCSampler(threshold_schedule=jnp.array([3., 2.]), termination_alpha=-1., ess_threshold_resample=0., mcmc_steps=jnp.asarray(1, jnp.int32)), 2, 2, True, None),
)


def numbers(c):
    """numeric content of a chain, its summary included."""
    out = {}

    def walk(p, o):
        for k in o.keys():
            v = o.__dict__[k] if isinstance(o, cdict) else o[k]
            if k in ('time',):
                continue
            if isinstance(v, (cdict, dict)):
                walk(p + k + '.', v)
            elif isinstance(v, (jnp.ndarray, np.ndarray, float, int)):
                out[p + k] = jnp.asarray(v)
    walk('', c)
    return out


def shape_of(c):
    return {k: (shape_of(v) if isinstance(v, cdict) else id(v)) for k, v in c.__dict__.items()}


for case, (target, make, n, k, ens, par) in CASES.items():
    for given in ((True, False) if ens is not None else (False,)):
        @harness(P, f'run_{case}' + ('' if given else '_drawn'), about='a run with used objects whose parameters changed equals a run with fresh objects; earlier results and the start stay as they were', cost=3, hide=8)
        def _(T, target=target, make=make, n=n, k=k, ens=ens, par=par, given=given):
            x = T.real('x', (n, D) if ens else (D,))
            a1, a2, h1, h2, k1, k2 = T.real('a1'), T.real('a2'), T.real('h1', pos=True), T.real('h2', pos=True), T.key('k1'), T.key('k2')
            rec, used, fresh = {}, make(.3), make(.4 if par else .3)

            def f(x, a1, a2, h1, h2, k1, k2):
                with plain():
                    kw = lambda h: {par: h} if par else {}
                    st, ex = (cdict(value=x) if given else None), cdict(parameters=cdict(extra=a1))
                    before = [shape_of(c) for c in (st, ex) if c is not None]
                    s = target()
                    s.a = a1
                    r1 = run(s, used, n, k1, initial_state=st, initial_extra=ex, **kw(h1))
                    rec['start'] = before == [shape_of(c) for c in (st, ex) if c is not None]
                    n1 = numbers(r1)
                    s.a, s.temperature = a2, 1.
                    r2 = run(s, used, n, k2, initial_state=st, initial_extra=ex, **kw(h2))
                    rec['start 2'] = before == [shape_of(c) for c in (st, ex) if c is not None]
                    n1b = numbers(r1)
                    new = target()
                    new.a = a2
                    r0 = run(new, fresh, n, k2, initial_state=cdict(value=x) if given else None, initial_extra=cdict(parameters=cdict(extra=a1)), **kw(h2))
                    return n1, n1b, numbers(r2), numbers(r0)
            for _, g, (n1, n1b, r2, r0) in T.sliced('runs', f, (x, a1, a2, h1, h2, k1, k2), [k], lambda r: r[3]['value'].shape[0] - 1):
                T.true('given state and extra stay as they were', rec['start'] and rec['start 2'])
                T.true('same fields', set(r2) == set(r0) and set(n1) == set(n1b))
                T.assume(g)
                for nm in sorted(set(r0) & set(r2)):
                    T.eq(f'used against fresh: {nm}', r2[nm], r0[nm])
                for nm in sorted(set(n1) & set(n1b)):
                    T.eq(f'earlier result: {nm}', n1b[nm], n1[nm])


OTHER = dict(smc=('temperature_schedule', jnp.array([.25, 1.])), ensemble_kalman=('temperature_schedule', jnp.array([0., .25, 1.])), abc_smc=('threshold_schedule', jnp.array([5., 4.])),
             random_walk=('max_iter', 5), vanilla_abc=(None, None), svgd=(None, None), underdamped=(None, None))
COPIED = dict(smc=lambda h: MetropolisedSMCSampler(RandomWalk(stepsize=h), temperature_schedule=TS, ess_threshold_resample=0.),
              abc_smc=lambda h: MetropolisedABCSMCSampler(threshold_schedule=jnp.array([3., 2.]), termination_alpha=-1., ess_threshold_resample=0.))
for case in OTHER:
    @harness(P, f'copy_{case}', about='a copy of a sampler made before or after a run is a sampler of its own: uses of and changes to the original do not reach it', cost=3, hide=8)
    def _(T, case=case):
        target, make, n, k, ens, par = CASES[case]
        make = COPIED.get(case, make)
        out = (make(.3), make(.3)) if case == 'smc' else None
        x = T.real('x', (n, D) if ens else (D,))
        a1, a2, h1, h2, k1, k2 = T.real('a1'), T.real('a2'), T.real('h1', pos=True), T.real('h2', pos=True), T.key('k1'), T.key('k2')

        def f(x, a1, a2, h1, h2, k1, k2):
            kw = lambda h: {par: h} if par else {}

            def go(S, a, h, key):
                s = target()
                s.a = a
                return run(s, S, n, key, initial_state=None if ens is None else cdict(value=x), **kw(h))
            with plain():
                attr, other = OTHER[case]
                used, fresh = out or (make(.3), make(.3))
                put = setattr if not out else smc_mod.TemperedSMCSampler.__setattr__   # (no test of the first entry)
                if out:
                    for S in out:
                        put(S, attr, TS[1:])
                before = used.deepcopy()
                go(used, a1, h1, k1)
                after = used.deepcopy()
                if attr:
                    put(used, attr, other)
                    go(used, a1, h1, k1)
                return [numbers(go(S, a2, h2, k2)) for S in (before, after, fresh)]
        for _, g, (r1, r2, r0) in T.sliced('runs', f, (x, a1, a2, h1, h2, k1, k2), [k], lambda r: r[2]['value'].shape[0] - 1):
            T.true('same fields', set(r1) == set(r0) == set(r2))
            T.assume(g)
            for nm in sorted(set(r0) & set(r1) & set(r2)):
                T.eq(f'copy made before: {nm}', r1[nm], r0[nm])
                T.eq(f'copy made after: {nm}', r2[nm], r0[nm])


@harness(P, 'kernel_given', about='a kernel (or kernel parameters) given to SVGD is the same kernel after a run that adapts the bandwidth', hide=8)
def _(T):
    from mocat.src import kernels
    from mocat.src.transport.svgd import adapt_bandwidth_mean
    x, h, u, v, k = T.real('x', (2, D)), T.real('h', (2,), pos=True), T.real('u', (D,)), T.real('v', (D,)), T.key('k')

    def f(x, h, u, v, k):
        ker = kernels.Gaussian(h[0])
        par = cdict(bandwidth=h[1])
        S = SVGD(stepsize=.1, max_iter=1, kernel=ker)
        S2 = SVGD(stepsize=.1, max_iter=1, kernel=ker, kernel_params=par)
        S.adapt = S2.adapt = adapt_bandwidth_mean
        a = ker(u, v)
        r = run(Target(), S, 2, k, initial_state=cdict(value=x))
        b = ker(u, v)
        run(Target(), S2, 2, k, initial_state=cdict(value=x))
        return a, b, ker(u, v), par.bandwidth, r.value
    for _, g, (a, b, c, p, w) in T.sliced('runs', f, (x, h, u, v, k), [1], lambda r: r[4].shape[0] - 1):
        T.eq('kernel after a run', b, a)
        T.eq('kernel after a run with other parameters', c, a)
        T.eq('given parameters', p, T.call('h1', lambda h: h[1], h))


class Model(StateSpaceModel):
    """arbitrary state-space model with a parameter a."""
    name, dim, dim_obs, a = 'model', 1, 1, 0.

    def initial_potential(self, x, t):
        return uf('init')(x, t, self.a)

    def transition_potential(self, x0, t0, x1, t1):
        return uf('trans')(x0, t0, x1, t1, self.a)

    def likelihood_potential(self, x, y, t):
        return uf('lik')(x, y, t, self.a)

    def initial_sample(self, t, random_key):
        return uf('x0', (1,))(t, random.normal(random_key, (1,)), self.a)

    def transition_sample(self, x, t0, t1, random_key):
        return uf('x1', (1,))(x, t0, t1, random.normal(random_key, (1,)), self.a)

    def likelihood_sample(self, x, t, random_key):
        return uf('y', (1,))(x, t, random.normal(random_key, (1,)), self.a)


GIVEN = []


def ensemble(x, lw, y, t):
    c = cdict(value=x, log_weight=lw, y=y, t=t, ess=jnp.array([2.] * x.shape[0]))
    GIVEN.append((c, shape_of(c)))
    return c


def stitch(s, F, x, lw, y, t, yn, tn, k):
    v, n = online_smoothing.fixed_lag_stitching(s, x, t[1], x, lw[-1], tn, k, 0, 0., 1.)
    return cdict(value=v)


def smooth(back):
    def op(s, F, x, lw, y, t, yn, tn, k):
        return online_smoothing.propagate_particle_smoother(s, F, ensemble(x, lw if back else lw[-1], y, t), yn, tn, k, 1, backward_sim=back)
    return op


OPS = dict(
    filter_run=lambda s, F, x, lw, y, t, yn, tn, k: filtering.run_particle_filter_for_marginals(s, F, y, t, k, 2),
    filter_start=lambda s, F, x, lw, y, t, yn, tn, k: filtering.initiate_particles(s, F, 2, k, yn, tn),
    filter_step=lambda s, F, x, lw, y, t, yn, tn, k: filtering.propagate_particle_filter(s, F, ensemble(x, lw, y, t), yn, tn, k),
    path_simulation=lambda s, F, x, lw, y, t, yn, tn, k: s.simulate(t, k),
    backward_full=lambda s, F, x, lw, y, t, yn, tn, k: backward.backward_simulation(s, ensemble(x, lw, y, t), k, 2),
    backward_rejection=lambda s, F, x, lw, y, t, yn, tn, k: backward.backward_simulation(s, ensemble(x, lw, y, t), k, 1, maximum_rejections=1),
    stitching=stitch, smoother_forward=smooth(False), smoother_backward=smooth(True))


for nm, op in OPS.items():
    @harness(P, f'model_{nm}', about='a state-space operation after the parameters of the model changed equals the same operation with a fresh model', hide=40, cost=2)
    def _(T, op=op):
        x, lw, y, t, yn, tn = T.real('x', (2, 2, 1)), T.real('w', (2, 2)), T.real('y', (2, 1)), T.real('t', (2,)), T.real('yn', (1,)), T.real('tn')
        a1, a2, k1, k2 = T.real('a1'), T.real('a2'), T.key('k1'), T.key('k2')
        rec = {}

        def f(x, lw, y, t, yn, tn, a1, a2, k1, k2):
            s, F = Model(), filtering.BootstrapFilter()
            s.a = a1
            GIVEN.clear()
            r1 = op(s, F, x, lw, y, t, yn, tn, k1)
            rec['given'] = all(b == shape_of(c) for c, b in GIVEN)
            n1 = numbers(r1)
            s.a = a2
            r2 = op(s, F, x, lw, y, t, yn, tn, k2)
            new = Model()
            new.a = a2
            r0 = op(new, filtering.BootstrapFilter(), x, lw, y, t, yn, tn, k2)
            return n1, numbers(r1), numbers(r2), numbers(r0)
        n1, n1b, r2, r0 = T.call('code', f, x, lw, y, t, yn, tn, a1, a2, k1, k2)
        T.true('given particles stay as they were', rec['given'])
        T.true('same fields', set(r2) == set(r0) and set(n1) == set(n1b))
        for q in sorted(set(r0) & set(r2)):
            T.eq(f'used against fresh: {q}', r2[q], r0[q])
        for q in sorted(set(n1) & set(n1b)):
            T.eq(f'earlier result: {q}', n1b[q], n1[q])


class Bounded(Target):
    """target whose positions are mapped to its own space."""
    def constrain(self, x):
        return uf('map', (D,))(self.a, x) if x.ndim == 1 else jax.vmap(lambda v: uf('map', (D,))(self.a, v))(x)


@harness(P, 'ensemble_kalman_other_target', about='ensemble Kalman inversion used for one target measures the spread in the space of the next target it is used for', hide=40)
def _(T):
    v, a1, a2, k = T.real('v', (2, D)), T.real('a1'), T.real('a2'), T.key('k')

    def f(v, a1, a2, k):
        S = TemperedEKI(temperature_schedule=TS)
        s1, s2 = Bounded(), Bounded()
        s1.a, s2.a = a1, a2
        out = []
        for s in (s1, s2):
            S.startup(s, 2, cdict(value=v), cdict(random_key=k))
            out.append((S.prior_stds, S.ensemble_std(v + 1.)))
        F = TemperedEKI(temperature_schedule=TS)
        F.startup(s2, 2, cdict(value=v), cdict(random_key=k))
        return out[1], (F.prior_stds, F.ensemble_std(v + 1.))
    a, b = T.call('code', f, v, a1, a2, k)
    T.eq('spread', a, b)
