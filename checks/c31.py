"""C31  a setting acts the same however it is given: at construction, assigned afterwards, or passed with the run."""
import jax
from .lib import *
from .c29 import Target, Problem, numbers, plain, D, TS
from mocat.src.sample import run
from mocat.src import kernels
from mocat.src.mcmc.standard_mcmc import RandomWalk, Underdamped
from mocat.src.mcmc.qn_underdamped import QNUnderdamped
from mocat.src.mcmc.metropolis import RMMetropolis, Metropolis
from mocat.src.transport import smc as smc_mod, teki as teki_mod
from mocat.src.transport.smc import MetropolisedSMCSampler, RMMetropolisedSMCSampler
from mocat.src.transport.svgd import SVGD
from mocat.src.transport.teki import TemperedEKI, AdaptiveTemperedEKI
from mocat.src.abc.importance import VanillaABC
from mocat.src.abc.mcmc import RandomWalkABC, RMMetropolisDiagStepsize
from mocat.src.abc.smc import MetropolisedABCSMCSampler

P = 'C31'
ONE = np.int32(1)


def made(base):
    return {k: v() if k == 'mcmc_sampler' else v for k, v in base.items()}


def put(s, opt, v):
    setattr(s.parameters if hasattr(s.parameters, opt) else s, opt, v)


def search(f, bounds, max_iter=1000, tol=1e-5):
    """the root search (checked in C15) replaced by an arbitrary function of everything it is given."""
    b = jnp.asarray(bounds)
    args = (f(b[0]), f(b[1]), b, jnp.asarray(max_iter, float), jnp.asarray(tol, float))
    return uf('b', (2,))(*args), uf('e', (2,))(*args), jnp.asarray(0)


class stubs(plain):
    def __enter__(self):
        super().__enter__()
        self.mods = [m for m in (smc_mod, teki_mod) if hasattr(m, 'bisect')]
        self.was = [m.bisect for m in self.mods]
        for m in self.mods:
            m.bisect = search

    def __exit__(self, *a):
        for m, b in zip(self.mods, self.was):
            m.bisect = b
        super().__exit__(*a)


def start(target, S, n, key, x, ens, **kw):
    """state and parameters after the start of a run, and whether the run would stop there or at an arbitrary later point."""
    s, ex = target(), cdict(random_key=key)
    S.n = n
    st, ex = S.startup(s, n, cdict(value=x), ex, **kw)
    return s, st, ex


def started(target, S, n, key, x, ens, **kw):
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    return numbers(st)


def stops(target, S, n, key, x, ens, **kw):
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    v = uf('later', (4,))(x)
    if 'temperature' in st.keys():
        st.temperature = st.temperature * 0 + v[0]
    st.value = x * v[3]
    ex.iter, ex.alpha_mean = v[1] * 10, v[2]
    return dict(stop=jnp.asarray(S.termination_criterion(st, ex)) * 1.)


def chosen(target, S, n, key, x, ens, **kw):
    """the next temperature or threshold chosen after the start."""
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    ex.iter = 1
    for q in ('next_temperature', 'next_threshold'):
        if hasattr(S, q):
            return dict(next=getattr(S, q)(st, ex))


def stepped(target, S, n, key, x, ens, **kw):
    """one transition after the start."""
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    st, ex = S.update(s, st, ex)
    return numbers(cdict(state=st, parameters=ex.parameters))


def filled(target, S, n, key, x, ens, **kw):
    """one transition from a memory filled with arbitrary earlier points."""
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    for q in ('value', 'prior_potential', 'grad_prior_potential', 'likelihood_potential', 'grad_likelihood_potential'):
        setattr(st.memory, q, uf('mem_' + q, jnp.shape(getattr(st.memory, q)))(x))
    st, ex = S.update(s, st, ex)
    return numbers(cdict(memory=st.memory))


def resamples(target, S, n, key, x, ens, **kw):
    s, st, ex = start(target, S, n, key, x, ens, **kw)
    return dict(resample=jnp.asarray(S.resample_criterion(st, ex)) * 1.)


def whole(target, S, n, key, x, ens, **kw):
    return numbers(run(target(), S, n, key, initial_state=cdict(value=x), **kw))


SC, TH = np.array([.25, 1.]), jnp.array([3., 2.])
# sampler: target, constructor, settings given in every variant, particles (or steps), ensemble, {setting: (value, what is compared)}
CASES = dict(
    random_walk=(Target, RandomWalk, {}, 2, False, dict(stepsize=('pos', whole))),
    underdamped=(Target, Underdamped, dict(stepsize=.5), 2, False, dict(stepsize=('pos', stepped), friction=('pos', stepped), leapfrog_steps=(3, stepped))),
    qn_underdamped=(Target, QNUnderdamped, dict(stepsize=.5, m=2), 2, False, dict(stepsize=('pos', stepped), friction=('pos', stepped), leapfrog_steps=(2, stepped), m=(3, stepped),
                    init_hessian_sqrt_diag=('pos', stepped), pos_def_r=(.25, stepped), max_val=(.5, stepped))),
    qn_underdamped_memory=(Target, QNUnderdamped, dict(stepsize=.5, m=3), 2, False, dict(sort_bfgs=(True, filled))),
    smc=(Target, MetropolisedSMCSampler, dict(mcmc_sampler=lambda: RandomWalk(stepsize=.5)), 2, True, dict(
        max_temperature=('pos', chosen), ess_threshold_retain=('pos', chosen), bisection_tol=('pos', chosen), max_bisection_iter=(7, chosen), ess_threshold_resample=('pos', resamples),
        max_iter=(5, stops), temperature_schedule=(SC, chosen), mcmc_steps=(2, stepped))),
    smc_stop=(Target, MetropolisedSMCSampler, dict(mcmc_sampler=lambda: RandomWalk(stepsize=.5)), 2, True, dict(max_temperature=('pos', stops), temperature_schedule=(SC, stops))),
    rm_smc=(Target, RMMetropolisedSMCSampler, dict(mcmc_sampler=lambda: RandomWalk(stepsize=.5)), 2, True, dict(
        max_temperature=('pos', chosen), ess_threshold_retain=('pos', chosen), bisection_tol=('pos', chosen), max_bisection_iter=(7, chosen), ess_threshold_resample=('pos', resamples),
        max_iter=(5, stops), temperature_schedule=(SC, chosen), rm_stepsize=('pos', stepped))),
    svgd=(Target, SVGD, dict(stepsize=.1), 2, True, dict(stepsize=('pos', stepped), max_iter=(3, stops), ensemble_batchsize=(1, stepped))),
    ensemble_kalman=(Target, TemperedEKI, {}, 2, True, dict(
        temperature_schedule=(SC, chosen), max_temperature=('pos', chosen), max_iter=(4, stops), term_std=('pos', stops), nugget=('pos', stepped))),
    ensemble_kalman_stop=(Target, TemperedEKI, {}, 2, True, dict(temperature_schedule=(SC, stops), max_temperature=('pos', stops))),
    ensemble_kalman_adaptive=(Target, AdaptiveTemperedEKI, {}, 2, True, dict(
        max_temperature=('pos', chosen), ess_threshold=('pos', chosen), bisection_tol=('pos', chosen), max_bisection_iter=(7, chosen), max_iter=(4, stops), term_std=('pos', stops),
        nugget=('pos', stepped))),
    vanilla_abc=(Problem, VanillaABC, {}, 2, None, dict(threshold=('pos', whole))),
    random_walk_abc=(Problem, RandomWalkABC, dict(stepsize=1., threshold=2.), 2, False, dict(stepsize=('pos', stepped), threshold=('pos', stepped))),
    abc_smc=(Problem, MetropolisedABCSMCSampler, {}, 2, True, dict(
        threshold_schedule=(TH, chosen), max_iter=(4, stops), ess_threshold_retain=(.5, chosen), ess_threshold_resample=('pos', resamples), termination_alpha=('pos', stops),
        mcmc_steps=(2, stepped))),
)


for case, (target, cls, base, n, ens, opts) in CASES.items():
    for opt, (spec, what) in opts.items():
        @harness(P, f'{case}_{opt}', about='the same whether given at construction, assigned later or passed with the run', hide=8, cost=2 if what in (stepped, filled, whole) else 1)
        def _(T, target=target, cls=cls, base=base, n=n, ens=ens, opt=opt, spec=spec, what=what):
            x, k = T.real('x', (n, D) if ens else (D,)), T.key('k')
            v = T.real('v', pos=True) if isinstance(spec, str) else None

            def f(x, k, *v):
                v = v[0] if v else spec
                with stubs():
                    with jax.ensure_compile_time_eval():
                        built, later, plainly = cls(**{**made(base), opt: v}), cls(**made(base)), cls(**made(base))
                        put(later, opt, v)
                        out = []
                    for S, kw in ((built, {}), (later, {}), (plainly, {opt: v})):
                        out.append(what(target, S, n, k, x, ens, **kw))
                    if what is whole:
                        out.append(numbers(run(target(), cls, n, k, initial_state=cdict(value=x), **base, **{opt: v})))
                    return out
            args = (x, k) + (() if v is None else (v,))
            if what is whole:
                runs = [(g, r) for _, g, r in T.sliced('runs', f, args, [n - 1])]
            else:
                runs = [(None, T.call('code', f, *args))]
            for g, (a, b, c, *d) in runs:
                T.true('same fields', set(a) == set(b) == set(c))
                if g is not None:
                    T.assume(g)
                for q in sorted(set(a) & set(b) & set(c)):
                    T.eq(f'assigned: {q}', b[q], a[q])
                    T.eq(f'passed with the run: {q}', c[q], a[q])
                    if d:
                        T.eq(f'sampler made by the run: {q}', d[0][q], a[q])


# settings of a correction: given when it is made, assigned to it afterwards, and the correction assigned to the sampler or passed with the run
CORR = dict(adapt_cut_off=2, rm_stepsize_scale='pos', rm_stepsize_neg_exponent=.5, log_update=False)


def correction(T, opt, spec):
    x, k = T.real('x', (D,)), T.key('k')
    v = T.real('v', pos=True) if isinstance(spec, str) else None

    def f(x, k, *v):
        v = v[0] if v else spec
        with stubs():
            with jax.ensure_compile_time_eval():
                built, later, passed = (RandomWalk(stepsize=.7) for _ in range(3))
                built.correction = RMMetropolis(**{opt: v})
                later.correction = RMMetropolis()
                setattr(later.correction, opt, v)
                given = RMMetropolis(**{opt: v})
                out = []
            for S, kw in ((built, {}), (later, {}), (passed, dict(correction=given))):
                out.append(whole(Target, S, 4, k, x, False, **kw))
        return out
    args = (x, k) + (() if v is None else (v,))
    for _, g, (a, b, c) in T.sliced('runs', f, args, [3]):
        T.true('same fields', set(a) == set(b) == set(c))
        T.assume(g)
        for q in sorted(set(a) & set(b) & set(c)):
            T.eq(f'assigned: {q}', b[q], a[q])
            T.eq(f'passed with the run: {q}', c[q], a[q])


for opt, spec in CORR.items():
    harness(P, f'correction_{opt}', about='the same whether given at construction, assigned later or passed with the run', hide=8, cost=2)(lambda T, opt=opt, spec=spec: correction(T, opt, spec))
