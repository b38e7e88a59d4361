"""C29  more histories: a setting changed between two uses of the same sampler."""
import jax
from .lib import *
from .c29 import P, D, TS, Target, numbers, plain
from .c31 import CASES, made, put, stubs, whole, stepped, filled
from mocat.src.sample import run
from mocat.src.mcmc.metropolis import Metropolis, RMMetropolis
from mocat.src.mcmc.standard_mcmc import RandomWalk, Underdamped
from mocat.src.transport.smc import MetropolisedSMCSampler, RMMetropolisedSMCSampler

for case, (target, cls, base, n, ens, opts) in CASES.items():
    for opt, (spec, what) in opts.items():
        @harness(P, f'changed_{case}_{opt}', about='a setting changed after a use of the sampler acts as in a new sampler', hide=8, cost=2 if what in (stepped, filled, whole) else 1)
        def _(T, target=target, cls=cls, base=base, n=n, ens=ens, opt=opt, spec=spec, what=what):
            x, x0, k, k0 = T.real('x', (n, D) if ens else (D,)), T.real('x0', (n, D) if ens else (D,)), T.key('k'), T.key('k0')
            v = T.real('v', pos=True) if isinstance(spec, str) else None

            def f(x, x0, k, k0, *v):
                v = v[0] if v else spec
                with stubs():
                    with jax.ensure_compile_time_eval():
                        used, new = cls(**made(base)), cls(**{**made(base), opt: v})
                    if isinstance(spec, str) and getattr(used.parameters, opt, getattr(used, opt, None)) is None:
                        put(used, opt, 1.)      # (nothing to use before it is set)
                    what(target, used, n, k0, x0, ens)
                    put(used, opt, v)
                    return what(target, used, n, k, x, ens), what(target, new, n, k, x, ens)
            args = (x, x0, k, k0) + (() if v is None else (v,))
            if what is whole:
                runs = [(g, r) for _, g, r in T.sliced('runs', f, args, [n - 1])]
            else:
                runs = [(None, T.call('code', f, *args))]
            for g, (a, b) in runs:
                T.true('same fields', set(a) == set(b))
                if g is not None:
                    T.assume(g)
                for q in sorted(set(a) & set(b)):
                    T.eq(f'changed after a use: {q}', a[q], b[q])


# one correction or one Markov sampler used in two places, one after the other
def rw(corr=None, **kw):
    s = RandomWalk(**kw)
    if corr is not None:
        s.correction = corr
    return s


def under(corr=None):
    s = Underdamped(stepsize=.5, friction=1., leapfrog_steps=2)
    if corr is not None:
        s.correction = corr
    return s


SHARED = dict(
    metropolis=(Metropolis, rw, under, lambda c: dict(stepsize=.4)),
    adaptive=(RMMetropolis, lambda c: rw(c, stepsize=.4), under, None),
    adaptive_back=(RMMetropolis, under, lambda c: rw(c, stepsize=.4), None),
    adaptive_unset=(RMMetropolis, lambda c: rw(c), lambda c: rw(c, stepsize=.3), None),
    chain_then_smc=(lambda: RandomWalk(stepsize=.5), lambda s: s, lambda s: MetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.), None),
    smc_then_chain=(lambda: RandomWalk(stepsize=.5), lambda s: MetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.), lambda s: s, None),
    chain_then_adaptive_smc=(lambda: RandomWalk(stepsize=.5), lambda s: s, lambda s: RMMetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.), None),
    adaptive_smc_then_chain=(lambda: RandomWalk(stepsize=.5), lambda s: RMMetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.), lambda s: s, None),
    smc_twice=(lambda: Underdamped(stepsize=.5, friction=1., leapfrog_steps=1), lambda s: MetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.),
               lambda s: MetropolisedSMCSampler(s, temperature_schedule=TS, ess_threshold_resample=0.), None),
)
for case, (part, first, second, kw) in SHARED.items():
    @harness(P, f'shared_{case}', about='a correction or Markov sampler used before in another sampler acts as a new one', hide=8, cost=3)
    def _(T, part=part, first=first, second=second, kw=kw):
        with jax.ensure_compile_time_eval():
            one = part()
            A, B, F = first(one), second(one), second(part())
        ens = lambda S: isinstance(S, MetropolisedSMCSampler)
        x, y, k1, k2 = T.real('x', (2, D) if ens(A) else (D,)), T.real('y', (2, D) if ens(B) else (D,)), T.key('k1'), T.key('k2')

        def f(x, y, k1, k2):
            with plain():
                start = lambda q: cdict(value=q)
                extra = lambda S: cdict(parameters=cdict(mcmc_steps=jnp.asarray(1, jnp.int32))) if ens(S) else None
                run(Target(), A, 2, k1, initial_state=start(x), initial_extra=extra(A), **(kw(A) if kw else {}))
                return [numbers(run(Target(), S, 2, k2, initial_state=start(y), initial_extra=extra(S), **(kw(S) if kw else {}))) for S in (B, F)]
        for _, g, (a, b) in T.sliced('runs', f, (x, y, k1, k2), [1], lambda r: r[1]['value'].shape[0] - 1):
            T.true('same fields', set(a) == set(b))
            T.assume(g)
            for q in sorted(set(a) & set(b)):
                T.eq(f'used against new: {q}', a[q], b[q])
