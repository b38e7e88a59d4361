"""C16  sequential Monte Carlo: weights, effective size, evidence estimate and resampling."""
import jax
from jax import random
from .lib import *
from mocat.src.transport.smc import SMCSampler, MetropolisedSMCSampler, RMMetropolisedSMCSampler
from mocat.src.mcmc.standard_mcmc import RandomWalk, Underdamped
from mocat.src.mcmc.sampler import MCMCSampler

P = 'C16'
SCHED = jnp.array([.3, .7, 1.])


def pri(x):
    return uf('prior')(x)


def lik(x):
    return uf('lik')(x)


def ess_of(lw):
    w = jnp.exp(lw)
    return jnp.sum(w) ** 2 / jnp.sum(w * w)


def state(x, t0, lw, Z):
    n = x.shape[0]
    p, l = jnp.stack([pri(v) for v in x]), jnp.stack([lik(v) for v in x])
    gp, gl = jnp.stack([jax.grad(pri)(v) for v in x]), jnp.stack([jax.grad(lik)(v) for v in x])
    return cdict(value=x, prior_potential=p, likelihood_potential=l, potential=p + t0 * l, grad_prior_potential=gp, grad_likelihood_potential=gl,
                 grad_potential=gp + t0 * gl, temperature=jnp.ones(n) * t0, log_weight=lw, ess=jnp.ones(n) * ess_of(lw),
                 log_norm_constant=jnp.ones(n) * Z, alpha=jnp.ones(n))


def resample_ref(g, lw):
    """index drawn for each slot: the categorical draw with these log weights."""
    return [jnp.argmax(g[i] + lw) for i in range(g.shape[0])]


def pick(x, i):
    out = x[-1]
    for j in range(x.shape[0] - 2, -1, -1):
        out = jnp.where(i == j, x[j], out)
    return out


def common(T, n, d):
    x, t0, h = T.real('x', (n, d)), T.real('t0', pos=True), T.real('h', pos=True)
    w, Z, k = T.real('w', (n,), pos=True), T.real('Z'), T.key('k')
    return x, t0, h, T.call('lw', jnp.log, w), Z, k


def inputs(T, n, d):
    x, t0, h, lw, Z, k = common(T, n, d)
    return x, t0, h, lw, Z, k


for n, d, thr, mode in ((2, 1, 0., 'never'), (2, 2, 1., 'always'), (2, 1, .75, 'sometimes'), (3, 1, 0., 'never'), (3, 1, .75, 'sometimes'), (4, 2, 0., 'never'), (6, 1, 0., 'never')):
    S = MetropolisedSMCSampler(RandomWalk, temperature_schedule=SCHED, ess_threshold_resample=thr)

    @harness(P, f'update_n{n}_d{d}_{mode}', about='one step: resample exactly when the effective size is at most the threshold share, move every particle by the kernel at the current '
             'temperature, reweight by the likelihood at the new positions, update evidence, potentials and gradients')
    def _(T, n=n, d=d, thr=thr, mode=mode, S=S):
        x, t0, h, lw, Z, k = inputs(T, n, d)

        def f(x, t0, h, lw, Z, k):
            scen = uf_scenario(d, t0)
            s = state(x, t0, lw, Z)
            e = cdict(random_key=k, iter=0, resample_bool=True,
                      parameters=cdict(stepsize=h, mcmc_steps=1, ess_threshold_retain=.9, ess_threshold_resample=thr, bisection_tol=1e-5, max_bisection_iter=10))
            S.startup(scen, n, s.copy(), e.copy())   # binds the sampler to this problem
            e.random_key, e.iter = k, 0
            s = state(x, t0, lw, Z)
            s, e = S.update(scen, s, e)
            return s, e
        s, e = T.call('smc', f, x, t0, h, lw, Z, k)
        ds = T.draws()
        z, u, g = ([q for q in ds if q.kind == kd] for kd in ('normal', 'uniform', 'gumbel'))
        T.true('draws', len(z) == n and len(u) == n and len(g) == (mode != 'never'))
        T.independent('draws', ds)
        T.fresh('key', e.random_key, ds)

        def ref(x, t0, h, lw, Z, z, u, g):
            do = ess_of(lw) <= thr * n
            idx = resample_ref(g, lw) if g is not None else range(n)
            y, al = [], []
            for i in range(n):
                x0 = jnp.where(do, pick(x, idx[i]), x[i])
                x1 = x0 + jnp.sqrt(h) * z[i]
                a = jnp.minimum(1., jnp.exp(pri(x0) + t0 * lik(x0) - pri(x1) - t0 * lik(x1)))
                al.append(a)
                y.append(jnp.where(u[i] < a, x1, x0))
            y = jnp.stack(y)
            l, p = jnp.stack([lik(v) for v in y]), jnp.stack([pri(v) for v in y])
            t1 = .7
            base = jnp.where(do, jnp.zeros(n), lw)
            new = base - (t1 - t0) * l
            gr = jnp.stack([jax.grad(pri)(v) + t1 * jax.grad(lik)(v) for v in y])
            return dict(value=y, lik=l, prior=p, potential=p + t1 * l, w=jnp.exp(new), ess=ess_of(new), temp=jnp.ones(n) * t1, grad=gr, alpha=jnp.stack(al),
                        ratio=jnp.sum(jnp.exp(new)) / jnp.sum(jnp.exp(base)), do=do)
        r = T.call('ref', ref, x, t0, h, lw, Z, [q.array for q in z], [q.array for q in u], g[0].array if g else None)
        T.eq('resample decision', e.resample_bool, r['do'])
        for nm, a, b in (('value', s.value, r['value']), ('likelihood', s.likelihood_potential, r['lik']), ('prior', s.prior_potential, r['prior']),
                         ('potential', s.potential, r['potential']), ('temperature', s.temperature, r['temp']), ('gradient', s.grad_potential, r['grad']),
                         ('acceptance', s.alpha, r['alpha'])):
            T.eq(nm, a, b)
        T.eq('weights', T.call('exp', jnp.exp, s.log_weight), r['w'])
        T.eq('effective size', s.ess, T.call('rep', lambda e: jnp.ones(n) * e, r['ess']))
        T.eq('evidence', T.call('ev', lambda a, b: jnp.exp(a - b), s.log_norm_constant, Z), T.call('rep2', lambda e: jnp.ones(n) * e, r['ratio']))


for mode in ('random_walk', 'leapfrog'):
    for how in ('given', 'prior'):
        if (mode, how) == ('leapfrog', 'prior'):
            continue
        S1 = MetropolisedSMCSampler(RandomWalk if mode == 'random_walk' else Underdamped(leapfrog_steps=1), temperature_schedule=SCHED)

        @harness(P, f'startup_{mode}_{how}', about='the first step reweights prior draws by the likelihood at the first temperature; evidence is the mean weight')
        def _(T, S1=S1, how=how):
            n, d = 2, 2
            x, k = T.real('x', (n, d)), T.key('k')

            def f(x, k):
                scen = uf_scenario(d, .9, prior_sample=None if how == 'given' else (lambda key: random.normal(key, (d,))))
                if how == 'given':
                    type(scen).prior_sample = lambda self, key: jnp.zeros(d)
                S1.parameters.stepsize = .1
                s, e = S1.startup(scen, n, cdict(value=x) if how == 'given' else None, cdict(random_key=k))
                return s, e.random_key
            s, nk = T.call('smc', f, x, k)
            ds = T.draws()
            if how == 'prior':
                T.true('one draw per particle', len(ds) == n)
                T.independent('draws', ds)
                T.fresh('key', nk, ds)
                x = T.call('drawn', lambda a, b: jnp.stack([a, b]), *[q.array for q in ds])
            T.eq('value', s.value, x)

            def ref(x):
                l, p = jnp.stack([lik(v) for v in x]), jnp.stack([pri(v) for v in x])
                t = .3
                w = jnp.exp(-t * l)
                g = jnp.stack([jax.grad(pri)(v) + t * jax.grad(lik)(v) for v in x])
                return l, p, p + t * l, g, w, ess_of(-t * l) * jnp.ones(n), jnp.ones(n) * jnp.mean(w), jnp.ones(n) * t
            l, p, u, g, w, ess, z, t = T.call('ref', ref, x)
            for nm, a, b in (('likelihood', s.likelihood_potential, l), ('prior', s.prior_potential, p), ('potential', s.potential, u), ('gradient', s.grad_potential, g),
                             ('effective size', s.ess, ess), ('temperature', s.temperature, t)):
                T.eq(nm, a, b)
            T.eq('weights', T.call('e1', jnp.exp, s.log_weight), w)
            T.eq('evidence', T.call('e2', jnp.exp, s.log_norm_constant), z)


@harness(P, 'resample', about='resampling draws particles with probability proportional to weight, moves every field (nested ones too) together and resets weights; '
         'particles of zero weight never survive')
def _(T):
    n = 3
    x, y, m, k = T.real('x', (n, 2)), T.real('y', (n,)), T.real('m', (n, 2)), T.key('k')
    lw = T.xreal('lw', (n,))
    T.assume(T.call('alive', lambda w: jnp.all(~jnp.isnan(w) & (w < jnp.inf)) & jnp.any(w > -jnp.inf), lw))
    S = SMCSampler()
    s = T.call('resample', lambda x, y, m, lw, k: S.resample(cdict(value=x, label=y, log_weight=lw, ess=y, nested=cdict(m=m)), k), x, y, m, lw, k)
    g, = T.draws()
    T.true('gumbel draws', g.kind == 'gumbel')

    def ref(x, y, m, lw, g):
        idx = resample_ref(g, lw)
        return jnp.stack([pick(x, i) for i in idx]), jnp.stack([pick(y, i) for i in idx]), jnp.stack([pick(m, i) for i in idx]), jnp.stack([pick(lw, i) for i in idx])
    rx, ry, rm, rw = T.call('ref', ref, x, y, m, lw, g.array)
    T.eq('value', s.value, rx)
    T.eq('label', s.label, ry)
    T.eq('nested', s.nested.m, rm)
    T.eq('weights equal', T.call('eqw', lambda w: w - w[0], s.log_weight), np.zeros(n))
    T.eq('effective size', s.ess, np.full(n, float(n)))
    T.check('survivors alive', T.call('fin', lambda w: jnp.all(w > -jnp.inf), rw))


@harness(P, 'generic', about='the generic sampler resamples every step and adds the increments of the proposal to the reset weights')
def _(T):
    n = 2
    x, lw, k = T.real('x', (n, 1)), T.real('lw', (n,)), T.key('k')

    class G(SMCSampler):
        def forward_proposal(self, scenario, s, e, key):
            v = s.value + random.normal(key, (1,))
            return cdict(value=v, log_weight=uf('inc')(v), ess=s.ess)
    S = G()

    def f(x, lw, k):
        s, e = S.startup(None, n, cdict(value=x), cdict(random_key=k))
        w0 = s.log_weight
        s.log_weight = lw
        s, e = S.update(None, s, e)
        return s, e.random_key, e.iter, w0
    s, nk, it, w0 = T.call('smc', f, x, lw, k)
    ds = T.draws()
    g, z = [q for q in ds if q.kind == 'gumbel'], [q for q in ds if q.kind == 'normal']
    T.true('draws', len(g) == 1 and len(z) == n)
    T.independent('draws', ds)
    T.fresh('key', nk, ds)

    def ref(x, lw, g, z):
        idx = resample_ref(g, lw)
        v = jnp.stack([pick(x, idx[i]) + z[i] for i in range(n)])
        return v, jnp.stack([uf('inc')(q) for q in v])
    v, w = T.call('ref', ref, x, lw, g[0].array, [q.array for q in z])
    T.eq('value', s.value, v)
    T.eq('weights', s.log_weight, w)
    T.eq('initial weights', w0, np.zeros(n))
    T.eq('iteration', it, np.asarray(1))


for mode in ('random_walk', 'leapfrog'):
    for steps in (1, 2, 3):
        S2 = MetropolisedSMCSampler(RandomWalk if mode == 'random_walk' else Underdamped(leapfrog_steps=1), temperature_schedule=SCHED, mcmc_steps=steps, ess_threshold_resample=0.)

        @harness(P, f'moves_{mode}_{steps}', tier='quick',
                 about='between reweightings each particle makes the requested number of kernel steps at the current temperature, with caches of the final position and mean acceptance')
        def _(T, S2=S2, steps=steps, mode=mode):
            n, d = 1, 1
            x, t0, h, k = T.real('x', (n, d)), T.real('t0', pos=True), T.real('h', pos=True), T.key('k')

            def f(x, t0, h, k):
                scen = uf_scenario(d, t0)
                type(scen).prior_sample = lambda self, key: jnp.zeros(d)
                S2.parameters.stepsize = h
                s, e = S2.startup(scen, n, cdict(value=x), cdict(random_key=k))
                lw, Z = jnp.zeros(n), 0.
                q = state(x, t0, lw, Z)
                for name in ('value', 'prior_potential', 'likelihood_potential', 'potential', 'grad_prior_potential', 'grad_likelihood_potential', 'grad_potential',
                             'temperature', 'log_weight', 'ess', 'log_norm_constant'):
                    setattr(s, name, getattr(q, name))
                e.parameters.mcmc_steps = steps
                s, e = S2.update(scen, s, e)
                return s, e.random_key
            s, nk = T.call('smc', f, x, t0, h, k)
            ds = T.draws()
            T.independent('draws', ds)
            T.fresh('key', nk, ds)
            z, u = [q for q in ds if q.kind == 'normal'], [q for q in ds if q.kind == 'uniform']
            T.true('draws', len(z) == steps and len(u) == steps)

            def ref(x, t0, h, z, u):
                U = lambda v: pri(v) + t0 * lik(v)
                x, als = x[0], []
                for i in range(steps):
                    p = z[i]
                    if mode == 'random_walk':
                        y = x + jnp.sqrt(h) * p
                        a = jnp.minimum(1., jnp.exp(U(x) - U(y)))
                    else:
                        ph = p - h / 2 * jax.grad(U)(x)
                        y = x + h * ph
                        q = ph - h / 2 * jax.grad(U)(y)
                        a = jnp.minimum(1., jnp.exp(U(x) - U(y) + .5 * jnp.sum(p * p) - .5 * jnp.sum(q * q)))
                    als.append(a)
                    x = jnp.where(u[i] < a, y, x)
                t1 = .7
                return x[None], (pri(x) + t1 * lik(x))[None], (jax.grad(pri)(x) + t1 * jax.grad(lik)(x))[None], (sum(als) / steps)[None], jnp.exp(-(t1 - t0) * lik(x))[None]
            v, pot, g, al, w = T.call('ref', ref, x, t0, h, [q.array for q in z], [q.array for q in u])
            T.eq('value', s.value, v)
            T.eq('potential', s.potential, pot)
            T.eq('gradient', s.grad_potential, g)
            T.eq('acceptance', s.alpha, al)
            T.eq('weight', T.call('e', jnp.exp, s.log_weight), w)


@harness(P, 'adapted_stepsize', about='the adaptive variant moves the log step size by the gap between the weighted mean acceptance and its target')
def _(T):
    n = 2
    S = RMMetropolisedSMCSampler(RandomWalk, temperature_schedule=SCHED, rm_stepsize=.5)
    h, w, al, l, t0 = T.real('h', pos=True), T.real('w', (n,), pos=True), T.real('al', (n,), lo=0, hi=1), T.real('l', (n,)), T.real('t0', pos=True)

    def f(h, w, al, l, t0):
        mk = lambda: cdict(value=jnp.zeros((n, 1)), prior_potential=jnp.zeros(n), likelihood_potential=l, potential=t0 * l, temperature=jnp.ones(n) * t0,
                           log_weight=jnp.log(w), ess=jnp.ones(n), log_norm_constant=jnp.zeros(n), alpha=al, stepsize=jnp.ones(n) * h)
        e = cdict(iter=1, parameters=cdict(stepsize=h, rm_stepsize=.5))
        S.mcmc_sampler.tuning.target = .25
        s, e = S.adapt(mk(), e, mk(), e)
        return e.parameters.stepsize, s.stepsize, jnp.exp(s.log_weight)
    a, b, w1 = T.call('adapt', f, h, w, al, l, t0)
    r = T.call('ref', lambda h, w1, al: h * jnp.exp(.5 * (jnp.sum(w1 * al) / jnp.sum(w1) - .25)), h, w1, al)
    T.eq('step size', T.call('l', lambda a, h: jnp.log(a) - jnp.log(h), a, h), T.call('lr', lambda w1, al: .5 * (jnp.sum(w1 * al) / jnp.sum(w1) - .25), w1, al))
    T.eq('recorded', b, T.call('rep', lambda a: jnp.ones(n) * a, a))


def no_gradient(d, t, prior_sample=None):
    class S(Scenario):
        name, dim = 'plain', d + (d == 1)

        def prior_potential(self, x, random_key=None):
            return pri(x)

        def likelihood_potential(self, x, random_key=None):
            return lik(x)

        def prior_sample(self, random_key):
            return prior_sample(random_key)
    s = S(init_grad=False)
    s.dim, s.temperature = d, t
    return s


S3 = MetropolisedSMCSampler(RandomWalk, temperature_schedule=jnp.array([.3, 1.]), ess_threshold_resample=0., mcmc_steps=jnp.asarray(1, jnp.int32))


@harness(P, 'no_gradient', about='a target without gradients: prior draws, reweighting, a kernel step and reweighting again use potentials only')
def _(T):
    n, d = 2, 2
    h, k = T.real('h', pos=True), T.key('k')

    def f(h, k):
        scen = no_gradient(d, 1., lambda key: random.normal(key, (d,)))
        S3.parameters.stepsize = h
        s0, e = S3.startup(scen, n, None, cdict(random_key=k))
        first = s0.copy()
        s, e = S3.update(scen, s0, e)
        return first, s, e.random_key
    a, b, nk = T.call('smc', f, h, k)
    ds = T.draws()
    z, u = [q for q in ds if q.kind == 'normal'], [q for q in ds if q.kind == 'uniform']
    T.true('draws', len(z) == 2 * n and len(u) == n)
    T.independent('draws', ds)
    T.fresh('key', nk, ds)

    def ref(h, z, u):
        x = jnp.stack(z[:n])
        l0, p0 = jnp.stack([lik(v) for v in x]), jnp.stack([pri(v) for v in x])
        ys = []
        for i in range(n):
            y = x[i] + jnp.sqrt(h) * z[n + i]
            al = jnp.minimum(1., jnp.exp(pri(x[i]) + .3 * lik(x[i]) - pri(y) - .3 * lik(y)))
            ys.append(jnp.where(u[i] < al, y, x[i]))
        y = jnp.stack(ys)
        l, p = jnp.stack([lik(v) for v in y]), jnp.stack([pri(v) for v in y])
        return x, l0, p0, p0 + .3 * l0, jnp.exp(-.3 * l0), jnp.mean(jnp.exp(-.3 * l0)) * jnp.ones(n), y, l, p, p + l, jnp.exp(-.3 * l0 - .7 * l), \
            jnp.mean(jnp.exp(-.3 * l0 - .7 * l)) * jnp.ones(n)
    x, l0, p0, u0, w0, z0, y, l, p, u1, w1, z1 = T.call('ref', ref, h, [q.array for q in z], [q.array for q in u])
    T.true('no gradient fields', not any(hasattr(q, 'grad_potential') for q in (a, b)))
    for nm, v, r in (('start value', a.value, x), ('start likelihood', a.likelihood_potential, l0), ('start prior', a.prior_potential, p0), ('start potential', a.potential, u0),
                     ('value', b.value, y), ('likelihood', b.likelihood_potential, l), ('prior', b.prior_potential, p), ('potential', b.potential, u1)):
        T.eq(nm, v, r)
    for nm, v, r in (('start weights', a.log_weight, w0), ('start evidence', a.log_norm_constant, z0), ('weights', b.log_weight, w1), ('evidence', b.log_norm_constant, z1)):
        T.eq(nm, T.call('e ' + nm, jnp.exp, v), r)


for first in (0., .25):
    S4 = MetropolisedSMCSampler(RandomWalk(stepsize=.5), temperature_schedule=jnp.array([first, .5, 1.]), ess_threshold_resample=0., mcmc_steps=jnp.asarray(1, jnp.int32))

    @harness(P, f'run_{first}', cost=3, about='a whole run visits the temperatures of its schedule (an initial zero is the prior itself), recording one temperature, effective size and evidence per step')
    def _(T, S4=S4, first=first):
        n, d, k = 2, 1, T.key('k')
        x = T.real('x', (n, d))
        temps = [q for q in (first, .5, 1.) if q > 0]

        def f(x, k):
            from .c29 import plain
            from mocat.src.sample import run
            with plain():
                scen = uf_scenario(d, 1.)
                type(scen).prior_sample = lambda self, key: jnp.zeros(d)
                c = run(scen, S4, n, k, initial_state=cdict(value=x))
                return c.value, c.temperature, c.ess, c.log_norm_constant, c.log_weight, jnp.asarray(scen.temperature)
        for _, g, (v, t, ess, Z, lw, last) in T.sliced('run', f, (x, k), [len(temps) - 1], lambda r: r[0].shape[0] - 1):
            T.check('length', g, generic=False)
            T.eq('temperatures', t, np.asarray(temps))
            T.eq('final temperature of the target', last, np.asarray(1.))

            def ref(v):
                w, out = jnp.zeros(n), []
                for i, q in enumerate(temps):
                    w = w - (q - (temps[i - 1] if i else 0.)) * jnp.stack([lik(s) for s in v[i]])
                    out.append((w, ess_of(w), jnp.mean(jnp.exp(w))))
                return [jnp.exp(jnp.stack([o[0] for o in out]))] + [jnp.stack([o[j] for o in out]) for j in (1, 2)]
            T.eq('start', T.call('0', lambda v: v[0], v), x)
            w, es, z = T.call('ref', ref, v)
            T.eq('weights', T.call('e1', jnp.exp, lw), w)
            T.eq('effective size', ess, es)
            T.eq('evidence', T.call('e2', jnp.exp, Z), z)
