"""C04  Underdamped Langevin / HMC."""
import jax
from .lib import *
from mocat.src.mcmc.standard_mcmc import Underdamped
from mocat.src.mcmc.metropolis import Metropolis

P = 'C04'


def tgrad(x, temp):
    return jax.grad(uf('prior'))(x) + temp * jax.grad(uf('lik'))(x)


def tpot(x, temp):
    return uf('prior')(x) + temp * uf('lik')(x)


def full_state(x, p, temp):
    pri, lik = uf('prior'), uf('lik')
    gp, gl = jax.grad(pri)(x), jax.grad(lik)(x)
    return cdict(value=x, momenta=p, prior_potential=pri(x), likelihood_potential=lik(x), grad_prior_potential=gp,
                 grad_likelihood_potential=gl, potential=pri(x) + temp * lik(x), grad_potential=gp + temp * gl)


def verlet(x, p, h, temp, L):
    for _ in range(L):
        p = p - h * tgrad(x, temp) / 2
        x = x + h * p
        p = p - h * tgrad(x, temp) / 2
    return x, p


def hamiltonian(x, p, temp):
    return tpot(x, temp) + jnp.sum(p * p) / 2


def make(L, fr, h):
    return Underdamped(stepsize=h, leapfrog_steps=L, friction=fr)


def ou(p, z, fr, h):
    if fr is None:
        return z
    return -p * jnp.exp(-fr * h) + jnp.sqrt(1 - jnp.exp(-2 * fr * h)) * z


CACHED = ('prior_potential', 'likelihood_potential', 'grad_prior_potential', 'grad_likelihood_potential', 'potential',
          'grad_potential')

for D, L, hmc, tier in [(1, 1, False, 'quick'), (1, 1, True, 'quick'), (2, 1, False, 'quick'), (1, 2, False, 'quick'),
                        (2, 2, True, 'quick'), (2, 3, False, 'quick'), (3, 2, True, 'quick'), (3, 5, False, 'quick'), (5, 2, True, 'quick'), (5, 8, True, 'quick'), (2, 20, False, 'thorough'), (9, 3, True, 'thorough')]:
    @harness(P, f'step_d{D}_L{L}_{"hmc" if hmc else "langevin"}', tier=tier, cost=D * L,
             about='one transition from an arbitrary consistent state: momentum refresh, Verlet proposal, acceptance by '
                   'the Hamiltonian difference, flip on rejection, caches')
    def _(T, D=D, L=L, hmc=hmc):
        x, p, h = T.real('x', (D,)), T.real('p', (D,)), T.real('h', pos=True)
        temp, k = T.real('temp', lo=0), T.key('k')
        fr = None if hmc else T.real('fr', pos=True)
        it = T.real('iter', integer=True, lo=0)

        def f(x, p, h, temp, k, it, fr=jnp.inf):
            scen = uf_scenario(D, temp)
            s = make(L, fr, h)
            st, ex = s.startup(scen, 10, cdict(value=jnp.zeros(D)), cdict(random_key=jnp.zeros(2, dtype=jnp.uint32)))
            state = full_state(x, p, temp)
            state.alpha = 1.
            return s.update(scen, state, cdict(random_key=k, iter=it, parameters=cdict(stepsize=h, friction=fr, leapfrog_steps=L)))
        ns, ne = T.call('step', f, x, p, h, temp, k, it, *([] if hmc else [fr]))
        ds = T.draws()
        nrm, = [d for d in ds if d.kind == 'normal']
        uni, = [d for d in ds if d.kind == 'uniform']
        T.true('draw shapes', nrm.shape == (D,) and uni.shape == () and len(ds) == 2)
        T.independent('draws', ds)
        T.fresh('next key', ne.random_key, ds)

        def ref(x, p, h, temp, z, u, fr=None):
            m = ou(p, z, fr, h)
            y, q = verlet(x, m, h, temp, L)
            lr = hamiltonian(x, m, temp) - hamiltonian(y, q, temp)
            a = jnp.where(lr >= 0, 1., jnp.exp(lr))
            acc = u < a
            # the proposal is reversible: on acceptance the stored momenta are the negated end momenta
            return jnp.where(acc, y, x), jnp.where(acc, -q, m), a, acc
        v, m, a, acc = T.call('ref', ref, x, p, h, temp, nrm.array, uni.array, *([] if hmc else [fr]))
        T.eq('alpha', ns.alpha, a)
        T.eq('value', ns.value, v)
        T.eq('momenta', ns.momenta, m)
        T.eq('iter', ne.iter, T.call('it', lambda i: i + 1, it))

        # caches always describe the value that is kept
        def cached(x, y, acc, temp):
            A, B = full_state(x, x, temp), full_state(y, y, temp)
            return [jnp.where(acc, B[n], A[n]) for n in CACHED]
        y = T.call('end', lambda x, p, h, temp, z, fr=None: verlet(x, ou(p, z, fr, h), h, temp, L)[0], x, p, h, temp,
                   nrm.array, *([] if hmc else [fr]))
        for n, c in zip(CACHED, T.call('cached', cached, x, y, acc, temp)):
            T.eq(n, ns[n], c)


@harness(P, 'startup', about='the first state carries its own potentials and gradients and starts with zero momenta')
def _(T):
    x, temp, k = T.real('x', (2,)), T.real('temp', lo=0), T.key('k')

    def f(x, temp, k):
        scen = uf_scenario(2, temp)
        return Underdamped(stepsize=.1).startup(scen, 10, cdict(value=x), cdict(random_key=k))
    st, ex = T.call('startup', f, x, temp, k)
    r = T.call('ref', lambda x, t: full_state(x, jnp.zeros(2), t), x, temp)
    for n in CACHED + ('momenta', 'value'):
        T.eq(n, st[n], r[n])


@harness(P, 'ou_stationary', about='the refresh keeps the standard normal law of the momenta: squared coefficients sum to one')
def _(T):
    h, fr, k = T.real('h', pos=True), T.real('fr', pos=True), T.key('k')
    p = T.real('p', (2,))

    def f(p, h, fr, k):
        scen = uf_scenario(2, 1.)
        st, ex = make(1, fr, h).always(scen, cdict(momenta=p), cdict(random_key=k, parameters=cdict(stepsize=h, friction=fr)))
        return st.momenta
    m = T.call('always', f, p, h, fr, k)
    z, = T.draws()
    T.eq('linear with unit variance', T.call('ref', lambda p, h, fr, z: -p * jnp.exp(-fr * h)
                                              + z * jnp.sqrt(1 - jnp.exp(-fr * h) ** 2), p, h, fr, z.array), m)


@harness(P, 'involution', about='proposing again from an accepted proposal returns to the start (detailed balance of the proposal)')
def _(T):
    x, p, h, temp, k = T.real('x', (1,)), T.real('p', (1,)), T.real('h', pos=True), T.real('temp', lo=0), T.key('k')

    def f(x, p, h, temp, k):
        scen = uf_scenario(1, temp)
        s = make(2, 1., h)
        e = lambda: cdict(random_key=k, iter=1, parameters=cdict(stepsize=h, friction=1.))
        a, _ = s.proposal(scen, full_state(x, p, temp), e())
        b, _ = s.proposal(scen, a.copy(), e())
        r = full_state(x, p, temp)
        return a, b, s.acceptance_probability(scen, r, e(), a, e()), s.acceptance_probability(scen, a, e(), r, e())
    a, b, al, be = T.call('twice', f, x, p, h, temp, k)
    T.eq('value', b.value, x)
    T.eq('momenta', b.momenta, p)
    # detailed balance: pi(z) alpha(z, z') = pi(z') alpha(z', z)
    lhs, rhs = T.call('db', lambda x, p, a, al, be, t: (al * jnp.exp(-hamiltonian(x, p, t)),
                                                        be * jnp.exp(-hamiltonian(a.value, a.momenta, t))), x, p, a, al, be, temp)
    T.eq('detailed balance', lhs, rhs)
