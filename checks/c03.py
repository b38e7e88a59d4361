"""C03  leapfrog integrator."""
import jax
from .lib import *
from mocat.src import utils

P = 'C03'


def start(scen, x, p, k=None):
    pp, gp = scen.prior_potential_and_grad(x, None)
    lp, gl = scen.likelihood_potential_and_grad(x, None)
    t = scen.temperature
    return cdict(value=x, momenta=p, prior_potential=pp, grad_prior_potential=gp, likelihood_potential=lp,
                 grad_likelihood_potential=gl, potential=pp + t * lp, grad_potential=gp + t * gl)


def flow(x, p, h, temp, L):
    scen = uf_scenario(x.size, temp)
    return utils.leapfrog(scen.prior_potential_and_grad, scen.likelihood_potential_and_grad, start(scen, x, p), h,
                          jnp.zeros((L, 2), dtype=jnp.uint32), scen.temperature)


def total_grad(x, temp):
    return jax.grad(uf('prior'))(x) + temp * jax.grad(uf('lik'))(x)


def inputs(T, d):
    return T.real('x', (d,)), T.real('p', (d,)), T.real('h', pos=True), T.real('temp', lo=0)


for D, L, tier in [(1, 1, 'quick'), (1, 2, 'quick'), (1, 3, 'quick'), (2, 1, 'quick'), (2, 2, 'quick'), (2, 3, 'quick'),
                   (1, 5, 'quick'), (3, 2, 'quick'), (3, 4, 'quick'), (1, 8, 'quick'), (5, 3, 'quick'), (4, 10, 'quick'), (8, 6, 'thorough'), (2, 25, 'thorough')]:
    @harness(P, f'reverse_d{D}_L{L}', tier=tier, about='running back from the end point with flipped momenta returns to the start')
    def _(T, D=D, L=L):
        x, p, h, temp = inputs(T, D)

        def f(x, p, h, temp):
            a = flow(x, p, h, temp, L)
            b = flow(a.value[-1], -a.momenta[-1], h, temp, L)
            return b.value[-1], b.momenta[-1], b.potential[-1], b.grad_potential[-1]
        v, m, u, g = T.call('there and back', f, x, p, h, temp)
        T.eq('value', v, x)
        T.eq('momenta', m, T.call('neg', lambda p: -p, p))
        T.eq('potential', u, T.call('u', lambda x, t: uf('prior')(x) + t * uf('lik')(x), x, temp))
        T.eq('gradient', g, T.call('g', total_grad, x, temp))

    @harness(P, f'verlet_d{D}_L{L}', tier=tier, about='positions, half-step momenta and cached potentials are those of velocity Verlet')
    def _(T, D=D, L=L):
        x, p, h, temp = inputs(T, D)
        out = T.call('leapfrog', lambda *a: flow(*a, L), x, p, h, temp)

        def ref(x, p, h, temp):
            xs, ps = [x], [p]
            for _ in range(L):
                half = p - h * total_grad(x, temp) / 2
                x = x + h * half
                p = half - h * total_grad(x, temp) / 2
                xs.append(x)
                ps += [half, p]
            pri, lik = uf('prior'), uf('lik')
            return cdict(value=jnp.stack(xs), momenta=jnp.stack(ps),
                         prior_potential=jnp.stack([pri(z) for z in xs]),
                         likelihood_potential=jnp.stack([lik(z) for z in xs]),
                         grad_prior_potential=jnp.stack([jax.grad(pri)(z) for z in xs]),
                         grad_likelihood_potential=jnp.stack([jax.grad(lik)(z) for z in xs]),
                         potential=jnp.stack([pri(z) + temp * lik(z) for z in xs]),
                         grad_potential=jnp.stack([total_grad(z, temp) for z in xs]))
        r = T.call('ref', ref, x, p, h, temp)
        for n in r.keys():
            T.eq(n, out[n], r[n])

for D, L, tier in [(1, 1, 'quick'), (1, 2, 'quick'), (2, 1, 'quick'), (1, 3, 'quick'), (3, 1, 'thorough')]:
    @harness(P, f'volume_d{D}_L{L}', tier=tier, about='the map of positions and momenta preserves volume')
    def _(T, D=D, L=L):
        x, p, h, temp = inputs(T, D)

        def f(x, p, h, temp):
            def step(z):
                a = flow(z[:D], z[D:], h, temp, L)
                return jnp.concatenate([a.value[-1], a.momenta[-1]])
            J = jax.jacfwd(step)(jnp.concatenate([x, p]))
            if D == 1:
                return J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
            return jnp.linalg.det(J) if D > 2 else det4(J)
        T.eq('determinant', T.call('det', f, x, p, h, temp), jnp.asarray(1.))


def det4(J):
    import itertools
    out = 0.
    for perm in itertools.permutations(range(4)):
        s = 1.
        for i in range(4):
            for j in range(i):
                if perm[j] > perm[i]:
                    s = -s
        out = out + s * J[0, perm[0]] * J[1, perm[1]] * J[2, perm[2]] * J[3, perm[3]]
    return out
