"""C10  Gaussian potentials: every parametrisation is the same negative log density."""
import jax
from .lib import *
from .lib import tri, L2P
from mocat.src import utils
from mocat.src.utils import gaussian_potential

P = 'C10'


def quad(x, m, PR):
    d = x - m
    return .5 * d @ (PR @ d)



for d, n in [(1, 1), (2, 1), (2, 2), (3, 2), (5, 3)]:
    vec = n > 1
    shape = (n, d) if vec else (d,)
    tag = f'd{d}' + (f'_n{n}' if vec else '')

    @harness(P, f'scalar_{tag}', about='standard, scalar precision and scalar root precision')
    def _(T, d=d, n=n, vec=vec, shape=shape):
        x, m, p = T.real('x', shape), T.real('m', (d,)), T.real('p', pos=True)

        def rows(f, x):
            return jnp.stack([f(r) for r in x]) if vec else f(x)

        def f(x, m, p):
            return gaussian_potential(x, m), gaussian_potential(x, m, prec=2.5), gaussian_potential(x, m, prec=p), \
                gaussian_potential(x, m, sqrt_prec=1.5), gaussian_potential(x, m, sqrt_prec=p), gaussian_potential(x)

        def ref(x, m, p):
            g = lambda q, m=m: rows(lambda r: .5 * q * jnp.sum((r - m) ** 2) + d * (L2P - jnp.log(q)) / 2, x)
            return g(1.), g(2.5), g(p), g(2.25), g(p ** 2), g(1., jnp.zeros(d))
        o, r = T.call('gp', f, x, m, p), T.call('ref', ref, x, m, p)
        for nm, a, b in zip(('default', 'float prec', 'scalar prec', 'float root', 'scalar root', 'no mean'), o, r):
            T.eq(nm, a, b)

    @harness(P, f'diag_{tag}', about='diagonal precision, diagonal root precision, with and without a given determinant')
    def _(T, d=d, n=n, vec=vec, shape=shape):
        x, m, p, det = T.real('x', shape), T.real('m', (d,)), T.real('p', (d,), pos=True), T.real('det', pos=True)

        def rows(f, x):
            return jnp.stack([f(r) for r in x]) if vec else f(x)

        def f(x, m, p, det):
            return gaussian_potential(x, m, prec=p), gaussian_potential(x, m, sqrt_prec=p), gaussian_potential(x, m, prec=p, det_prec=det), \
                gaussian_potential(x, m, sqrt_prec=p, det_prec=det)

        def ref(x, m, p, det):
            g = lambda q, dt: rows(lambda r: .5 * jnp.sum(q * (r - m) ** 2) + (d * L2P - jnp.log(dt)) / 2, x)
            return g(p, jnp.prod(p)), g(p ** 2, jnp.prod(p) ** 2), g(p, det), g(p ** 2, det)
        o, r = T.call('gp', f, x, m, p, det), T.call('ref', ref, x, m, p, det)
        for nm, a, b in zip(('prec', 'root', 'prec det', 'root det'), o, r):
            T.eq(nm, a, b)

    @harness(P, f'full_{tag}', about='full precision matrix and any square root of it: same value; with the determinant it is the normalised density')
    def _(T, d=d, n=n, vec=vec, shape=shape):
        x, m, S, det = T.real('x', shape), T.real('m', (d,)), T.real('S', (d, d)), T.real('det', pos=True)
        L = tri(T, d)

        def rows(f, x):
            return jnp.stack([f(r) for r in x]) if vec else f(x)

        def f(x, m, S, L, det):
            return gaussian_potential(x, m, sqrt_prec=S), gaussian_potential(x, m, sqrt_prec=S, det_prec=det), \
                gaussian_potential(x, m, prec=L @ L.T), gaussian_potential(x, m, prec=L @ L.T, det_prec=det)

        def ref(x, m, S, L, det):
            g = lambda Q: rows(lambda r: quad(r, m, Q), x)
            z = (d * L2P - jnp.log(det)) / 2
            return g(S @ S.T), g(S @ S.T) + z, g(L @ L.T), g(L @ L.T) + z
        o, r = T.call('gp', f, x, m, S, L, det), T.call('ref', ref, x, m, S, L, det)
        for nm, a, b in zip(('root', 'root normalised', 'prec', 'prec normalised'), o, r):
            T.eq(nm, a, b)


@harness(P, 'agree', about='diagonal parametrisations agree with the matching full ones')
def _(T):
    x, m, p = T.real('x', (2,)), T.real('m', (2,)), T.real('p', (2,), pos=True)

    def f(x, m, p):
        return gaussian_potential(x, m, prec=p ** 2), gaussian_potential(x, m, sqrt_prec=p), \
            gaussian_potential(x, m, prec=jnp.diag(p ** 2), det_prec=jnp.prod(p) ** 2), \
            gaussian_potential(x, m, sqrt_prec=jnp.diag(p), det_prec=jnp.prod(p) ** 2)
    o = T.call('gp', f, x, m, p)
    for k in (1, 2, 3):
        T.eq(f'version {k}', o[k], o[0])


@harness(P, 'gradient', about='the automatic gradient of the potential is precision times deviation')
def _(T):
    x, m, S, p = T.real('x', (2,)), T.real('m', (2,)), T.real('S', (2, 2)), T.real('p', (2,), pos=True)

    def f(x, m, S, p):
        return jax.grad(lambda x: gaussian_potential(x, m, sqrt_prec=S))(x), jax.grad(lambda x: gaussian_potential(x, m, prec=p))(x), \
            jax.grad(lambda x: gaussian_potential(x, m, prec=S @ S.T))(x), jax.grad(lambda m: gaussian_potential(x, m, sqrt_prec=S))(m)
    T.eq('gradient', T.call('g', f, x, m, S, p),
         T.call('ref', lambda x, m, S, p: (S @ S.T @ (x - m), p * (x - m), S @ S.T @ (x - m), -S @ S.T @ (x - m)), x, m, S, p))


for d in (1, 2, 3, 6):
    @harness(P, f'leave_one_out_{d}', about='indices of everything except one entry')
    def _(T, d=d):
        v = T.real('v', (d + 1,))
        i = T.choice('i', d + 1)
        o = T.call('f', lambda v, i: v[utils.leave_one_out_indices(d, i)], v, i)
        r = T.call('r', lambda v, i: jnp.stack([jnp.where(j < i, v[j], v[j + 1]) for j in range(d)]), v, i)
        T.eq('others', o, r)


@harness(P, 'distances', about='pairwise Euclidean distances')
def _(T):
    v = T.real('v', (3, 2))
    T.eq('matrix', T.call('f', utils.l2_distance_matrix, v),
         T.call('r', lambda v: jnp.stack([jnp.stack([jnp.sqrt((v[i, 0] - v[j, 0]) ** 2 + (v[i, 1] - v[j, 1]) ** 2) for j in range(3)])
                                          for i in range(3)]), v))


for dim in (1, 2, 5, 6, 9, 12):
    @harness(P, f'taper_{dim}', about='localisation matrix: Gaspari-Cohn function of the cyclic distance; one on the diagonal, zero beyond twice the radius')
    def _(T, dim=dim):
        r = T.real('r', pos=True)
        o = T.call('f', lambda r: utils.gc_matrix(dim, r), r)

        def gc(z, r):
            q = z / r
            a = 1 - 5 * q ** 2 / 3 + 5 * q ** 3 / 8 + q ** 4 / 2 - q ** 5 / 4
            q1 = q if z else 1.
            b = 4 - 5 * q + 5 * q ** 2 / 3 + 5 * q ** 3 / 8 - q ** 4 / 2 + q ** 5 / 12 - 2 / (3 * q1)
            return jnp.where(z < r, a, jnp.where(z < 2 * r, b, 0.))
        ref = T.call('ref', lambda r: jnp.stack([jnp.stack([gc(float(min(abs(i - j), dim - abs(i - j))), r) for j in range(dim)])
                                                 for i in range(dim)]), r)
        T.eq('taper', o, ref)


@harness(P, 'kalman_gain', about='gain from covariance roots: minimises the posterior variance (normal equations), also with the inverse supplied')
def _(T):
    S, H, R = T.real('S', (2, 2)), T.real('H', (1, 2)), T.real('R', (1, 1), pos=True)

    def f(S, H, R):
        K = utils.kalman_gain(S, H, R)
        V = S @ S.T
        Q = H @ V @ H.T + R @ R.T
        return K @ Q, V @ H.T, utils.kalman_gain(S, H, R, jnp.linalg.inv(Q)) @ Q
    a, b, c = T.call('f', f, S, H, R)
    T.eq('normal equations', a, b)
    T.eq('with inverse', c, b)


@harness(P, 'kalman_gain_2', about='gain with two observations', tier='quick')
def _(T):
    S, H, R = tri(T, 2, 'S'), T.real('H', (2, 2)), tri(T, 2, 'R')

    def f(S, H, R):
        K = utils.kalman_gain(S, H, R)
        V = S @ S.T
        return K @ (H @ V @ H.T + R @ R.T), V @ H.T
    T.eq('normal equations', *T.call('f', f, S, H, R))
