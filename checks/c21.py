"""C21  filters for non-linear Gaussian models: optimal proposal and weight factorise the model; the ensemble Kalman filter moves by the ensemble gain."""
import jax
from jax import random
from .lib import *
from .c24 import inv
from mocat.src.ssm.nonlinear_gaussian import NonLinearGaussian, OptimalNonLinearGaussianParticleFilter, EnsembleKalmanFilter
from mocat.src.ssm import filtering

P = 'C21'


def model(d, do, m0, L0, LQ, H, LR):
    class M(NonLinearGaussian):
        name = 'uf'

        def transition_function(self, x, s, t):
            return uf('f', (d,))(x, s, t)
    M.dim = d
    return M(initial_mean=m0, initial_covariance=L0 @ L0.T, transition_covariance=LQ @ LQ.T, likelihood_matrix=H, likelihood_covariance=LR @ LR.T)


def quad(v, L):
    """half the squared noise e with L e = v."""
    n, w = v.shape[0], []
    for i in range(n):
        w.append((v[i] - sum(L[i, j] * w[j] for j in range(i))) / L[i, i])
    return .5 * sum(q * q for q in w)


def symbols(T, d, do, diag_noise=True, fixed=True):
    if fixed and d == do == 2:  # correlated noise in states and observations, general observation matrix with one free entry
        H = T.call('H', lambda a: jnp.stack([jnp.stack([1., a]), jnp.array([1., 3.])]), T.real('h'))
        return T.real('m0', (d,)), np.array([[1., 0.], [2., 1.]]), np.array([[2., 0.], [1., 1.]]), H, np.array([[1., 0.], [.5, 2.]])
    m0, H = T.real('m0', (d,)), T.real('H', (do, d))
    L0, LQ = tri(T, d, 'A'), tri(T, d, 'B')
    if do == 1 or not diag_noise:
        LR = tri(T, do, 'C')
    else:
        LR = T.call('diag', jnp.diag, T.real('Cd', (do,), pos=True))
    return m0, L0, LQ, H, LR


CASES = ((1, 1), (2, 1), (1, 2), (2, 2))

for d, do in CASES:
    @harness(P, f'factorisation_d{d}_obs{do}', about='proposal density times weight is transition density times likelihood, for every state and observation', cost=3)
    def _(T, d=d, do=do):
        m = symbols(T, d, do)
        x, z, y, t0, t1 = T.real('x', (d,)), T.real('z', (d,)), T.real('y', (do,)), T.real('t0'), T.real('t1')

        def mean(x, y, t0, t1, m0, L0, LQ, H, LR):
            mx, Q = uf('f', (d,))(x, t0, t1), LQ @ LQ.T
            return H @ mx, mx + Q @ H.T @ inv(H @ Q @ H.T + LR @ LR.T) @ (y - H @ mx)
        ym, zm = T.call('mean', mean, x, y, t0, t1, *m)

        def f(x, z, y, ym, zm, t0, t1, *m):
            s, F = model(d, do, *m), OptimalNonLinearGaussianParticleFilter()
            F.startup(s)
            q, q0 = (F.proposal_potential(s, x, t0, v, y, t1) for v in (z, zm))
            w, w0 = (F.intermediate_log_weight(s, x, t0, z, v, t1) for v in (y, ym))
            return q - q0, w0 - w, q0, -w0
        q, w, q0, w0 = T.call('code', f, x, z, y, ym, zm, t0, t1, *m)

        def ref(x, z, y, t0, t1, m0, L0, LQ, H, LR):
            mx = uf('f', (d,))(x, t0, t1)
            C, r = H @ LQ @ LQ.T @ H.T + LR @ LR.T, y - H @ mx
            det = C[0, 0] if do == 1 else C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
            a = quad(z - mx, LQ) + quad(y - H @ z, LR)
            dw = det * (2 * jnp.pi) ** do
            dm = jnp.prod(jnp.diag(LQ)) ** 2 * jnp.prod(jnp.diag(LR)) ** 2 * (2 * jnp.pi) ** (d + do)
            return a - .5 * r @ inv(C) @ r, .5 * r @ inv(C) @ r, dm / dw, dw
        r = T.call('ref', ref, x, z, y, t0, t1, *m)
        T.eq('weight', w, r[1])
        T.eq('proposal', q, r[0])
        # normalising constants, as ratios
        T.eq('scale of the weight', T.call('e', lambda w: jnp.exp(2 * w), w0), r[3])
        T.eq('scale of the proposal', T.call('e2', lambda q: jnp.exp(2 * q), q0), r[2])

    @harness(P, f'draws_d{d}_obs{do}', about='particles drawn by the filter, one or all at once, follow the proposal density', cost=2)
    def _(T, d=d, do=do):
        n = 2
        m = symbols(T, d, do)
        x, y, t0, t1, k = T.real('x', (n, d)), T.real('y', (do,)), T.real('t0'), T.real('t1'), T.keys('k', n)

        def f(x, y, t0, t1, k, *m):
            s, F = model(d, do, *m), OptimalNonLinearGaussianParticleFilter()
            F.startup(s)
            v, w = F.propose_and_intermediate_weight_vectorised(s, x, t0, y, t1, k)
            one = F.proposal_sample(s, x[0], t0, y, t1, k[0])
            return v, w, one, jnp.stack([F.intermediate_log_weight(s, x[i], t0, v[i], y, t1) for i in range(n)])
        v, w, one, ws = T.call('code', f, x, y, t0, t1, k, *m)
        a, b = [q.array for q in T.draws('normal')]

        def ref(x, v, e, y, t0, t1, m0, L0, LQ, H, LR):
            """twice the quadratic form of the conditioned Gaussian at the drawn value"""
            mx = uf('f', (d,))(x, t0, t1)
            Q, R = LQ @ LQ.T, LR @ LR.T
            K = Q @ H.T @ inv(H @ Q @ H.T + R)
            prec = inv(Q) + H.T @ inv(R) @ H
            r = v - (mx + K @ (y - H @ mx))
            return r @ prec @ r, e @ e
        for nm, i, val, e in [('all', 0, v, a), ('all', 1, v, a), ('one', 0, None, b)]:
            vi = one if val is None else T.call(f'v{i}', lambda v, i=i: v[i], v)
            ei = e if val is None else T.call(f'e{i}', lambda e, i=i: e[i], e)
            xi = T.call(f'x{i}', lambda x, i=i: x[i], x)
            p, q = T.call(f'ref{nm}{i}', ref, xi, vi, ei, y, t0, t1, *m)
            T.eq(f'{nm} {i}', p, q)
        T.eq('weights', w, ws)

    @harness(P, f'start_d{d}_obs{do}', about='first particles follow the initial state given the first observation, all with the same weight', cost=2)
    def _(T, d=d, do=do):
        n = 2
        m = symbols(T, d, do)
        x, y, t, k = T.real('x', (d,)), T.real('y', (do,)), T.real('t'), T.key('k')

        def f(x, y, t, k, *m):
            s, out = model(d, do, *m), []
            for F in (OptimalNonLinearGaussianParticleFilter(), EnsembleKalmanFilter()):
                p = filtering.initiate_particles(s, F, n, k, y, t)
                out.append((p.value[0], p.log_weight[0], p.ess))
            F = OptimalNonLinearGaussianParticleFilter()
            F.startup(s)
            one = F.initial_sample(s, y, t, k)
            C = m[1] @ m[1].T
            mean = m[0] + C @ m[3].T @ inv(m[3] @ C @ m[3].T + m[4] @ m[4].T) @ (y - m[3] @ m[0])
            q0 = F.initial_potential(s, mean, y, t)
            return out, F.initial_potential(s, one, y, t) - q0, q0, one
        out, q, q0, one = T.call('code', f, x, y, t, k, *m)
        ds = [d_.array for d_ in T.draws('normal')]
        T.true('draws', len(ds) == 3)

        def ref(v, e, y, m0, L0, LQ, H, LR):
            C0, R = L0 @ L0.T, LR @ LR.T
            prec = inv(C0) + H.T @ inv(R) @ H
            r = v - (m0 + C0 @ H.T @ inv(H @ C0 @ H.T + R) @ (y - H @ m0))
            return r @ prec @ r, e @ e
        for nm, (v, lw, ess), e in zip(('optimal', 'ensemble'), out, ds):
            for i in range(n):
                vi, ei = T.call(f'v{nm}{i}', lambda v, e, i=i: (v[i], e[i]), v, e)
                a, b = T.call(f'ref{nm}{i}', ref, vi, ei, y, *m)
                T.eq(f'{nm} {i}', a, b)
            T.eq(nm + ' weights', lw, T.call('same' + nm, lambda w: jnp.zeros(n) + w[0], lw))
            T.eq(nm + ' effective size', ess, np.full(1, float(n)))
        a, b = T.call('refone', ref, one, ds[2], y, *m)
        T.eq('single draw', a, b)
        T.eq('initial density of a draw', q, T.call('half', lambda e: e @ e / 2, ds[2]))

        def scale(m0, L0, LQ, H, LR):
            C = H @ L0 @ L0.T @ H.T + LR @ LR.T
            det = C[0, 0] if do == 1 else C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
            return jnp.prod(jnp.diag(L0)) ** 2 * jnp.prod(jnp.diag(LR)) ** 2 * (2 * jnp.pi) ** d / det
        T.eq('scale of the initial density', T.call('eq', lambda q: jnp.exp(2 * q), q0), T.call('er', scale, *m))


for n, d, do in ((2, 1, 1), (3, 1, 1), (3, 2, 1), (2, 2, 2), (3, 1, 2), (5, 1, 1)):
    @harness(P, f'ensemble_n{n}_d{d}_obs{do}', about='ensemble Kalman step: forecast with noise, gain of the forecast covariance, perturbed observations, equal weights', cost=2)
    def _(T, n=n, d=d, do=do):
        m = symbols(T, d, do, fixed=False)
        x, y, t0, t1, k = T.real('x', (n, d)), T.real('y', (do,)), T.real('t0'), T.real('t1'), T.keys('k', n)
        v, w = T.call('code', lambda x, y, t0, t1, k, *m: EnsembleKalmanFilter().propose_and_intermediate_weight_vectorised(model(d, do, *m), x, t0, y, t1, k),
                      x, y, t0, t1, k, *m)
        ds = T.draws('normal')
        T.independent('draws', ds)
        T.true('draws', sorted(q.array.shape for q in ds) == sorted([(n, d), (n, do)]))

        def ref(x, y, t0, t1, e, h, m0, L0, LQ, H, LR):
            mx = jnp.stack([uf('f', (d,))(x[i], t0, t1) + LQ @ e[i] for i in range(n)])
            c = mx - sum(mx) / n
            C = sum(jnp.outer(q, q) for q in c) / (n - 1)
            K = C @ H.T @ inv(H @ C @ H.T + LR @ LR.T)
            return jnp.stack([mx[i] + K @ (y - H @ mx[i] - LR @ h[i]) for i in range(n)])
        T.eq('value', v, T.call('ref', ref, x, y, t0, t1, ds[0].array, ds[1].array, *m))
        T.eq('weight', w, np.zeros(n))
