"""C24  linear Gaussian models: Kalman filter and smoother are exact conditioning of the joint Gaussian."""
import jax
from jax import random
from .lib import *
from mocat.src.ssm.linear_gaussian import kalman
from mocat.src.ssm.linear_gaussian.linear_gaussian import LinearGaussian, TimeHomogenousLinearGaussian

P = 'C24'


def model(d, do, m0, S0, F, Q, H, R):
    """time-varying model: the matrices at each time are given tables, indexed by the (integer) times."""
    class L(LinearGaussian):
        dim, dim_obs = d, do

        def __init__(self):
            pass

        def get_initial_mean(self, t):
            return m0

        def get_initial_covariance_sqrt(self, t):
            return S0

        def get_transition_matrix(self, s, t):
            return F[jnp.asarray(t, int)]

        def get_transition_covariance_sqrt(self, s, t):
            return Q[jnp.asarray(t, int)]

        def get_likelihood_matrix(self, t):
            return H[jnp.asarray(t, int)]

        def get_likelihood_covariance_sqrt(self, t):
            return R[jnp.asarray(t, int)]
    return L()


def symbols(T, n, d, do):
    return T.real('y', (n, do)), T.real('m0', (d,)), T.real('S0', (d, d)), T.real('F', (n, d, d)), T.real('Q', (n, d, d)), T.real('H', (n, do, d)), \
        T.real('R', (n, do, do))


def inv(A):
    if A.shape[0] == 1:
        return 1 / A
    if A.shape[0] == 2:
        return jnp.array([[A[1, 1], -A[0, 1]], [-A[1, 0], A[0, 0]]]) / (A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0])
    B, C, D = A[:2, :2], A[:2, 2:], A[2:, 2:]       # symmetric block inverse
    Bi = inv(B)
    S = inv(D - C.T @ Bi @ C)
    U = Bi @ C
    return jnp.block([[Bi + U @ S @ U.T, -U @ S], [-S @ U.T, S]])


def joint(n, m0, S0, F, Q, H, R):
    """mean and covariance of all states, from the model."""
    mu, V = [m0], [[S0 @ S0.T]]
    for t in range(1, n):
        mu.append(F[t] @ mu[-1])
        new = [F[t] @ V[t - 1][s] for s in range(t)]
        new.append(F[t] @ V[t - 1][t - 1] @ F[t].T + Q[t] @ Q[t].T)
        V.append(new)
    full = [[V[a][b] if a >= b else V[b][a].T for b in range(n)] for a in range(n)]
    return mu, full


def conditioned(n, upto, y, m0, S0, F, Q, H, R):
    """mean and covariance of all states given the first `upto` observations."""
    mu, V = joint(n, m0, S0, F, Q, H, R)
    d = m0.shape[0]
    m, C = jnp.concatenate(mu), jnp.block(V)
    Hs = jnp.concatenate([jnp.concatenate([H[t] if s == t else jnp.zeros_like(H[t]) for s in range(n)], 1) for t in range(upto)])
    do = H.shape[1]
    Rs = jnp.block([[R[t] @ R[t].T if s == t else jnp.zeros((do, do)) for s in range(upto)] for t in range(upto)])
    Y = jnp.concatenate([y[t] for t in range(upto)])
    K = C @ Hs.T @ inv(Hs @ C @ Hs.T + Rs)
    m, C = m + K @ (Y - Hs @ m), C - K @ Hs @ C
    return [m[t * d:(t + 1) * d] for t in range(n)], [[C[a * d:(a + 1) * d, b * d:(b + 1) * d] for b in range(n)] for a in range(n)]


def regular(T, n, *a):
    """the noise of every time is non-degenerate."""
    y, m0, S0, F, Q, H, R = a
    det = lambda A: A[0, 0] if A.shape[0] == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    for t in range(n):
        T.assume(T.call(f'r{t}', lambda R: det(R[t]) != 0, R))
        if t:
            T.assume(T.call(f'q{t}', lambda Q: det(Q[t]) != 0, Q))
    T.assume(T.call('s0', lambda S: det(S) != 0, S0))


for n, d, do in ((1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 1), (2, 2, 1), (3, 1, 1), (4, 1, 1), (5, 1, 1)):
    @harness(P, f'filter_T{n}_d{d}_obs{do}', tier='thorough' if n * d > 4 else 'quick', about='filter means and covariances are those of each state given the observations so far')
    def _(T, n=n, d=d, do=do):
        a = symbols(T, n, d, do)
        regular(T, n, *a)
        mus, covs = T.call('code', lambda y, *m: kalman.run_kalman_filter_for_marginals(model(d, do, *m), y, jnp.arange(n) * 1.), *a)

        def ref(*a):
            o = [conditioned(n, t + 1, *a) for t in range(n)]
            return jnp.stack([o[t][0][t] for t in range(n)]), jnp.stack([o[t][1][t][t] for t in range(n)])
        r = T.call('ref', ref, *a)
        T.eq('mean', mus, r[0])
        T.eq('covariance', covs, r[1])


for n, d, do in ((2, 1, 1), (3, 1, 1), (4, 1, 1)):
    @harness(P, f'smoother_T{n}_d{d}_obs{do}', about='smoother means and covariances are those of each state given all observations, second moments across neighbouring times included')
    def _(T, n=n, d=d, do=do):
        a = symbols(T, n, d, do)
        regular(T, n, *a)

        def f(y, *m):
            s, t = model(d, do, *m), jnp.arange(n) * 1.
            return kalman.run_kalman_smoother_for_marginals_and_lag_ones(s, y, t), kalman.run_kalman_smoother_for_marginals(s, y, t), \
                kalman.run_kalman_smoother_for_marginals(s, y, t, kalman.run_kalman_filter_for_marginals(s, y, t))
        (mus, covs, lag), two, given = T.call('code', f, *a)

        def ref(*a):
            m, C = conditioned(n, n, *a)
            return jnp.stack(m), jnp.stack([C[t][t] for t in range(n)]), jnp.stack([jnp.outer(m[t], m[t + 1]) + C[t][t + 1] for t in range(n - 1)])
        r = T.call('ref', ref, *a)
        T.eq('mean', mus, r[0])
        T.eq('covariance', covs, r[1])
        T.eq('lag-one moments', lag, r[2])
        T.eq('without lag-one moments', two, (mus, covs))
        T.eq('with given filter output', given, (mus, covs))


for d, do in ((2, 1), (1, 2)):
    @harness(P, f'filter_step_d{d}_obs{do}', about='one predict and update step from an arbitrary Gaussian (first observation uninformative)', cost=3)
    def _(T, d=d, do=do):
        y, m0, F, Q, H, R = T.real('y', (2, do)), T.real('m0', (d,)), T.real('F', (d, d)), T.real('Qd', (d,), pos=True), T.real('H', (do, d)), T.real('R', (do,), pos=True)
        S0 = tri(T, d)
        two = lambda a, b: jnp.stack([a, b])

        def f(y, m0, S0, F, Q, H, R):
            return kalman.run_kalman_filter_for_marginals(model(d, do, m0, S0, two(F, F), two(jnp.diag(Q), jnp.diag(Q)), two(jnp.zeros((do, d)), H),
                                                                two(jnp.diag(R), jnp.diag(R))), y, jnp.arange(2) * 1.)
        mus, covs = T.call('code', f, y, m0, S0, F, Q, H, R)

        def ref(y, m0, S0, F, Q, H, R):
            P0 = S0 @ S0.T
            m, C = F @ m0, F @ P0 @ F.T + jnp.diag(Q ** 2)
            K = C @ H.T @ inv(H @ C @ H.T + jnp.diag(R ** 2))
            return two(m0, m + K @ (y[1] - H @ m)), two(P0, C - K @ H @ C)
        r = T.call('ref', ref, y, m0, S0, F, Q, H, R)
        T.eq('mean', mus, r[0])
        T.eq('covariance', covs, r[1])


for d in (1, 2):
    @harness(P, f'smoother_step_d{d}', about='one backward step from arbitrary filter output', cost=3)
    def _(T, d=d):
        m0, m1, F, Q = T.real('m0', (d,)), T.real('m1', (d,)), T.real('F', (d, d)), T.real('Qd', (d,), pos=True)
        S0, S1 = tri(T, d, 'A'), tri(T, d, 'B')

        def f(m0, m1, S0, S1, F, Q):
            s = model(d, 1, m0, S0, jnp.stack([F, F]), jnp.stack([jnp.diag(Q)] * 2), None, None)
            return kalman.run_kalman_smoother_for_marginals_and_lag_ones(s, jnp.zeros((2, 1)), jnp.arange(2) * 1., (jnp.stack([m0, m1]), jnp.stack([S0 @ S0.T, S1 @ S1.T])))
        mus, covs, lag = T.call('code', f, m0, m1, S0, S1, F, Q)

        def ref(m0, m1, S0, S1, F, Q):
            P0, C1 = S0 @ S0.T, S1 @ S1.T
            G = P0 @ F.T @ inv(F @ P0 @ F.T + jnp.diag(Q ** 2))
            m = m0 + G @ (m1 - F @ m0)
            return jnp.stack([m, m1]), jnp.stack([P0 - G @ F @ P0 + G @ C1 @ G.T, C1]), (jnp.outer(m, m1) + G @ C1)[None]
        r = T.call('ref', ref, m0, m1, S0, S1, F, Q)
        T.eq('mean', mus, r[0])
        T.eq('covariance', covs, r[1])
        T.eq('lag-one moments', lag, r[2])


def lg(d, do, L0, LQ, LR, m0, F, H):
    return TimeHomogenousLinearGaussian(initial_mean=m0, initial_covariance=L0 @ L0.T, transition_matrix=F, transition_covariance=LQ @ LQ.T, likelihood_matrix=H,
                                        likelihood_covariance=LR @ LR.T)


for d, do in ((1, 1), (2, 1), (2, 2)):
    @harness(P, f'model_d{d}_obs{do}', about='potentials and draws of the linear Gaussian model are those of its mean and covariance at every time')
    def _(T, d=d, do=do):
        x, z, y, m0, F, H, k = T.real('x', (d,)), T.real('z', (d,)), T.real('y', (do,)), T.real('m0', (d,)), T.real('F', (d, d)), T.real('H', (do, d)), T.key('k')
        L0, LQ, LR = tri(T, d, 'A'), tri(T, d, 'B'), tri(T, do, 'C')

        def f(x, z, y, m0, F, H, L0, LQ, LR, k):
            s = lg(d, do, L0, LQ, LR, m0, F, H)
            k = random.split(k, 3)
            return (s.initial_potential(x, 0.), s.transition_potential(x, 0., z, 1.), s.likelihood_potential(x, y, 0.)), \
                (s.initial_sample(0., k[0]), s.transition_sample(x, 0., 1., k[1]), s.likelihood_sample(x, 0., k[2])), s.transition_function(x, 0., 1.)
        pots, draws, mean = T.call('code', f, x, z, y, m0, F, H, L0, LQ, LR, k)
        e = [q.array for q in T.draws('normal')]
        T.true('draws', len(e) == 3)

        def pot(v, L):      # -log density of L e at v
            n = v.shape[0]
            w = []
            for i in range(n):
                w.append((v[i] - sum(L[i, j] * w[j] for j in range(i))) / L[i, i])
            return .5 * sum(q * q for q in w) + n * L2P / 2 + sum(jnp.log(L[i, i]) for i in range(n))

        def ref(x, z, y, m0, F, H, L0, LQ, LR, e):
            return (pot(x - m0, L0), pot(z - F @ x, LQ), pot(y - H @ x, LR)), (m0 + L0 @ e[0], F @ x + LQ @ e[1], H @ x + LR @ e[2]), F @ x
        r = T.call('ref', ref, x, z, y, m0, F, H, L0, LQ, LR, e)
        for nm, a, b in zip(('initial', 'transition', 'likelihood'), pots, r[0]):
            T.eq(nm + ' potential', a, b)
        for nm, a, b in zip(('initial', 'transition', 'observation'), draws, r[1]):
            T.eq(nm + ' draw', a, b)
        T.eq('transition mean', mean, r[2])
