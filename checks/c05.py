"""C05  quasi-Newton (L-BFGS) preconditioning."""
import jax
from .lib import *
from .c04 import tgrad, tpot, full_state, CACHED
from mocat.src import utils
from mocat.src.mcmc.qn_underdamped import QNUnderdamped, bfgs_leapfrog

P = 'C05'

for M, D, tier in [(1, 1, 'quick'), (1, 2, 'quick'), (2, 2, 'quick'), (3, 2, 'quick'), (2, 3, 'quick'), (4, 3, 'quick'), (3, 5, 'quick'), (5, 1, 'thorough'), (6, 4, 'thorough')]:
    @harness(P, f'adjoint_m{M}_d{D}', tier=tier, about='the product and transposed product are adjoint; both are the stated product of rank-one updates')
    def _(T, M=M, D=D):
        ps, qs = T.real('ps', (M, D)), T.real('qs', (M, D))
        z, w, c = T.real('z', (D,)), T.real('w', (D,)), T.real('c', (D,), pos=True)
        a = T.call('prod', utils.bfgs_sqrt_prod, ps, qs, z, c)
        b = T.call('tprod', utils.bfgs_sqrt_transpose_prod, ps, qs, w, c)

        def ref(ps, qs, z, w, c):
            C = jnp.diag(c)
            for i in range(M):
                C = C - jnp.outer(ps[i], qs[i] @ C)
            return C @ z, C.T @ w, C
        ra, rb, C = T.call('ref', ref, ps, qs, z, w, c)
        T.eq('product', a, ra)
        T.eq('transposed product', b, rb)
        T.eq('adjoint', *T.call('inner', lambda a, b, z, w: (a @ w, z @ b), a, b, z, w))
        if D <= 2 or M <= 2:
            det = T.call('det', utils.bfgs_sqrt_det, ps, qs, c)
            lad = T.call('logdet', utils.bfgs_sqrt_log_abs_det, ps, qs, c)

            def rdet(C):
                if D == 1:
                    return C[0, 0]
                if D == 2:
                    return C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
                return (C[0, 0] * (C[1, 1] * C[2, 2] - C[1, 2] * C[2, 1]) - C[0, 1] * (C[1, 0] * C[2, 2] - C[1, 2] * C[2, 0])
                        + C[0, 2] * (C[1, 0] * C[2, 1] - C[1, 1] * C[2, 0]))
            d = T.call('rdet', rdet, C)
            T.eq('determinant', det, d)
            T.eq('log determinant', T.call('e', jnp.exp, lad), T.call('abs', jnp.abs, det))


@harness(P, 'scalar_diag', about='a scalar initial diagonal acts like the corresponding multiple of the identity')
def _(T):
    ps, qs = T.real('ps', (2, 2)), T.real('qs', (2, 2))
    z, c = T.real('z', (2,)), T.real('c', pos=True)
    T.eq('product', T.call('a', utils.bfgs_sqrt_prod, ps, qs, z, c),
         T.call('b', lambda ps, qs, z, c: utils.bfgs_sqrt_prod(ps, qs, z, jnp.ones(2) * c), ps, qs, z, c))
    T.eq('transposed', T.call('c', utils.bfgs_sqrt_transpose_prod, ps, qs, z, c),
         T.call('d', lambda ps, qs, z, c: utils.bfgs_sqrt_transpose_prod(ps, qs, z, jnp.ones(2) * c), ps, qs, z, c))


def apply_B(us, ts, v, c):
    return utils.bfgs_sqrt_prod(us, ts, utils.bfgs_sqrt_transpose_prod(us, ts, v, c), c)


def apply_H(ps, qs, v, c):
    return utils.bfgs_sqrt_prod(ps, qs, utils.bfgs_sqrt_transpose_prod(ps, qs, v, 1 / c), 1 / c)


for M, D, tier in [(1, 1, 'quick'), (1, 2, 'quick'), (2, 1, 'quick'), (1, 3, 'quick'), (3, 1, 'quick')]:
    @harness(P, f'inverse_secant_m{M}_d{D}', tier=tier, cost=10 * M, about='the two factor pairs describe mutually inverse matrices '
             'and satisfy the secant equation of the last pair', timeout_ms=60000)
    def _(T, M=M, D=D):
        vals, grads = T.real('x', (M + 1, D)), T.real('g', (M + 1, D))
        z, c = T.real('z', (D,)), T.real('c', (D,), pos=True)

        def f(vals, grads, z, c):
            ps, qs, us, ts = utils.bfgs_sqrt_pqut(vals, grads, c, r=-jnp.inf)
            s, y = vals[-1] - vals[-2], grads[-1] - grads[-2]
            curv = jnp.sum((vals[1:] - vals[:-1]) * (grads[1:] - grads[:-1]), -1)
            return apply_H(ps, qs, apply_B(us, ts, z, c), c), apply_B(us, ts, s, c), y, jnp.min(curv), \
                jnp.sum(jnp.abs(ts), -1)
        # positive curvature, away from the guarded degenerate case
        cur = T.call('curv', lambda v, g: jnp.sum((v[1:] - v[:-1]) * (g[1:] - g[:-1]), -1), vals, grads)
        for i in range(M):
            T.assume(T.call('pos', lambda c, i=i: c[i] > 1e-3, cur))
        hb, bs, y, mc, tn = T.call('pqut', f, vals, grads, z, c)
        T.eq('H B z = z', hb, z)
        updated = T.call('upd', lambda t: t[-1] > 0, tn)
        T.eq('secant', *T.call('sec', lambda u, a, b: (jnp.where(u, a, 0.), jnp.where(u, b, 0.)), updated, bs, y))


@harness(P, 'posdef_shift', about='with a positive damping r every curvature used is at least r times the initial one', timeout_ms=40000)
def _(T):
    vals, grads = T.real('x', (2, 1)), T.real('g', (2, 1))
    z = T.real('z', (1,))
    s2 = T.call('s2', lambda v: (v[1, 0] - v[0, 0]) ** 2, vals)
    T.assume(T.call('apart', lambda s: s > 1e-2, s2))

    def f(vals, grads, z):
        ps, qs, us, ts = utils.bfgs_sqrt_pqut(vals, grads, 1., r=.5)
        c = jnp.ones(1)
        return apply_B(us, ts, z, c), apply_H(ps, qs, apply_B(us, ts, z, c), c), z
    b, hb, zz = T.call('pqut', f, vals, grads, z)

    def ref(v, g, z):
        slope = (g[1] - g[0]) / (v[1] - v[0])
        return jnp.where(slope < .5, .5, slope) * z
    T.eq('B', b, T.call('ref', ref, vals, grads, z))
    T.eq('H B z = z', hb, z)


for M, D in [(1, 2), (2, 1)]:
    @harness(P, f'masked_pairs_m{M}_d{D}', about='pairs marked as not usable leave the matrices at the initial diagonal')
    def _(T, M=M, D=D):
        vals, grads = T.real('x', (M + 1, D)), T.real('g', (M + 1, D))
        use = [T.boolean(f'use{i}') for i in range(M)]

        def f(vals, grads, *b):
            return utils.bfgs_sqrt_pqut(vals, grads, 1., r=-jnp.inf, update_bools=jnp.stack(b))
        ps, qs, us, ts = T.call('pqut', f, vals, grads, *use)
        for n, a in (('ps', ps), ('qs', qs), ('us', us), ('ts', ts)):
            for i in range(M):
                T.eq(f'{n}{i} masked', T.call('row0', lambda a, b: jnp.where(b, 0., a[i]), a, use[i]), jnp.zeros(D))


def hmul(ps, qs, ci):
    """dense inverse mass matrix from the factors."""
    C = jnp.diag(ci)
    for i in range(ps.shape[0]):
        C = C - jnp.outer(ps[i], qs[i] @ C)
    return C @ C.T


for L, tier in [(1, 'quick'), (2, 'quick'), (3, 'quick'), (5, 'quick')]:
    @harness(P, f'leapfrog_L{L}', tier=tier, about='preconditioned leapfrog: equals velocity Verlet with the inverse mass matrix; reversible')
    def _(T, L=L):
        D, M = 2, 2
        x, p, h, temp = T.real('x', (D,)), T.real('p', (D,)), T.real('h', pos=True), T.real('temp', lo=0)
        ps, qs, c = T.real('ps', (M, D)), T.real('qs', (M, D)), T.real('c', (D,), pos=True)

        def flow(x, p, h, temp, ps, qs, c):
            scen = uf_scenario(D, temp)
            a = bfgs_leapfrog(scen.prior_potential_and_grad, scen.likelihood_potential_and_grad, full_state(x, p, temp), h,
                              jnp.zeros((L, 2), dtype=jnp.uint32), ps, qs, c, temp)
            return a

        def f(x, p, h, temp, ps, qs, c):
            a = flow(x, p, h, temp, ps, qs, c)
            b = flow(a.value[-1], -a.momenta[-1], h, temp, ps, qs, c)
            return a[-1], b.value[-1], b.momenta[-1]
        a, v, m = T.call('there and back', f, x, p, h, temp, ps, qs, c)

        def ref(x, p, h, temp, ps, qs, c):
            H = hmul(ps, qs, c)
            for _ in range(L):
                p = p - h * tgrad(x, temp) / 2
                x = x + h * H @ p
                p = p - h * tgrad(x, temp) / 2
            return full_state(x, p, temp)
        if L < 3:
            r = T.call('ref', ref, x, p, h, temp, ps, qs, c)
            for n in CACHED + ('value', 'momenta'):
                T.eq(n, a[n], r[n])
        T.eq('back: value', v, x)
        T.eq('back: momenta', m, T.call('neg', lambda p: -p, p))


def stub_pqut(vals, grads, init_hessian_sqrt_diag=1., r=-jnp.inf, update_bools=1):
    n = (vals.shape[0] - 1, vals.shape[1])
    r = jnp.where(r == -jnp.inf, -1., r)
    b = jnp.ones(n[0]) * jnp.asarray(update_bools, dtype=float)
    return tuple(uf(f'pqut{i}', n)(vals, grads, init_hessian_sqrt_diag, r, b) for i in range(4))


class stubbed_pqut:
    """the factorisation itself (checked above) is replaced by an arbitrary function of its arguments."""
    def __enter__(self):
        import mocat.src.mcmc.qn_underdamped as q
        self.q, self.old = q, (q.bfgs_sqrt_pqut, utils.bfgs_sqrt_pqut)
        q.bfgs_sqrt_pqut = utils.bfgs_sqrt_pqut = stub_pqut

    def __exit__(self, *a):
        self.q.bfgs_sqrt_pqut, utils.bfgs_sqrt_pqut = self.old


def memory(m, D, T):
    names = dict(value=(m, D), prior_potential=(m,), grad_prior_potential=(m, D), likelihood_potential=(m,), grad_likelihood_potential=(m, D))
    return cdict(**{n: T.real('mem_' + n, s) for n, s in names.items()})


@harness(P, 'memory_fifo', about='the memory keeps the most recent m positions with their own potentials and gradients, oldest dropped')
def _(T):
    D, m = 2, 3
    mem = memory(m, D, T)
    x, gp, gl = T.real('x', (D,)), T.real('gp', (D,)), T.real('gl', (D,))
    pp, lp, temp = T.real('pp'), T.real('lp'), T.real('temp', lo=0)

    def f(mem, x, pp, gp, lp, gl, temp):
        with stubbed_pqut():
            s = QNUnderdamped(stepsize=.1, m=m, pos_def_r=.3)
            s.startup(uf_scenario(D, 1.), 5, cdict(value=jnp.zeros(D), memory=cdict()), cdict(random_key=jnp.zeros(2, dtype=jnp.uint32)))
            mm = mem.copy()
            mm.init_hessian_sqrt_diag = 1.7
            out = s.update_memory(mm, x, pp, gp, lp, gl, temp)
        return {n: out[n] for n in ('value', 'prior_potential', 'grad_prior_potential', 'likelihood_potential',
                                    'grad_likelihood_potential')}, (out.ps, out.qs, out.us, out.ts)
    o, fac = T.call('update', f, mem, x, pp, gp, lp, gl, temp)

    def ref(mem, x, gp, gl, temp):
        # the factors come from the tempered gradients of the remembered positions
        v = jnp.concatenate([mem.value[1:], x[None]])
        g = jnp.concatenate([mem.grad_prior_potential[1:] + temp * mem.grad_likelihood_potential[1:], (gp + temp * gl)[None]])
        return stub_pqut(v, g, 1.7, .3, jnp.ones(m - 1))
    T.eq('factors', fac, T.call('ref', ref, mem, x, gp, gl, temp))
    shift = lambda a, b: jnp.concatenate([a[1:], b[None]])
    for n, v in (('value', x), ('prior_potential', pp), ('grad_prior_potential', gp), ('likelihood_potential', lp),
                 ('grad_likelihood_potential', gl)):
        T.eq(n, o[n], T.call('shift', shift, mem[n], v))


for EMPTY in (0, 1, 2):
    for tag, TEMP in (('', None), ('_zero', 0.)):
        @harness(P, f'memory_sorted_{EMPTY}{tag}', about='ordered by potential, consecutive pairs of the remembered positions are used at any temperature, unfilled slots never')
        def _(T, EMPTY=EMPTY, TEMP=TEMP):
            D, m = 1, 3
            mem = memory(m, D, T)
            x, gp, gl = T.real('x', (D,)), T.real('gp', (D,)), T.real('gl', (D,))
            pp, lp = T.real('pp'), T.real('lp')
            temp = T.real('temp', pos=True) if TEMP is None else jnp.array(TEMP)

            def f(mem, x, pp, gp, lp, gl, temp):
                with stubbed_pqut():
                    s = QNUnderdamped(stepsize=.1, m=m, pos_def_r=.3, sort_bfgs=True)
                    s.startup(uf_scenario(D, 1.), 5, cdict(value=jnp.zeros(D), memory=cdict()), cdict(random_key=jnp.zeros(2, dtype=jnp.uint32)))
                    mm = mem.copy()
                    mm.init_hessian_sqrt_diag = 1.7
                    # the first slot is dropped by the update
                    e = jnp.arange(m) <= EMPTY
                    mm.prior_potential = jnp.where(e, -jnp.inf, mm.prior_potential)
                    mm.likelihood_potential = jnp.where(e, -jnp.inf, mm.likelihood_potential)
                    o = s.update_memory(mm, x, pp, gp, lp, gl, temp)
                return o.ps, o.qs, o.us, o.ts, o.value, o.prior_potential[EMPTY:]
            o = T.call('update', f, mem, x, pp, gp, lp, gl, temp)

            def ref(mem, x, pp, gp, lp, gl, temp):
                v = jnp.concatenate([mem.value[1:], x[None]])
                g = jnp.concatenate([mem.grad_prior_potential[1:] + temp * mem.grad_likelihood_potential[1:], (gp + temp * gl)[None]])
                pr = jnp.concatenate([mem.prior_potential[1:], pp[None]])
                U = pr + temp * jnp.concatenate([mem.likelihood_potential[1:], lp[None]])
                rank = [i if i < EMPTY else EMPTY + sum(jnp.where((U[j] < U[i]) if j > i else (U[j] <= U[i]), 1, 0) for j in range(EMPTY, m) if j != i) for i in range(m)]
                vs = jnp.stack([sum(jnp.where(rank[i] == r, v[i], 0.) for i in range(m)) for r in range(m)])
                gs = jnp.stack([sum(jnp.where(rank[i] == r, g[i], 0.) for i in range(m)) for r in range(m)])
                return (*stub_pqut(vs, gs, 1.7, .3, jnp.array([0. if i < EMPTY else 1. for i in range(m - 1)])), v, pr[EMPTY:])
            T.eq('factors', o, T.call('ref', ref, mem, x, pp, gp, lp, gl, temp))


def qn_state(T, D, M):
    x, p, temp = T.real('x', (D,)), T.real('p', (D,)), T.real('temp', lo=0)
    mem = cdict(ps=T.real('ps', (M, D)), qs=T.real('qs', (M, D)), us=T.real('us', (M, D)), ts=T.real('ts', (M, D)))
    return x, p, temp, mem


def qn_sampler(D, L, m, h, fr=1., mx=1e10):
    s = QNUnderdamped(stepsize=h, leapfrog_steps=L, m=m, friction=fr, max_val=mx)
    return s


for D, guard in [(2, False), (1, True)]:
    @harness(P, f'proposal_acceptance_d{D}', about='proposal uses the stored inverse factors; acceptance uses the matching kinetic energy; too large values are refused')
    def _(T, D=D, guard=guard):
        M, L = 1, 1
        x, p, temp, mem = qn_state(T, D, M)
        h, k = T.real('h', pos=True), T.key('k')
        c = T.real('c', (D,), pos=True)
        mx = T.real('max', pos=True) if guard else jnp.asarray(jnp.inf)

        def f(x, p, temp, mem, h, k, mx, c):
            scen = uf_scenario(D, temp)
            s = qn_sampler(D, L, M + 1, h, 1., mx)
            st = full_state(x, p, temp)
            st.memory = cdict(init_hessian_sqrt_diag=c, **mem.__dict__)
            e = lambda: cdict(random_key=k, iter=1, parameters=cdict(stepsize=h, friction=1., max_val=mx))
            a, ea = s.proposal(scen, st.copy(), e())
            al = s.acceptance_probability(scen, st, e(), a, e())
            return {n: a[n] for n in CACHED + ('value', 'momenta')}, al, ea.random_key
        a, al, nk = T.call('propose', f, x, p, temp, mem, h, k, mx, c)

        def ref(x, p, temp, mem, h, mx, c):
            H = hmul(mem.ps, mem.qs, 1 / c)
            q = p - h * tgrad(x, temp) / 2
            y = x + h * H @ q
            q = q - h * tgrad(y, temp) / 2
            lr = tpot(x, temp) + p @ H @ p / 2 - tpot(y, temp) - q @ H @ q / 2
            big = jnp.any(jnp.abs(y) > mx) | jnp.any(jnp.abs(q) > mx)
            al = jnp.where(big, 0., jnp.where(lr >= 0, 1., jnp.exp(lr)))
            return full_state(y, -q, temp), al
        r, ral = T.call('ref', ref, x, p, temp, mem, h, mx, c)
        for n in CACHED + ('value', 'momenta'):
            T.eq(n, a[n], r[n])
        T.eq('alpha', al, ral)


@harness(P, 'refresh', about='momenta are refreshed with noise shaped by the mass matrix built from the updated memory')
def _(T):
    D, m = 1, 2
    mem = memory(m, D, T)
    x, p, temp, h, fr, k = T.real('x', (D,)), T.real('p', (D,)), T.real('temp', lo=0), T.real('h', pos=True), T.real('fr', pos=True), T.key('k')
    c = T.real('c', (D,), pos=True)

    def f(mem, x, p, temp, h, fr, k, c):
        scen = uf_scenario(D, temp)
        s = qn_sampler(D, 1, m, h)
        s.startup(scen, 5, cdict(value=jnp.zeros(D)), cdict(random_key=jnp.zeros(2, dtype=jnp.uint32)))
        st = full_state(x, p, temp)
        st.memory = mem.copy()
        st.memory.init_hessian_sqrt_diag = c
        st, ex = s.always(scen, st, cdict(random_key=k, parameters=cdict(stepsize=h, friction=fr)))
        return st.momenta, st.memory.us, st.memory.ts, st.memory.value, st.memory.likelihood_potential, ex.random_key
    m2, us, ts, mv, ml, nk = T.call('always', f, mem, x, p, temp, h, fr, k, c)
    z, = T.draws()
    T.fresh('key', nk, [z])

    def ref(p, h, fr, us, ts, z, c):
        C = jnp.eye(D) - jnp.outer(us[0], ts[0])
        C = C @ jnp.diag(c)
        return -p * jnp.exp(-fr * h) + jnp.sqrt(1 - jnp.exp(-2 * fr * h)) * (C @ z)
    T.eq('momenta', m2, T.call('ref', ref, p, h, fr, us, ts, z.array, c))
    T.eq('memory value', mv, T.call('mv', lambda a, x: jnp.stack([a[1], x]), mem.value, x))
    T.eq('memory potential', ml, T.call('ml', lambda a, x: jnp.stack([a[1], uf('lik')(x)]), mem.likelihood_potential, x))


@harness(P, 'unvisited', about='memory slots that no position has filled are never used for a factor pair')
def _(T):
    D, m = 1, 3
    mem = memory(m, D, T)
    e0, e1 = T.boolean('empty0'), T.boolean('empty1')
    x, g = T.real('x', (D,)), T.real('g', (D,))
    pp = T.real('pp')

    def f(mem, e0, e1, x, g, pp):
        with stubbed_pqut():
            s = QNUnderdamped(stepsize=.1, m=m, pos_def_r=.3)
            s.startup(uf_scenario(D, 1.), 5, cdict(value=jnp.zeros(D), memory=cdict()), cdict(random_key=jnp.zeros(2, dtype=jnp.uint32)))
            mm = mem.copy()
            mm.init_hessian_sqrt_diag = 1.
            e = jnp.stack([jnp.array(True), e0, e1])
            mm.prior_potential = jnp.where(e, -jnp.inf, mm.prior_potential)
            o = s.update_memory(mm, x, pp, g, pp, g, 1.)
            return o.ps, o.us
    o = T.call('update', f, mem, e0, e1, x, g, pp)

    def ref(mem, e0, e1, x, g):
        v = jnp.concatenate([mem.value[1:], x[None]])
        gr = jnp.concatenate([mem.grad_prior_potential[1:] + mem.grad_likelihood_potential[1:], (g + g)[None]])
        r = stub_pqut(v, gr, 1., .3, jnp.array([jnp.where(e0, 0., 1.), jnp.where(e1, 0., 1.)]))
        return r[0], r[2]
    T.eq('factors', o, T.call('ref', ref, mem, e0, e1, x, g))


@harness(P, 'startup', about='a new run starts with an empty memory, zero momenta and consistent caches')
def _(T):
    x, temp, k = T.real('x', (2,)), T.real('temp', lo=0), T.key('k')

    def f(x, temp, k):
        s = QNUnderdamped(stepsize=.1, m=3)
        st, ex = s.startup(uf_scenario(2, temp), 5, cdict(value=x), cdict(random_key=k))
        return {n: st[n] for n in CACHED + ('value', 'momenta')}, st.memory.us, st.memory.ps, st.memory.prior_potential
    st, us, ps, pp = T.call('startup', f, x, temp, k)
    r = T.call('ref', lambda x, t: full_state(x, jnp.zeros(2), t), x, temp)
    for n in CACHED + ('momenta', 'value'):
        T.eq(n, st[n], r[n])
    T.eq('no pairs', us, jnp.zeros((2, 2)))
    T.eq('no pairs (inverse)', ps, jnp.zeros((2, 2)))
    T.eq('slots empty', pp, jnp.full(3, -jnp.inf))
