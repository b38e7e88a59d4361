"""Symbolic interpreter for jaxprs (JAX's intermediate representation of the real functions)."""
import math
import itertools
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax import core, lax
from . import term as t, ops
from .term import Node, leaf, num, ite, apply, Unsupported, RatFn, NAN, PINF, NINF
from .prims import rng_p, uf_p


class Sym:
    """array of symbolic scalars."""
    __slots__ = ('a', 'dtype')

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = dtype

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    def __repr__(self):
        return f'Sym({self.a.tolist()!r})'

    def __getitem__(self, i):
        r = self.a[i]
        if not isinstance(r, np.ndarray):
            b = np.empty((), object)
            b[()] = r
            r = b
        return Sym(r, self.dtype)


class KeyWord:
    __slots__ = ('key', 'i')

    def __init__(self, key, i):
        self.key, self.i = key, i

    def __eq__(self, o):
        return isinstance(o, KeyWord) and o.key == self.key and o.i == self.i

    def __hash__(self):
        return hash((self.key, self.i))

    def __repr__(self):
        return f'{self.key}[{self.i}]'


class KeyT:
    """term for a whole key: ('in', name) | ('const', a, b) | ('split', parent, shape, idx) | ('fold', parent, data)"""
    __slots__ = ('t', '_h')

    def __init__(self, *tt):
        self.t = tt
        self._h = hash(tt)

    def __eq__(self, o):
        return isinstance(o, KeyT) and o.t == self.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        k = self.t[0]
        if k == 'in':
            return str(self.t[1])
        if k == 'const':
            return f'key{self.t[1:]}'
        if k == 'split':
            return f'{self.t[1]}.{"".join(map(str, self.t[3]))}/{"x".join(map(str, self.t[2]))}'
        return f'fold({self.t[1]},{self.t[2]})'


class CNode:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


def obj(shape):
    return np.empty(shape, object)


def is_key_dtype(dt):
    try:
        return jax.dtypes.issubdtype(dt, jax.dtypes.prng_key)
    except Exception:
        return False


def to_sym(v, dtype=None):
    if isinstance(v, Sym):
        return v
    if hasattr(v, 'dtype') and is_key_dtype(v.dtype):
        data = np.asarray(jax.random.key_data(v))
        out = obj(data.shape[:-1])
        for i in np.ndindex(*out.shape):
            out[i] = leaf(KeyT('const', int(data[i][0]), int(data[i][1])))
        return Sym(out, v.dtype)
    v = np.asarray(v)
    out = obj(v.shape)
    if v.dtype == np.bool_:
        for i in np.ndindex(*v.shape):
            out[i] = leaf(bool(v[i]))
    elif np.issubdtype(v.dtype, np.complexfloating):
        for i in np.ndindex(*v.shape):
            out[i] = CNode(num(float(v[i].real)), num(float(v[i].imag)))
    elif np.issubdtype(v.dtype, np.integer):
        for i in np.ndindex(*v.shape):
            out[i] = num(int(v[i]))
    else:
        for i in np.ndindex(*v.shape):
            out[i] = num(float(v[i]))
    return Sym(out, v.dtype)


def as_const(n):
    """python constant of a leaf node or None"""
    if n.v >= 0:
        return None
    x = n.leaf
    if isinstance(x, bool):
        return x
    if isinstance(x, RatFn) and x.is_const:
        return x.const
    if x is PINF:
        return float('inf')
    if x is NINF:
        return float('-inf')
    if x is NAN:
        return float('nan')
    return None


def simplify(v):
    """Sym with only constant leaves -> concrete ndarray (ints, bools and exactly representable floats)."""
    if not isinstance(v, Sym):
        return v
    if v.dtype == np.bool_:
        vals = []
        for n in v.a.flat:
            if n.v >= 0 or not isinstance(n.leaf, bool):
                return v
            vals.append(n.leaf)
        return np.array(vals, bool).reshape(v.shape)
    if not is_key_dtype(v.dtype) and np.issubdtype(v.dtype, np.integer):
        vals = []
        for n in v.a.flat:
            if n.v >= 0 or not (isinstance(n.leaf, RatFn) and n.leaf.is_const):
                return v
            vals.append(int(n.leaf.const))
        return np.array(vals, dtype=v.dtype).reshape(v.shape)
    return v


def hidden(v):
    """replace large rational functions by symbols; two symbols are the same when their arguments are (equality only, nothing else is known of them)."""
    if not isinstance(v, Sym) or v.dtype == np.bool_ or is_key_dtype(v.dtype):
        return v

    def f(r):
        if isinstance(r, RatFn) and len(r.num) + sum(len(t._q_polys[q]) for q, _ in r.den) > CTX.hide:
            s = t.rat_signs(r)
            r = t.fn_atom('hide', (r,), pos=s <= {1}, lo=0. if s <= {0, 1} else None)
        return leaf(r)
    out = obj(v.shape)
    for i in np.ndindex(*v.shape):
        out[i] = v.a[i] if isinstance(v.a[i], CNode) or not isinstance(v.a[i], Node) else t.apply(f, v.a[i])
    return Sym(out, v.dtype)


class Ctx:
    def __init__(self):
        self.draws = []          # (kind, shape, Sym array, key node, guard)
        self.eqns = 0
        self.prims = {}
        self.unroll = 12
        self.unwind_open = []    # conditions left when the unrolling bound was reached
        self.prune = None        # callable(node) -> node
        self.hide = None         # results with more terms than this become symbols that are equal when the results are
        self.feasible = None     # callable(bool node) -> bool
        self.guard = None
        self.randint_keys = {}


CTX = Ctx()


# ------------------------------------------------------------ elementwise helpers
def elementwise(fn, *arrs):
    arrs = [to_sym(a).a for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [a if a.shape == shape else np.broadcast_to(a, shape) for a in arrs]
    out = obj(shape)
    for i in np.ndindex(*shape):
        out[i] = fn(*[a[i] for a in arrs])
    return out


def _prune(n):
    if CTX.prune is not None and n.v >= 0 and not isinstance(n, CNode):
        return CTX.prune(n)
    return n


def prune_arr(a):
    if CTX.prune is None:
        return a
    out = obj(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = _prune(a[i]) if isinstance(a[i], Node) else a[i]
    return out


def cplx(x):
    return x if isinstance(x, CNode) else CNode(x, num(0))


def c_lift(f_real, f_c):
    def g(*xs):
        if any(isinstance(x, CNode) for x in xs):
            return f_c(*[cplx(x) for x in xs])
        return f_real(*xs)
    return g


def n_add(x, y):
    return ops.add(x, y)


c_add = c_lift(ops.add, lambda x, y: CNode(ops.add(x.re, y.re), ops.add(x.im, y.im)))
c_sub = c_lift(ops.sub, lambda x, y: CNode(ops.sub(x.re, y.re), ops.sub(x.im, y.im)))
c_neg = c_lift(ops.neg, lambda x: CNode(ops.neg(x.re), ops.neg(x.im)))
c_mul = c_lift(ops.mul, lambda x, y: CNode(ops.sub(ops.mul(x.re, y.re), ops.mul(x.im, y.im)),
                                           ops.add(ops.mul(x.re, y.im), ops.mul(x.im, y.re))))


def _c_div(x, y):
    d = ops.add(ops.mul(y.re, y.re), ops.mul(y.im, y.im))
    n = c_mul(x, CNode(y.re, ops.neg(y.im)))
    return CNode(ops.div(n.re, d), ops.div(n.im, d))


c_div = c_lift(ops.div, _c_div)


def int_div(x, y):
    return apply(ops.const_op(lambda a, b: int(abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1), 'intdiv'), x, y)


def rem(x, y):
    def f(a, b):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    return apply(ops.const_op(f, 'rem'), x, y)


def bool_and(x, y):
    return t.b_and(x, y)


EW = {
    'add': c_add, 'add_any': c_add, 'sub': c_sub, 'mul': c_mul, 'neg': c_neg,
    'max': ops.maximum, 'min': ops.minimum, 'abs': ops.absolute, 'sign': ops.sign,
    'exp': ops.exp, 'log': ops.log, 'log1p': ops.log1p, 'expm1': ops.expm1, 'sqrt': ops.sqrt,
    'rsqrt': lambda x: ops.div(num(1), ops.sqrt(x)), 'cbrt': lambda x: ops.power(x, num(Fraction(1, 3))),
    'pow': ops.power, 'tanh': ops.tanh, 'logistic': ops.logistic, 'sin': ops.sin, 'cos': ops.cos, 'tan': ops.tan,
    'erf': ops.erf, 'floor': ops.floor, 'ceil': ops.ceil, 'is_finite': ops.isfinite,
    'stop_gradient': lambda x: x, 'copy': lambda x: x, 'copy_p': lambda x: x, 'reduce_precision': lambda x: x,
    'real': lambda x: cplx(x).re, 'imag': lambda x: cplx(x).im,
    'conj': lambda x: CNode(x.re, ops.neg(x.im)) if isinstance(x, CNode) else x,
    'square': lambda x: ops.mul(x, x), 'device_put': lambda x: x, 'optimization_barrier': lambda x: x,
    'atan2': None,
}
EW_CMP = {'eq': ops.eq, 'ne': ops.ne, 'lt': ops.lt, 'le': ops.le, 'gt': ops.gt, 'ge': ops.ge}
STRUCT = {'broadcast_in_dim', 'reshape', 'transpose', 'squeeze', 'expand_dims', 'rev', 'slice', 'broadcast',
          'concatenate'}


def binop_struct(prim, params, args):
    """structural primitives: run the real primitive on element ids and permute."""
    syms = [to_sym(a) for a in args]
    ids, flat, off = [], [], 0
    for s in syms:
        ids.append(jnp.asarray(np.arange(off, off + s.size).reshape(s.shape)))
        flat.extend(list(s.a.flat))
        off += s.size
    params = dict(params)
    res = np.asarray(prim.bind(*ids, **params))
    out = obj(res.shape)
    for i in np.ndindex(*res.shape):
        out[i] = flat[int(res[i])]
    return Sym(out, syms[0].dtype)


def guard_map(nodes):
    """{tuple of constants: Boolean node} for nodes with constant leaves."""
    out = {}

    def val(n):
        d = {}
        for lf in t.leaves(n):
            c = as_const(leaf(lf))
            if c is None:
                raise Unsupported('symbolic index is not finitely valued')
            d[c] = apply(lambda x, c=c: leaf(as_const(leaf(x)) == c), n)
        return d
    cur = {(): leaf(True)}
    for n in nodes:
        d = val(n)
        nxt = {}
        for k, g in cur.items():
            for c, h in d.items():
                gh = t.b_and(g, h)
                if gh.v < 0 and gh.leaf is False:
                    continue
                nxt[k + (c,)] = gh
        cur = nxt
    return cur


def select_by(gm, fn):
    """nested ite over guard map."""
    items = list(gm.items())
    res = None
    for k, g in reversed(items):
        v = fn(k)
        res = v if res is None else ite(g, v, res)
    return res


# ------------------------------------------------------------ RNG
def draw_atom(kind, key, shape, idx, extra):
    label = f'{kind}<{key}>{list(shape)}{list(idx)}'
    args = (kind, key, tuple(shape), tuple(idx))
    if kind == 'poisson':
        a = t.fn_atom(('poisson', args), (extra[0],), kind='draw', label=label, lo=0., integer=True)
    elif kind == 'randint':
        lo, hi = extra
        if not (lo.is_const and hi.is_const):
            raise Unsupported('randint with symbolic bounds')
        lo, hi = int(lo.const), int(hi.const)
        # finitely valued: a chain of free Booleans
        CTX.randint_keys[repr(key)] = key
        n = num(hi - 1)
        for v in range(hi - 2, lo - 1, -1):
            n = ite(t.bool_var(f'{label}=={v}'), num(v), n)
        return n
    elif kind == 'uniform':
        a = t.fn_atom(('draw', args), (), kind='draw', label=label, lo=0., hi=1., pos=True)
    elif kind == 'exponential':
        a = t.fn_atom(('draw', args), (), kind='draw', label=label, lo=0., pos=True)
    else:
        a = t.fn_atom(('draw', args), (), kind='draw', label=label)
    at = t.ATOMS[next(iter(a.num))[0][0]]
    at.extra = args
    return leaf(a)


def key_of_words(w0, w1):
    def f(a, b):
        if isinstance(a, KeyWord) and isinstance(b, KeyWord) and a.key == b.key and (a.i, b.i) == (0, 1):
            return leaf(a.key)
        ca, cb = ops.const_of(a), ops.const_of(b)
        if ca is not None and cb is not None:
            return leaf(KeyT('const', int(ca), int(cb)))
        raise Unsupported(f'cannot assemble key from {a!r},{b!r}')
    return apply(f, w0, w1)


def do_rng(args, kind, shape, nb):
    key = to_sym(args[0])
    extra = [to_sym(e) for e in args[1:]]
    bshape = key.shape[:nb]
    out = obj(bshape + tuple(shape))
    for b in np.ndindex(*bshape):
        kn = key_of_words(key.a[b + (0,)], key.a[b + (1,)])
        sub = obj(tuple(shape))
        for i in np.ndindex(*shape):
            ex = [e.a[b + i] for e in extra]
            sub[i] = apply(lambda k, *xs, i=i: draw_atom(kind, k, shape, i, xs), kn, *ex)
            out[b + i] = sub[i]
        CTX.draws.append(dict(kind=kind, shape=tuple(shape), array=Sym(sub, np.dtype(float)), key=kn, guard=CTX.guard,
                              extra=[Sym(e.a[b] if isinstance(e.a[b], np.ndarray) else _wrap(e.a[b]), e.dtype)
                                     for e in extra]))
    return Sym(out, np.dtype('int64') if kind in ('randint', 'poisson') else np.dtype(float))


def _wrap(x):
    o = obj(())
    o[()] = x
    return o


def do_uf(args, name, out_shape, nb, special):
    args = [to_sym(a) for a in args]
    bshape = args[0].shape[:nb]
    out = obj(bshape + tuple(out_shape))
    for b in np.ndindex(*bshape):
        nodes = []
        shapes = []
        for a in args:
            x = a.a[b]
            x = x if isinstance(x, np.ndarray) else _wrap(x)
            nodes.extend(x.flat)
            shapes.append(x.shape)
        for i in np.ndindex(*out_shape):
            def f(*ls, i=i):
                if any(ops.is_special(x) for x in ls):
                    return leaf(NAN)
                ls = tuple(ops._num_leaf(x) for x in ls)
                r = t.fn_atom(('uf', name, i), ls, kind='uf')
                at = t.ATOMS[next(iter(r.num))[0][0]]
                if at.extra is None:
                    at.extra = (name, i, tuple(shapes))
                    at.name = f'{name}{list(i) if i else ""}#{at.id}'
                n = leaf(r)
                if special:
                    nanb = t.bool_var(f'nan:{at.id}')
                    infb = t.bool_var(f'inf:{at.id}')
                    n = ite(nanb, leaf(NAN), ite(infb, leaf(PINF), n))
                return n
            out[b + i] = apply(f, *nodes) if nodes else f()
    return Sym(out, np.dtype(float))


# ------------------------------------------------------------ main interpreter
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return np.asarray(v.val) if not hasattr(v.val, 'dtype') or not is_key_dtype(v.val.dtype) else v.val
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        CTX.eqns += 1
        for v, o in zip(eqn.outvars, outs):
            if type(v) is core.DropVar:
                continue
            o = hidden(simplify(o)) if CTX.hide else simplify(o)
            shp = getattr(v.aval, 'shape', None)
            if shp is not None and tuple(o.shape) != tuple(shp):
                raise Unsupported(f'{eqn.primitive.name}: shape {o.shape} vs {shp}')
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def closed(cj, args):
    return eval_jaxpr(cj.jaxpr, cj.consts, args)


def conc(v):
    return v if hasattr(v, 'dtype') and is_key_dtype(v.dtype) else jnp.asarray(v)


def eval_eqn(eqn, ins):
    prim, params = eqn.primitive, eqn.params
    name = prim.name
    CTX.prims[name] = CTX.prims.get(name, 0) + 1
    H = HANDLERS.get(name)
    if H is not None and name in ALWAYS:
        return H(eqn, ins)
    if not any(isinstance(x, Sym) for x in ins):
        if name == 'random_wrap' or name == 'random_split' or name == 'random_unwrap':
            pass
        outs = prim.bind(*[conc(x) for x in ins], **params)
        outs = outs if prim.multiple_results else [outs]
        return [o if is_key_dtype(o.dtype) else np.asarray(o) for o in outs]
    dt = eqn.outvars[0].aval.dtype if hasattr(eqn.outvars[0].aval, 'dtype') else None
    if H is not None:
        return H(eqn, ins)
    f = EW.get(name)
    if f is not None:
        return [Sym(elementwise(f, *ins), dt)]
    f = EW_CMP.get(name)
    if f is not None:
        return [Sym(elementwise(f, *ins), np.dtype(bool))]
    if name in STRUCT:
        r = binop_struct(prim, params, ins)
        r.dtype = dt
        return [r]
    raise Unsupported(f'primitive {name}')


HANDLERS = {}
ALWAYS = set()


def handler(*names, always=False):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
            if always:
                ALWAYS.add(n)
        return f
    return deco


def odt(eqn, k=0):
    return eqn.outvars[k].aval.dtype


@handler('rng_draw', always=True)
def _(eqn, ins):
    p = eqn.params
    return [do_rng(ins, p['kind'], p['shape'], p['nb'])]


@handler('uf', always=True)
def _(eqn, ins):
    p = eqn.params
    return [do_uf(ins, p['name'], p['out_shape'], p['nb'], p['special'])]


@handler('pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'xla_call', 'custom_jvp_call', 'custom_vjp_call',
         'custom_vjp_call_jaxpr', 'core_closed_call', 'custom_lin', always=True)
def _(eqn, ins):
    p = eqn.params
    if (p.get('name') or '') == '_einsum':
        pass
    cj = p.get('jaxpr') or p.get('call_jaxpr') or p.get('fun_jaxpr')
    if hasattr(cj, 'consts'):
        return closed(cj, ins)
    return eval_jaxpr(cj, [], ins)


@handler('custom_linear_solve', always=True)
def _(eqn, ins):
    p = eqn.params
    cl, jx = p['const_lengths'], p['jaxprs']
    n1 = cl.matvec
    n2 = n1 + cl.vecmat
    n3 = n2 + cl.solve
    n4 = n3 + cl.transpose_solve
    return closed(jx.solve, list(ins[n2:n3]) + list(ins[n4:]))


@handler('cond', always=True)
def _(eqn, ins):
    branches = eqn.params['branches']
    idx, args = ins[0], ins[1:]
    if not isinstance(idx, Sym):
        i = int(np.clip(int(np.asarray(idx)), 0, len(branches) - 1))
        return closed(branches[i], args)
    gm = guard_map([_prune(idx.a[()])])
    gm2 = {}
    for (c,), g in gm.items():
        i = int(min(max(int(c), 0), len(branches) - 1))
        gm2[i] = t.b_or(gm2[i], g) if i in gm2 else g
    outs = None
    for i, g in gm2.items():
        if CTX.feasible is not None and not CTX.feasible(g):
            continue
        with guarded(g):
            r = closed(branches[i], args)
        outs = r if outs is None else [merge(g, x, y) for x, y in zip(r, outs)]
    return outs


class guarded:
    """condition under which the enclosed equations are really executed (recorded with random draws)."""
    def __init__(self, g):
        self.g = g

    def __enter__(self):
        self.old = CTX.guard
        CTX.guard = self.g if self.old is None else t.b_and(self.old, self.g)

    def __exit__(self, *a):
        CTX.guard = self.old


def merge(g, x, y):
    """elementwise ite(g, x, y) for arrays."""
    if x is y:
        return x
    if not isinstance(x, Sym) and not isinstance(y, Sym) and not is_key_dtype(x.dtype):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape == y.shape and np.array_equal(x, y):
            return x
    xs, ys = to_sym(x), to_sym(y)
    out = obj(xs.shape)
    for i in np.ndindex(*xs.shape):
        out[i] = _prune(ite(g, xs.a[i], ys.a[i]))
    return simplify(Sym(out, xs.dtype))


@handler('while', always=True)
def _(eqn, ins):
    p = eqn.params
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, state = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    live = None           # Boolean node: loop still running
    n = 0
    while True:
        c, = closed(p['cond_jaxpr'], list(cc) + state)
        c = simplify(c)
        if not isinstance(c, Sym):
            if not bool(np.all(np.asarray(c))):
                return state
            g = leaf(True)
        else:
            if c.a.shape != ():
                raise Unsupported('batched while predicate')
            g = _prune(c.a[()])
        if live is not None:
            g = t.b_and(live, g)
        g = _prune(g)
        if g.v < 0 and g.leaf is False:
            return state
        if g.v >= 0 and CTX.feasible is not None and not CTX.feasible(g):
            return state
        if g.v >= 0:
            if n >= CTX.unroll:
                CTX.unwind_open.append(g)
                return state
        n += 1
        if n > 2000:
            raise Unsupported('loop does not terminate within 2000 concrete iterations')
        with guarded(g):
            new = closed(p['body_jaxpr'], list(bc) + state)
        if g.v < 0:
            state = list(new)
        else:
            state = [merge(g, x, y) for x, y in zip(new, state)]
        live = None if g.v < 0 else g


@handler('scan', always=True)
def _(eqn, ins):
    p = eqn.params
    nc, ncar, length = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
    ys = [[None] * length for _ in range(len(eqn.outvars) - ncar)]
    order = range(length - 1, -1, -1) if p['reverse'] else range(length)
    for k in order:
        xk = [(x[k] if isinstance(x, Sym) or is_key_dtype(x.dtype) else np.asarray(x)[k]) for x in xs]
        out = closed(p['jaxpr'], list(consts) + carry + xk)
        carry = list(out[:ncar])
        for j, o in enumerate(out[ncar:]):
            ys[j][k] = o
    res = list(carry)
    for j, col in enumerate(ys):
        v = eqn.outvars[ncar + j].aval
        if length == 0:
            res.append(np.zeros(v.shape, v.dtype) if not is_key_dtype(v.dtype) else Sym(obj(v.shape), v.dtype))
        elif any(isinstance(c, Sym) for c in col) or is_key_dtype(v.dtype):
            o = obj(v.shape)
            for k, c in enumerate(col):
                o[k] = to_sym(c).a if to_sym(c).a.shape != () else to_sym(c).a[()]
            res.append(Sym(o, v.dtype))
        else:
            res.append(np.stack([np.asarray(c) for c in col]))
    return res


@handler('random_wrap')
def _(eqn, ins):
    k = to_sym(ins[0])
    out = obj(k.shape[:-1])
    for i in np.ndindex(*out.shape):
        out[i] = key_of_words(k.a[i + (0,)], k.a[i + (1,)])
    return [Sym(out, odt(eqn))]


@handler('random_unwrap')
def _(eqn, ins):
    k = to_sym(ins[0])
    out = obj(k.shape + (2,))
    for i in np.ndindex(*k.shape):
        for j in (0, 1):
            out[i + (j,)] = apply(lambda x, j=j: leaf(KeyWord(x, j)), k.a[i])
    return [Sym(out, odt(eqn))]


@handler('random_split')
def _(eqn, ins):
    k = to_sym(ins[0])
    shp = tuple(eqn.params.get('shape') or (eqn.params.get('count'),))
    out = obj(k.shape + shp)
    for i in np.ndindex(*k.shape):
        for j in np.ndindex(*shp):
            out[i + j] = apply(lambda x, j=j: leaf(KeyT('split', x, shp, j)), k.a[i])
    return [Sym(out, odt(eqn))]


@handler('random_fold_in')
def _(eqn, ins):
    k, d = to_sym(ins[0]), to_sym(ins[1])
    out = obj(k.shape)
    for i in np.ndindex(*k.shape):
        dd = d.a[i] if d.shape == k.shape else d.a[()]
        out[i] = apply(lambda x, y: leaf(KeyT('fold', x, str(y))), k.a[i], dd)
    return [Sym(out, odt(eqn))]


@handler('random_bits')
def _(eqn, ins):
    raise Unsupported('raw random bits')


@handler('div')
def _(eqn, ins):
    dt = odt(eqn)
    if np.issubdtype(dt, np.integer):
        return [Sym(elementwise(int_div, *ins), dt)]
    return [Sym(elementwise(c_div, *ins), dt)]


@handler('rem')
def _(eqn, ins):
    return [Sym(elementwise(rem, *ins), odt(eqn))]


@handler('integer_pow')
def _(eqn, ins):
    y = eqn.params['y']
    f = ops.ipow(int(y))
    return [Sym(elementwise(lambda x: apply(f, x), ins[0]), odt(eqn))]


@handler('round')
def _(eqn, ins):
    even = 'EVEN' in str(eqn.params.get('rounding_method', '')).upper()

    def f(c):
        return round(c) if even else ops.round_away(c)
    return [Sym(elementwise(lambda x: apply(ops.const_op(f, 'round'), x), ins[0]), odt(eqn))]


@handler('convert_element_type')
def _(eqn, ins):
    x = to_sym(ins[0])
    src, dst = x.dtype, np.dtype(eqn.params['new_dtype'])
    if dst == np.bool_:
        return [Sym(elementwise(ops.to_bool, x), dst)]
    if src == np.bool_:
        return [Sym(elementwise(ops.from_bool, x), dst)]
    if np.issubdtype(dst, np.integer) and np.issubdtype(src, np.floating):
        return [Sym(elementwise(ops.trunc, x), dst)]
    if np.issubdtype(dst, np.complexfloating):
        return [Sym(elementwise(cplx, x), dst)]
    if np.issubdtype(src, np.complexfloating):
        return [Sym(elementwise(lambda v: cplx(v).re, x), dst)]
    return [Sym(x.a, dst)]


@handler('complex')
def _(eqn, ins):
    return [Sym(elementwise(lambda a, b: CNode(a, b), *ins), odt(eqn))]


@handler('and')
def _(eqn, ins):
    if odt(eqn) != np.bool_:
        return [Sym(elementwise(lambda a, b: apply(ops.const_op(lambda x, y: int(x) & int(y), 'and'), a, b), *ins), odt(eqn))]
    return [Sym(elementwise(t.b_and, *ins), odt(eqn))]


@handler('or')
def _(eqn, ins):
    if odt(eqn) != np.bool_:
        return [Sym(elementwise(lambda a, b: apply(ops.const_op(lambda x, y: int(x) | int(y), 'or'), a, b), *ins), odt(eqn))]
    return [Sym(elementwise(t.b_or, *ins), odt(eqn))]


@handler('xor')
def _(eqn, ins):
    if odt(eqn) != np.bool_:
        return [Sym(elementwise(lambda a, b: apply(ops.const_op(lambda x, y: int(x) ^ int(y), 'xor'), a, b), *ins), odt(eqn))]
    return [Sym(elementwise(t.b_xor, *ins), odt(eqn))]


@handler('not')
def _(eqn, ins):
    if odt(eqn) != np.bool_:
        raise Unsupported('integer not')
    return [Sym(elementwise(t.b_not, *ins), odt(eqn))]


@handler('shift_right_arithmetic', 'shift_right_logical')
def _(eqn, ins):
    return [Sym(elementwise(lambda a, b: apply(ops.const_op(lambda x, y: int(x) >> int(y), 'shr'), a, b), *ins), odt(eqn))]


@handler('shift_left')
def _(eqn, ins):
    return [Sym(elementwise(lambda a, b: apply(ops.const_op(lambda x, y: int(x) << int(y), 'shl'), a, b), *ins), odt(eqn))]


@handler('select_n')
def _(eqn, ins):
    which, cases = ins[0], [to_sym(c) for c in ins[1:]]
    w = to_sym(which)
    out = obj(cases[0].shape)
    for i in np.ndindex(*out.shape):
        wi = w.a[i] if w.shape == out.shape else w.a[()]
        if w.dtype == np.bool_:
            f, tr = cases[0].a[i], cases[1].a[i]
            if isinstance(f, CNode) or isinstance(tr, CNode):
                f, tr = cplx(f), cplx(tr)
                out[i] = CNode(ite(wi, tr.re, f.re), ite(wi, tr.im, f.im))
            else:
                out[i] = ite(wi, tr, f)
        else:
            gm = guard_map([wi])
            out[i] = select_by(gm, lambda k: cases[int(k[0])].a[i])
        if isinstance(out[i], Node) and out[i].v >= 0:
            out[i] = _prune(out[i])
    return [Sym(out, odt(eqn))]


@handler('clamp')
def _(eqn, ins):
    lo, x, hi = ins
    return [Sym(elementwise(lambda l, v, h: ops.minimum(ops.maximum(v, l), h),
                            bcast(lo, x.shape), x, bcast(hi, x.shape)), odt(eqn))]


def bcast(v, shape):
    s = to_sym(v)
    if s.shape == tuple(shape):
        return s
    out = obj(shape)
    for i in np.ndindex(*shape):
        out[i] = s.a[()]
    return Sym(out, s.dtype)


@handler('iota')
def _(eqn, ins):
    raise Unsupported('iota')


def reduce_axes(x, axes, f, init=None):
    x = to_sym(x).a
    axes = tuple(axes)
    keep = [d for d in range(x.ndim) if d not in axes]
    out = obj(tuple(x.shape[d] for d in keep))
    xt = np.transpose(x, keep + list(axes)).reshape(out.shape + (-1,)) if x.size else obj(out.shape + (0,))
    for i in np.ndindex(*out.shape):
        acc = init
        for e in xt[i]:
            acc = e if acc is None else f(acc, e)
        out[i] = acc
    return out


@handler('reduce_sum')
def _(eqn, ins):
    return [Sym(reduce_axes(ins[0], eqn.params['axes'], lambda a, b: _big(c_add(a, b)), None if to_sym(ins[0]).size else num(0)), odt(eqn))]


def _big(n):
    if isinstance(n, Node) and n.v >= 0 and CTX.prune is not None and t.node_count(n) > 60:
        return CTX.prune(n)
    return n


@handler('reduce_prod')
def _(eqn, ins):
    return [Sym(reduce_axes(ins[0], eqn.params['axes'], c_mul, num(1)), odt(eqn))]


@handler('reduce_max')
def _(eqn, ins):
    return [Sym(prune_arr(reduce_axes(ins[0], eqn.params['axes'], ops.maximum)), odt(eqn))]


@handler('reduce_min')
def _(eqn, ins):
    return [Sym(prune_arr(reduce_axes(ins[0], eqn.params['axes'], ops.minimum)), odt(eqn))]


@handler('reduce_and')
def _(eqn, ins):
    return [Sym(reduce_axes(ins[0], eqn.params['axes'], t.b_and, leaf(True)), odt(eqn))]


@handler('reduce_or')
def _(eqn, ins):
    return [Sym(reduce_axes(ins[0], eqn.params['axes'], t.b_or, leaf(False)), odt(eqn))]


def _argm(eqn, ins, better):
    ax, = eqn.params['axes']
    x = to_sym(ins[0]).a
    x = np.moveaxis(x, ax, -1)
    out = obj(x.shape[:-1])
    for i in np.ndindex(*out.shape):
        best, idx = x[i + (0,)], num(0)
        for k in range(1, x.shape[-1]):
            e = x[i + (k,)]
            # NaN wins and keeps the first
            c = t.b_and(t.b_not(ops.isnan(best)), t.b_or(ops.isnan(e), better(e, best)))
            best = _prune(ite(c, e, best))
            idx = _prune(ite(c, num(k), idx))
        out[i] = idx
    return [Sym(out, odt(eqn))]


@handler('argmax')
def _(eqn, ins):
    return _argm(eqn, ins, ops.gt)


@handler('argmin')
def _(eqn, ins):
    return _argm(eqn, ins, ops.lt)


def _cum(f):
    def h(eqn, ins):
        ax, rev = eqn.params['axis'], eqn.params['reverse']
        x = np.moveaxis(to_sym(ins[0]).a, ax, -1)
        out = obj(x.shape)
        n = x.shape[-1]
        for i in np.ndindex(*x.shape[:-1]):
            acc = None
            for k in (range(n - 1, -1, -1) if rev else range(n)):
                acc = x[i + (k,)] if acc is None else f(acc, x[i + (k,)])
                out[i + (k,)] = acc
        return [Sym(np.moveaxis(out, -1, ax), odt(eqn))]
    return h


HANDLERS['cumsum'] = _cum(c_add)
HANDLERS['cumprod'] = _cum(c_mul)
HANDLERS['cummax'] = _cum(ops.maximum)
HANDLERS['cummin'] = _cum(ops.minimum)
HANDLERS['cumlogsumexp'] = _cum(lambda a, b: ops.log(ops.add(ops.exp(a), ops.exp(b))))


@handler('sort')
def _(eqn, ins):
    d, nk = eqn.params['dimension'], eqn.params['num_keys']
    arrs = [np.moveaxis(to_sym(x).a, d, -1) for x in ins]
    n = arrs[0].shape[-1]
    outs = [obj(a.shape) for a in arrs]
    for i in np.ndindex(*arrs[0].shape[:-1]):
        def less(a, b):        # lexicographic a < b on keys
            r = leaf(False)
            for k in reversed(range(nk)):
                x, y = arrs[k][i + (a,)], arrs[k][i + (b,)]
                r = t.b_or(ops.lt_total(x, y), t.b_and(t.b_not(ops.lt_total(y, x)), r))
            return r
        ranks = []
        for a in range(n):
            r = num(0)
            for b in range(n):
                if a == b:
                    continue
                before = less(b, a) if b > a else t.b_not(less(a, b))
                r = _prune(ite(before, ops.add(r, num(1)), r))
            ranks.append(r)
        for o, a in zip(outs, arrs):
            for k in range(n):
                v = a[i + (n - 1,)]
                for b in range(n - 2, -1, -1):
                    v = ite(apply(lambda x, k=k: leaf(x.const == k), ranks[b]), a[i + (b,)], v)
                o[i + (k,)] = _prune(v)
    return [Sym(np.moveaxis(o, -1, d), v.aval.dtype) for o, v in zip(outs, eqn.outvars)]


@handler('top_k')
def _(eqn, ins):
    raise Unsupported('top_k')


@handler('dot_general')
def _(eqn, ins):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    a, b = to_sym(ins[0]).a, to_sym(ins[1]).a
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    A = np.transpose(a, list(lb) + lf + list(lc))
    B = np.transpose(b, list(rb) + rf + list(rc))
    bs = A.shape[:len(lb)]
    ls = A.shape[len(lb):len(lb) + len(lf)]
    rs = B.shape[len(rb):len(rb) + len(rf)]
    cs = A.shape[len(lb) + len(lf):]
    A = A.reshape(bs + ls + (-1,))
    B = B.reshape(bs + rs + (-1,))
    K = int(np.prod(cs)) if cs else 1
    out = obj(bs + ls + rs)
    for i in np.ndindex(*bs):
        for j in np.ndindex(*ls):
            for k in np.ndindex(*rs):
                acc = num(0)
                for c in range(K):
                    acc = c_add(acc, c_mul(A[i + j + (c,)], B[i + k + (c,)]))
                out[i + j + k] = _big(acc)
    return [Sym(out, odt(eqn))]


@handler('cholesky')
def _(eqn, ins):
    x = to_sym(ins[0]).a
    n = x.shape[-1]
    out = obj(x.shape)
    for b in np.ndindex(*x.shape[:-2]):
        Lm = [[num(0)] * n for _ in range(n)]
        for j in range(n):
            s = x[b + (j, j)]
            for k in range(j):
                s = ops.sub(s, ops.mul(Lm[j][k], Lm[j][k]))
            Lm[j][j] = ops.sqrt(s)
            for i in range(j + 1, n):
                s = x[b + (i, j)]
                for k in range(j):
                    s = ops.sub(s, ops.mul(Lm[i][k], Lm[j][k]))
                Lm[i][j] = ops.div(s, Lm[j][j])
        for i in range(n):
            for j in range(n):
                out[b + (i, j)] = Lm[i][j]
    return [Sym(out, odt(eqn))]


def _matmul(A, B):
    n, m, k = A.shape[0], B.shape[1], A.shape[1]
    out = obj((n, m))
    for i in range(n):
        for j in range(m):
            acc = num(0)
            for c in range(k):
                acc = ops.add(acc, ops.mul(A[i, c], B[c, j]))
            out[i, j] = acc
    return out


@handler('triangular_solve')
def _(eqn, ins):
    p = eqn.params
    A, B = to_sym(ins[0]).a, to_sym(ins[1]).a
    out = obj(B.shape)
    for b in np.ndindex(*A.shape[:-2]):
        M, R = A[b], B[b]
        lower = p['lower']
        if p['transpose_a']:
            M, lower = M.T, not lower
        if not p['left_side']:          # X M = R  <=> M^T X^T = R^T
            M, lower, R = M.T, not lower, R.T
        n = M.shape[0]
        X = obj(R.shape)
        order = range(n) if lower else range(n - 1, -1, -1)
        for c in range(R.shape[1]):
            for i in order:
                s = R[i, c]
                for j in (range(i) if lower else range(i + 1, n)):
                    s = ops.sub(s, ops.mul(M[i, j], X[j, c]))
                X[i, c] = s if p['unit_diagonal'] else pivot_div(s, M[i, i])
        out[b] = X if p['left_side'] else X.T
    return [Sym(out, odt(eqn))]


def pivot_div(a, b):
    old = ops.GENERIC_DIV
    ops.GENERIC_DIV = True
    try:
        return ops.div(a, b)
    finally:
        ops.GENERIC_DIV = old


@handler('lu')
def _(eqn, ins):
    x = to_sym(ins[0]).a
    n, m = x.shape[-2:]
    LU = obj(x.shape)
    piv = np.zeros(x.shape[:-2] + (min(n, m),), np.int32)
    perm = np.zeros(x.shape[:-2] + (n,), np.int32)
    for b in np.ndindex(*x.shape[:-2]):
        M = [[x[b + (i, j)] for j in range(m)] for i in range(n)]
        pr = list(range(n))
        for k in range(min(n, m)):
            cand = None
            for i in range(k, n):
                e = M[i][k]
                c = as_const(e)
                if c is not None and c == 0:
                    continue
                if cand is None:
                    cand = i
                if e.v < 0 and isinstance(e.leaf, RatFn) and t.known_nonzero(e.leaf):
                    cand = i
                    break
            i = k if cand is None else cand
            piv[b + (k,)] = i
            M[k], M[i] = M[i], M[k]
            pr[k], pr[i] = pr[i], pr[k]
            for i in range(k + 1, n):
                f = pivot_div(M[i][k], M[k][k])
                M[i][k] = f
                for j in range(k + 1, m):
                    M[i][j] = ops.sub(M[i][j], ops.mul(f, M[k][j]))
        perm[b] = pr
        for i in range(n):
            for j in range(m):
                LU[b + (i, j)] = M[i][j]
    return [Sym(LU, odt(eqn)), piv, perm]


def _twiddle(c):
    """exact cosine for transforms of length 1, 2, 4, 8."""
    for v in (0, 1, -1):
        if abs(c - v) < 1e-15:
            return num(v)
    h = ops.sqrt(num(Fraction(1, 2)))
    if abs(abs(c) - math.sqrt(.5)) < 1e-15:
        return h if c > 0 else ops.neg(h)
    return num(c)


@handler('fft')
def _(eqn, ins):
    p = eqn.params
    kind = str(p['fft_type']).upper()
    lens = p['fft_lengths']
    if len(lens) != 1:
        raise Unsupported('multi-dimensional fft')
    x = to_sym(ins[0]).a
    N = lens[0]
    inv = 'IFFT' in kind or 'IRFFT' in kind
    if 'IRFFT' in kind:
        full = obj(x.shape[:-1] + (N,))
        for i in np.ndindex(*x.shape[:-1]):
            for k in range(N):
                if k < x.shape[-1]:
                    full[i + (k,)] = cplx(x[i + (k,)])
                else:
                    c = cplx(x[i + (N - k,)])
                    full[i + (k,)] = CNode(c.re, ops.neg(c.im))
        x = full
    sgn = 1 if inv else -1
    nout = N // 2 + 1 if ('RFFT' in kind and not inv) else N
    out = obj(x.shape[:-1] + (nout,))
    tw = []
    for k in range(N):
        ang = 2 * math.pi * k / N
        c, s = math.cos(ang), math.sin(ang)
        tw.append((_twiddle(c), _twiddle(s)))
    for i in np.ndindex(*x.shape[:-1]):
        for k in range(nout):
            acc = None
            for n in range(N):
                c, s = tw[(n * k) % N]
                term = c_mul(CNode(c, s if sgn > 0 else ops.neg(s)), cplx(x[i + (n,)]))
                acc = term if acc is None else c_add(acc, term)
            if inv:
                acc = c_mul(acc, CNode(num(Fraction(1, N)), num(0)))
            out[i + (k,)] = acc.re if 'IRFFT' in kind else acc
    return [Sym(out, odt(eqn))]


@handler('pad')
def _(eqn, ins):
    x, pv = to_sym(ins[0]), to_sym(ins[1])
    ids = jnp.asarray(np.arange(1, x.size + 1).reshape(x.shape))
    res = np.asarray(lax.pad(ids, jnp.asarray(0, ids.dtype), eqn.params['padding_config']))
    flat = list(x.a.flat)
    out = obj(res.shape)
    for i in np.ndindex(*res.shape):
        out[i] = pv.a[()] if res[i] == 0 else flat[int(res[i]) - 1]
    return [Sym(out, odt(eqn))]


def _index_nodes(v):
    return [_prune(n) for n in to_sym(v).a.flat]


@handler('dynamic_slice')
def _(eqn, ins):
    x, starts = to_sym(ins[0]), ins[1:]
    ss = eqn.params['slice_sizes']

    def at(k):
        st = [int(min(max(int(s), 0), d - z)) for s, d, z in zip(k, x.shape, ss)]
        return x.a[tuple(slice(s, s + z) for s, z in zip(st, ss))]
    gm = guard_map([to_sym(s).a[()] for s in starts])
    return [Sym(prune_arr(_sel_arr(gm, at)), odt(eqn))]


def _sel_arr(gm, fn):
    res = None
    for k, g in reversed(list(gm.items())):
        v = fn(k)
        if res is None:
            res = v.copy()
        else:
            o = obj(v.shape)
            for i in np.ndindex(*v.shape):
                o[i] = ite(g, v[i], res[i])
            res = o
    return res


@handler('dynamic_update_slice')
def _(eqn, ins):
    x, u, starts = to_sym(ins[0]), to_sym(ins[1]), ins[2:]

    def at(k):
        st = [int(min(max(int(s), 0), d - z)) for s, d, z in zip(k, x.shape, u.shape)]
        r = x.a.copy()
        r[tuple(slice(s, s + z) for s, z in zip(st, u.shape))] = u.a
        return r
    gm = guard_map([to_sym(s).a[()] for s in starts])
    return [Sym(prune_arr(_sel_arr(gm, at)), odt(eqn))]


@handler('gather')
def _(eqn, ins):
    p = eqn.params
    x, idx = to_sym(ins[0]), ins[1]
    dn, ss = p['dimension_numbers'], p['slice_sizes']
    mode = str(p.get('mode'))
    flat = list(x.a.flat)
    ids = jnp.asarray(np.arange(1, x.size + 1).reshape(x.shape))
    fill = p.get('fill_value')
    dt = odt(eqn)
    if fill is None:
        fillv = num(float('nan')) if np.issubdtype(dt, np.floating) else (
            leaf(True) if dt == np.bool_ else num(0))
        if np.issubdtype(dt, np.integer):
            fillv = num(int(np.iinfo(dt).min) if np.issubdtype(dt, np.signedinteger) else int(np.iinfo(dt).max))
    else:
        fillv = to_sym(np.asarray(fill, dt)).a[()]

    def run(ix):
        par = dict(p)
        par['fill_value'] = 0
        return np.asarray(eqn.primitive.bind(ids, jnp.asarray(ix), **par))

    def el(i):
        return fillv if i <= 0 or i > len(flat) else flat[i - 1]
    if not isinstance(idx, Sym):
        res = run(np.asarray(idx))
        out = obj(res.shape)
        for i in np.ndindex(*res.shape):
            out[i] = el(int(res[i]))
        return [Sym(out, dt)]
    bshape = idx.shape[:-1]
    K = idx.shape[-1]
    oshape = tuple(eqn.outvars[0].aval.shape)
    bdims = [d for d in range(len(oshape)) if d not in dn.offset_dims]
    out = obj(oshape)
    cache = {}

    def run_all(k):
        if k not in cache:
            a = np.zeros(idx.shape, np.int64)
            a[...] = np.array([int(c) for c in k]).reshape((1,) * len(bshape) + (K,))
            cache[k] = run(a)
        return cache[k]
    gms = {}
    for b in np.ndindex(*bshape):
        gms[b] = guard_map([_prune(n) for n in idx.a[b]])
    for o in np.ndindex(*oshape):
        b = tuple(o[d] for d in bdims)
        out[o] = _prune(select_by(gms[b], lambda k: el(int(run_all(k)[o]))))
    return [Sym(out, dt)]


def _scatter(combine):
    def h(eqn, ins):
        p = eqn.params
        dn = p['dimension_numbers']
        x, idx, upd = to_sym(ins[0]), ins[1], to_sym(ins[2])
        out = x.a.copy()
        isym = to_sym(idx)
        uwd = dn.update_window_dims
        ubd = [d for d in range(upd.ndim) if d not in uwd]
        wdims = [d for d in range(x.ndim) if d not in dn.inserted_window_dims]
        clip = 'CLIP' in str(p.get('mode')).upper()
        # window sizes in operand dims
        wsz = [1] * x.ndim
        for d, u in zip(wdims, uwd):
            wsz[d] = upd.shape[u]
        gms = {}
        for u in np.ndindex(*upd.shape):
            b = tuple(u[d] for d in ubd)
            if b not in gms:
                gms[b] = guard_map([_prune(n) for n in isym.a[b]])
            off = [0] * x.ndim
            for d, w in zip(wdims, uwd):
                off[d] = u[w]
            for k, g in gms[b].items():
                start = [0] * x.ndim
                for c, d in zip(k, dn.scatter_dims_to_operand_dims):
                    start[d] = int(c)
                if clip:
                    start = [min(max(s, 0), x.shape[d] - wsz[d]) for d, s in enumerate(start)]
                elif any(s < 0 or s + wsz[d] > x.shape[d] for d, s in enumerate(start)):
                    continue
                pos = tuple(s + o for s, o in zip(start, off))
                new = combine(out[pos], upd.a[u])
                out[pos] = new if isinstance(new, CNode) or isinstance(out[pos], CNode) else _prune(ite(g, new, out[pos]))
        return [Sym(out, odt(eqn))]
    return h


HANDLERS['scatter'] = _scatter(lambda o, u: u)
HANDLERS['scatter-add'] = HANDLERS['scatter_add'] = _scatter(c_add)
HANDLERS['scatter-mul'] = HANDLERS['scatter_mul'] = _scatter(c_mul)
HANDLERS['scatter-min'] = HANDLERS['scatter_min'] = _scatter(ops.minimum)
HANDLERS['scatter-max'] = HANDLERS['scatter_max'] = _scatter(ops.maximum)


@handler('lu_pivots_to_permutation')
def _(eqn, ins):
    raise Unsupported('symbolic lu pivots')


@handler('copysign', 'nextafter', 'erf_inv', 'lgamma', 'digamma', 'erfc', 'asin', 'acos', 'atan', 'sinh', 'cosh',
         'asinh', 'acosh', 'atanh')
def _(eqn, ins):
    nm = eqn.primitive.name
    if nm in ('copysign', 'nextafter'):
        raise Unsupported(nm)
    if nm == 'sinh':
        f = lambda x: ops.mul(num(Fraction(1, 2)), ops.sub(ops.exp(x), ops.exp(ops.neg(x))))
    elif nm == 'cosh':
        f = lambda x: ops.mul(num(Fraction(1, 2)), ops.add(ops.exp(x), ops.exp(ops.neg(x))))
    else:
        val = {'lgamma': math.lgamma, 'erfc': math.erfc, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
               'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh}.get(nm)
        f = ops.fn1(nm, val)
    return [Sym(elementwise(f, ins[0]), odt(eqn))]
