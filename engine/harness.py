"""Harness runner: one Python body per harness, executed
  * symbolically  - T.call traces the real code to a jaxpr and interprets it over symbolic values;
  * concretely    - T.call runs the real code (jax eager, jit disabled) on the values of a counterexample.
"""
import os
import math
import random
import time
import traceback
import hashlib
import numpy as np
import jax
import jax.numpy as jnp
from jax import tree_util as jtu
from . import term as t, ops, interp, prims, solve, concrete
from .term import leaf, num, Node, RatFn, PINF, NINF, NAN, Unsupported
from .interp import Sym, KeyT, KeyWord, to_sym, obj
from .solve import Ne, Engine

REGISTRY = {}


class Harness:
    def __init__(self, prop, name, body, tier, about, opts):
        self.prop, self.name, self.body, self.tier, self.about, self.opts = prop, name, body, tier, about, opts


def harness(prop, name, tier='quick', about='', **opts):
    def deco(f):
        REGISTRY.setdefault(prop, []).append(Harness(prop, name, f, tier, about or (f.__doc__ or '').strip(), opts))
        return f
    return deco


CONCRETE_ERRORS = (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError,
                   jax.errors.NonConcreteBooleanIndexError)


class CodeRaised(Exception):
    pass


class ReplayMiss(Exception):
    pass


def is_arr(x):
    return isinstance(x, (Sym, np.ndarray, jnp.ndarray, int, float, bool, np.generic))


def leaves_of(x):
    return jtu.tree_flatten(x, is_leaf=lambda v: isinstance(v, Sym))


def canon_leaf(x):
    return x if isinstance(x, Sym) else np.asarray(x)


# ----------------------------------------------------------------------------- symbolic
DRAW_CALLS = {}


class SymT:
    mode = 'sym'
    ctx = None

    def __init__(self, eng, opts):
        self.eng = eng
        self.opts = opts
        self.goals = []          # (label, Node, generic)
        self.calls = []          # (name, [Sym leaves])
        self.inputs = []         # (name, kind, Sym)
        self.ndraws = 0
        self.assumes = []

    # inputs
    def real(self, name, shape=(), lo=None, hi=None, pos=False, integer=False):
        out = obj(tuple(shape))
        for i in np.ndindex(*shape):
            a = t.Atom(f'{name}{list(i) if i else ""}', 'var', lo=(0. if pos and lo is None else lo), hi=hi,
                       pos=pos or (lo is not None and lo > 0), integer=integer)
            out[i] = leaf(t.ratom(a))
        s = Sym(out, np.dtype('int64') if integer else np.dtype(float))
        self.inputs.append((name, 'real', s))
        return s

    def boolean(self, name):
        out = obj(())
        out[()] = t.bool_var(name)
        s = Sym(out, np.dtype(bool))
        self.inputs.append((name, 'bool', s))
        return s

    def choice(self, name, n):
        """finitely valued integer 0..n-1."""
        v = num(n - 1)
        for k in range(n - 2, -1, -1):
            v = t.ite(t.bool_var(f'{name}=={k}'), num(k), v)
        out = obj(())
        out[()] = v
        s = Sym(out, np.dtype('int64'))
        self.inputs.append((name, 'choice', s))
        return s

    def xreal(self, name, shape=()):
        """extended real: finite, +inf, -inf or NaN."""
        r = self.real(name, shape)
        out = obj(tuple(shape))
        for i in np.ndindex(*shape):
            n = r.a[i]
            for nm, v in (('nan', NAN), ('pinf', PINF), ('ninf', NINF)):
                n = t.ite(t.bool_var(f'{name}{list(i)}:{nm}'), leaf(v), n)
            out[i] = n
        s = Sym(out, r.dtype)
        self.inputs[-1] = (name, 'xreal', s)
        return s

    def key(self, name='key'):
        k = KeyT('in', name)
        out = obj((2,))
        for i in (0, 1):
            out[i] = leaf(KeyWord(k, i))
        s = Sym(out, np.dtype('uint32'))
        self.inputs.append((name, 'key', s))
        return s

    def keys(self, name, n):
        out = obj((n, 2))
        for j in range(n):
            for i in (0, 1):
                out[j, i] = leaf(KeyWord(KeyT('in', f'{name}{j}'), i))
        s = Sym(out, np.dtype('uint32'))
        self.inputs.append((name, 'key', s))
        return s

    def uf_range(self, name, lo=None, hi=None):
        solve.UF_RANGE[name] = (lo, hi)

    # execution
    def call(self, name, fn, *args):
        flat, tree = leaves_of(args)
        avals = []
        for x in flat:
            x = canon_leaf(x)
            avals.append(jax.ShapeDtypeStruct(x.shape, x.dtype))
        out_tree = {}

        def flatfn(*xs):
            r = fn(*jtu.tree_unflatten(tree, xs))
            ls, tr = jtu.tree_flatten(r)
            out_tree['t'] = tr
            return [jnp.asarray(l) for l in ls]
        try:
            with profiled():
                cj = jax.make_jaxpr(flatfn)(*avals)
        except Exception as e:
            raise CodeRaised(f'{name}: {type(e).__name__}: {e}') from e
        outs = interp.eval_jaxpr(cj.jaxpr, cj.consts, [canon_leaf(x) for x in flat])
        outs = [interp.simplify(o) for o in outs]
        self.calls.append(((name, self.ctx), outs))
        return jtu.tree_unflatten(out_tree['t'], outs)

    def sliced(self, name, fn, args, ks, klen=None):
        """code that cuts an array at a data dependent length: one trace per possible length k, with the
        condition under which the real cut equals k.  yields (k, condition, result)."""
        for k in ks:
            self.ctx = None

            def g(*a, k=k):
                with forced_slices(k) as rec:
                    r = fn(*a)
                same = jnp.array(True)
                for x in rec:
                    same = same & (x == k)
                return same, r
            same, r = self.call(f'{name}[{k}]', g, *args)
            self.ctx = (name, k)
            yield k, same, r
        self.ctx = None

    def draws(self, kind=None, new=True):
        lo = self.ndraws if new else 0
        DRAW_CALLS.setdefault((self.ctx, new), []).append((lo, len(interp.CTX.draws)))
        ds = interp.CTX.draws[lo:]
        if new:
            self.ndraws = len(interp.CTX.draws)
        return [Draw(d['kind'], d['shape'], d['array'], d['extra'], d['key'], d['guard'] or leaf(True))
                for d in ds if kind is None or d['kind'] == kind]

    def fresh(self, label, keys, draws):
        """the given keys are unrelated (not equal, no ancestor, no descendant) to every key consumed by the draws."""
        k = to_sym(keys)
        ks = [interp.key_of_words(k.a[i + (0,)], k.a[i + (1,)]) for i in np.ndindex(*k.shape[:-1])]
        for j, kn in enumerate(ks):
            g = leaf(True)
            for d in draws:
                ok = t.apply(lambda a, b: leaf(not related(a, b)), kn, d.key)
                g = t.b_and(g, t.b_or(t.b_not(d.guard), ok))
            self.goals.append((f'{label}[{j}] fresh', g, True))

    def keys_distinct(self, label, keys):
        k = to_sym(keys)
        ks = [interp.key_of_words(k.a[i + (0,)], k.a[i + (1,)]) for i in np.ndindex(*k.shape[:-1])]
        for i in range(len(ks)):
            for j in range(i):
                self.goals.append((f'{label}[{j}],[{i}] distinct',
                                   t.apply(lambda a, b: leaf(not related(a, b)), ks[i], ks[j]), True))

    def independent(self, label, draws):
        """no two of the draws consume related keys (a key used twice would make them dependent)."""
        for i in range(len(draws)):
            g = leaf(True)
            for j in range(i):
                a, b = draws[i], draws[j]
                both = t.b_and(a.guard, b.guard)
                if both.v < 0 and both.leaf is False:
                    continue
                ok = t.apply(lambda x, y: leaf(not related(x, y)), a.key, b.key)
                g = t.b_and(g, t.b_or(t.b_not(both), ok))
            self.goals.append((f'{label}[{i}] independent of earlier draws', g, True))

    # obligations
    def assume(self, b):
        for n in np.ravel(to_sym(b).a):
            if n.v < 0 and n.leaf is True:
                continue
            self.eng.assumptions.append(n)
        self.eng.reset_samples()

    def check(self, label, b, generic=True):
        for i, n in np.ndenumerate(to_sym(b).a):
            self.goals.append((f'{label}{list(i) if i else ""}', n, generic))

    def eq(self, label, a, b, generic=True):
        fa, ta = leaves_of(a)
        fb, tb = leaves_of(b)
        if len(fa) != len(fb):
            self.goals.append((f'{label}: structure {ta} vs {tb}', leaf(False), generic))
            return
        for k, (x, y) in enumerate(zip(fa, fb)):
            x, y = to_sym(canon_leaf(x)), to_sym(canon_leaf(y))
            lab = label if len(fa) == 1 else f'{label}.{k}'
            if x.shape != y.shape:
                self.goals.append((f'{lab}: shape {x.shape} vs {y.shape}', leaf(False), generic))
                continue
            for i in np.ndindex(*x.shape):
                self.goals.append((f'{lab}{list(i) if i else ""}', eq_goal(x.a[i], y.a[i]), generic))

    def true(self, label, cond):
        """structural fact decided at trace time (Python bool)."""
        self.goals.append((label, leaf(bool(cond)), True))


class forced_slices:
    """while tracing, an abstract slice bound is replaced by the constant k (and recorded); an abstract
    array is always 'ready'."""
    def __init__(self, k):
        self.k = k
        self.rec = []

    def __enter__(self):
        from jax._src.numpy import lax_numpy
        self.mod, self.orig = lax_numpy, lax_numpy._rewriting_take
        self.bur = jax.core.Tracer.block_until_ready
        jax.core.Tracer.block_until_ready = lambda s: s
        if self.k is None:
            return self.rec

        def fix(e):
            if isinstance(e, slice) and any(isinstance(v, jax.core.Tracer) for v in (e.start, e.stop, e.step)):
                if isinstance(e.start, jax.core.Tracer) or isinstance(e.step, jax.core.Tracer):
                    raise Unsupported('abstract slice start')
                if not any(v is e.stop for v in self.rec):
                    self.rec.append(e.stop)
                return slice(e.start, self.k, e.step)
            return e

        def take(arr, idx, *a, **kw):
            idx = tuple(fix(e) for e in idx) if isinstance(idx, tuple) else fix(idx)
            return self.orig(arr, idx, *a, **kw)
        def as_int(x):
            if isinstance(x.aval, jax.core.ConcreteArray):
                return int(x.aval.val)
            if not any(v is x for v in self.rec):
                self.rec.append(x)
            return self.k
        self.ints = jax.core.Tracer.__int__, jax.core.Tracer.__index__
        jax.core.Tracer.__int__ = jax.core.Tracer.__index__ = as_int
        lax_numpy._rewriting_take = take
        return self.rec

    def __exit__(self, *a):
        self.mod._rewriting_take = self.orig
        if self.k is not None:
            jax.core.Tracer.__int__, jax.core.Tracer.__index__ = self.ints
        jax.core.Tracer.block_until_ready = self.bur


FUNCS = set()


class profiled:
    """records which functions of the code under test are executed while the encoding is built."""
    root = None

    def __enter__(self):
        import sys
        import mocat
        root = profiled.root = profiled.root or os.path.realpath(os.path.dirname(mocat.__file__))
        seen = self.seen = set()

        def prof(frame, event, arg):
            if event == 'call':
                seen.add(frame.f_code)
        sys.setprofile(prof)

    def __exit__(self, *a):
        import sys
        sys.setprofile(None)
        for c in self.seen:
            f = os.path.realpath(c.co_filename)
            if f.startswith(profiled.root):
                q = c.co_qualname
                if '<' not in q:
                    FUNCS.add(f'{f[len(profiled.root) - 5:]}:{q}')


class Draw:
    def __init__(self, kind, shape, array, extra, key, guard=None):
        self.kind, self.shape, self.array, self.extra, self.key, self.guard = kind, shape, array, extra, key, guard


def ancestors(k):
    out = []
    while isinstance(k, KeyT) and k.t[0] in ('split', 'fold'):
        k = k.t[1]
        out.append(k)
    return out


def related(a, b):
    """equal, one derived from the other, or derived from two splits of one key into different numbers of keys."""
    A, B = [a] + ancestors(a), [b] + ancestors(b)
    if a in B or b in A:
        return True
    for x, y in zip(A[::-1], B[::-1]):
        if x != y:
            return x.t[0] == y.t[0] == 'split' and x.t[1] == y.t[1] and int(np.prod(x.t[2])) != int(np.prod(y.t[2]))
    return False


def eq_goal(x, y):
    def f(a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return leaf(a == b)
        a, b = ops._num_leaf(a), ops._num_leaf(b)
        if isinstance(a, RatFn) and isinstance(b, RatFn):
            d = t.rsub(a, b)
            if d.is_const and not d.is_zero:
                if abs(d.const) <= abs(a.const if a.is_const else 1) * 1e-9:
                    return leaf(Ne(t.R0, a, a))
                return leaf(Ne(d, a, b))
            return leaf(Ne(d, a, b))
        if isinstance(a, (KeyWord, KeyT)) or isinstance(b, (KeyWord, KeyT)):
            return leaf(a == b)
        return leaf(a is b)
    if isinstance(x, interp.CNode) or isinstance(y, interp.CNode):
        x, y = interp.cplx(x), interp.cplx(y)
        return t.b_and(eq_goal(x.re, y.re), eq_goal(x.im, y.im))
    return t.apply(f, x, y)


# ----------------------------------------------------------------------------- concrete
def key_bytes(name, seed):
    h = hashlib.sha256(f'{name}/{seed}'.encode()).digest()
    return (int.from_bytes(h[:4], 'big'), int.from_bytes(h[4:8], 'big'))


class KeyMap:
    def __init__(self, seed):
        self.seed = seed
        self.cache = {}

    def real(self, k):
        if k in self.cache:
            return self.cache[k]
        kind = k.t[0]
        if kind == 'in':
            r = key_bytes(k.t[1], self.seed)
        elif kind == 'const':
            r = (k.t[1], k.t[2])
        elif kind == 'split':
            p = jnp.asarray(self.real(k.t[1]), dtype=jnp.uint32)
            ks = np.asarray(jax.random.split(p, k.t[2] if len(k.t[2]) > 1 else k.t[2][0]))
            for j in np.ndindex(*k.t[2]):
                self.cache[KeyT('split', k.t[1], k.t[2], j)] = tuple(int(v) for v in ks[j])
            r = self.cache[k]
        elif kind == 'fold':
            p = jnp.asarray(self.real(k.t[1]), dtype=jnp.uint32)
            try:
                d = int(float(k.t[2]))
            except ValueError:
                d = 0
            r = tuple(int(v) for v in np.asarray(jax.random.fold_in(p, d)))
        else:
            raise KeyError(kind)
        self.cache[k] = r
        return r


class RepT:
    mode = 'replay'
    ctx = None

    def __init__(self, env, opts, seed=0):
        self.env = env               # solve.Env
        self.opts = opts
        self.calls = []
        self.failed = []             # (label, detail)
        self.assume_failed = []
        self.evaluated = 0
        self.draw_count = {}
        self.misses = []
        self.inputs = []
        self.keymap = KeyMap(seed)
        self._byname = {}
        for a in t.ATOMS:
            if a.kind == 'var':
                self._byname[a.name] = a
        self.table = {}
        for a in list(t.ATOMS):
            if a.kind == 'draw' and a.extra:
                kind, key, shape, idx = a.extra
                kb = self.keymap.real(key)
                arr = self.table.setdefault((kind, kb, shape), {})
                arr.setdefault(idx, []).append(a)
        for k in interp.CTX.randint_keys.values():
            self.keymap.real(k)

    def _rng(self, kind, kb, shape, ex):
        d = self.table.get((kind, kb, shape))
        if kind == 'randint':
            return self._randint(kb, shape, ex)
        if d is None:
            self.misses.append((kind, kb, shape))
            return prims._real_draw(kind, kb, shape, ex)
        out = np.zeros(shape)
        for i in np.ndindex(*shape):
            cand = d.get(i, [])
            if not cand:
                self.misses.append((kind, kb, shape, i))
                out[i] = np.asarray(prims._real_draw(kind, kb, shape, ex))[i]
                continue
            a = cand[0]
            if len(cand) > 1:      # parameterised draws: choose the atom whose argument matches
                lam = float(np.asarray(ex[0])[i])
                a = min(cand, key=lambda c: abs(self.env.rat(c.args[0]) - lam))
            out[i] = self.env.atom(a.id)
        return out

    def _randint(self, kb, shape, ex):
        out = np.zeros(shape, np.int64)
        inv = {v: k for k, v in self.keymap.cache.items()}
        key = inv.get(kb)
        for i in np.ndindex(*shape):
            lo, hi = int(np.asarray(ex[0])[i]), int(np.asarray(ex[1])[i])
            label = f'randint<{key}>{list(shape)}{list(i)}'
            val = hi - 1
            for v in range(lo, hi - 1):
                ci = t._cond_key.get(('b', f'{label}=={v}'))
                if ci is not None and self.env.cond(ci):
                    val = v
                    break
            out[i] = val
        return out

    def _uf(self, name, args, out_shape):
        flat = np.concatenate([np.ravel(a) for a in args]) if args else np.zeros(0)
        out = np.zeros(out_shape)
        if not np.all(np.isfinite(flat)):
            return np.full(out_shape, np.nan)
        for i in np.ndindex(*out_shape):
            best, bd = None, None
            for a in t._fn_table.get((('uf', name, i), len(flat)), []):
                va = np.array([self.env.rat(x) for x in a.args])
                d = np.max(np.abs(va - flat) / (1 + np.abs(flat))) if len(flat) else 0.
                if not math.isnan(d) and (bd is None or d < bd):
                    best, bd = a, d
            if best is None or bd > 1e-6:
                self.misses.append(('uf', name, tuple(flat)))
                r = np.random.default_rng(abs(hash((name, i, tuple(np.round(flat, 5))))) % 2 ** 32)
                lo, hi = solve.UF_RANGE.get(name, (None, None))
                out[i] = r.uniform(lo, hi) if lo is not None and hi is not None else (
                    lo + abs(r.normal()) if lo is not None else r.normal())
                continue
            v = self.env.atom(best.id)
            for nm, sp in (('nan', float('nan')), ('inf', float('inf'))):
                ci = t._cond_key.get(('b', f'{nm}:{best.id}'))
                if ci is not None and self.env.cond(ci):
                    v = sp
                    break
            out[i] = v
        return out

    # inputs
    def real(self, name, shape=(), lo=None, hi=None, pos=False, integer=False):
        out = np.zeros(tuple(shape))
        for i in np.ndindex(*shape):
            out[i] = self.env.atom(self._byname[f'{name}{list(i) if i else ""}'].id)
        self.inputs.append((name, out.tolist()))
        return out.astype(np.int64) if integer else out

    def boolean(self, name):
        v = bool(self.env.cond(t._cond_key[('b', name)]))
        self.inputs.append((name, v))
        return np.asarray(v)

    def choice(self, name, n):
        for k in range(n - 1):
            if self.env.cond(t._cond_key[('b', f'{name}=={k}')]):
                self.inputs.append((name, k))
                return np.asarray(k)
        self.inputs.append((name, n - 1))
        return np.asarray(n - 1)

    def xreal(self, name, shape=()):
        out = np.array(self.real(name, shape), dtype=float)
        for i in np.ndindex(*shape):
            for nm, v in (('ninf', -np.inf), ('pinf', np.inf), ('nan', np.nan)):
                if self.env.cond(t._cond_key[('b', f'{name}{list(i)}:{nm}')]):
                    out[i] = v
                    break
        self.inputs[-1] = (name, out.tolist())
        return out

    def key(self, name='key'):
        kb = self.keymap.real(KeyT('in', name))
        self.inputs.append((name, kb))
        return jnp.asarray(kb, dtype=jnp.uint32)

    def keys(self, name, n):
        return jnp.asarray([self.keymap.real(KeyT('in', f'{name}{j}')) for j in range(n)], dtype=jnp.uint32)

    def uf_range(self, name, lo=None, hi=None):
        pass

    def call(self, name, fn, *args):
        flat, tree = leaves_of(args)
        flat = [jnp.asarray(x) for x in flat]
        prims.RNG_TABLE = self._rng
        prims.UF_TABLE = self._uf
        try:
            box = {}

            def flatfn(*xs):
                r = fn(*jtu.tree_unflatten(tree, xs))
                ls, box['tr'] = jtu.tree_flatten(r)
                return [jnp.asarray(l) for l in ls]
            try:
                cj = jax.make_jaxpr(flatfn)(*flat)
            except Exception as te:
                # not traceable as a whole: run it as ordinary code; an error that is not about needing concrete
                # values is raised by every (compiled) run of the code
                try:
                    with jax.disable_jit():
                        ls = flatfn(*flat)
                except Exception as e:
                    raise CodeRaised(f'{name}: {type(e).__name__}: {e}') from e
                if isinstance(te, (TypeError, ValueError)) and not isinstance(te, CONCRETE_ERRORS):
                    raise CodeRaised(f'{name}: {type(te).__name__}: {te}') from te
            else:
                ls = concrete.run(cj.jaxpr, cj.consts, flat)
            tr = box['tr']
        finally:
            prims.RNG_TABLE = None
            prims.UF_TABLE = None
        ls = [np.asarray(l) for l in ls]
        self.calls.append(((name, self.ctx), ls))
        return jtu.tree_unflatten(tr, ls)

    def sliced(self, name, fn, args, ks, klen=None):
        for k in ks:
            self.ctx = None

            def g(*a, k=k):
                with forced_slices(k) as rec:
                    r = fn(*a)
                same = jnp.array(True)
                for x in rec:
                    same = same & (x == k)
                return same, r
            same, r = self.call(f'{name}[{k}]', g, *args)
            if bool(same):
                self.ctx = (name, k)
                yield k, same, r
                self.ctx = None
                return
        self.failed.append((f'{name}: length', 'outside the expected range', 1.))

    def draws(self, kind=None, new=True):
        """the draws of the encoding, with the values they take here."""
        ctx = (self.ctx, new)
        k = self.draw_count[ctx] = self.draw_count.get(ctx, -1) + 1
        lo, hi = DRAW_CALLS[ctx][k]
        ds = interp.CTX.draws[lo:hi]
        out = []
        for d in ds:
            if kind is not None and d['kind'] != kind:
                continue
            kt = self.env.node(d['key'])
            arr = np.zeros(d['array'].shape)
            for i in np.ndindex(*arr.shape):
                arr[i] = float(self.env.num(d['array'].a[i]))
            if d['kind'] in ('randint', 'poisson'):
                arr = arr.astype(np.int64)
            real = self.keymap.real(kt)
            # the operands (rates, bounds) the real code passed with this key
            extra = next((e for kd, _, kb, _, e in reversed(prims.RNG_LOG) if kd == d['kind'] and kb == tuple(int(w) for w in real)), None) \
                if d['extra'] else d['extra']
            out.append(Draw(d['kind'], d['shape'], arr, extra if extra is not None else d['extra'], real, bool(self.env.node(d['guard']) is True) if d['guard'] is not None else True))
        return out

    def _terms(self, keys):
        inv = {v: k for k, v in self.keymap.cache.items()}
        return [inv.get(tuple(int(w) for w in kb)) for kb in keys]

    def fresh(self, label, keys, draws):
        ks = self._terms(np.asarray(keys).reshape(-1, 2))
        ds = self._terms([d.key for d in draws if d.guard])
        for j, k in enumerate(ks):
            self.evaluated += 1
            for d in ds:
                if k is not None and d is not None and related(k, d):
                    self.failed.append((f'{label}[{j}] fresh', f'key {k!r} related to consumed key {d!r}', 1.))
                    break

    def keys_distinct(self, label, keys):
        ks = self._terms(np.asarray(keys).reshape(-1, 2))
        for i in range(len(ks)):
            for j in range(i):
                self.evaluated += 1
                if ks[i] is not None and ks[j] is not None and related(ks[i], ks[j]):
                    self.failed.append((f'{label}[{j}],[{i}] distinct', f'{ks[i]!r} {ks[j]!r}', 1.))

    def independent(self, label, draws):
        ds = self._terms([d.key for d in draws if d.guard])
        for i in range(len(ds)):
            self.evaluated += 1
            for j in range(i):
                if ds[i] is not None and ds[j] is not None and related(ds[i], ds[j]):
                    self.failed.append((f'{label}[{i}] independent of earlier draws', f'{ds[i]!r} {ds[j]!r}', 1.))
                    break

    def assume(self, b):
        if not np.all(np.asarray(b)):
            self.assume_failed.append('assume')

    def check(self, label, b, generic=True):
        for i, v in np.ndenumerate(np.asarray(b)):
            self.evaluated += 1
            if not bool(v):
                self.failed.append((f'{label}{list(i) if i else ""}', 'false', 1.))

    def eq(self, label, a, b, generic=True):
        fa, ta = leaves_of(a)
        fb, tb = leaves_of(b)
        if len(fa) != len(fb):
            self.failed.append((f'{label}: structure', f'{ta} vs {tb}', 1.))
            return
        for k, (x, y) in enumerate(zip(fa, fb)):
            x, y = np.asarray(x), np.asarray(y)
            lab = label if len(fa) == 1 else f'{label}.{k}'
            self.evaluated += 1
            if x.shape != y.shape:
                self.failed.append((f'{lab}: shape', f'{x.shape} vs {y.shape}', 1.))
                continue
            for i in np.ndindex(*x.shape):
                u, v = x[i], y[i]
                self.evaluated += 1
                if u.dtype == bool or v.dtype == bool or np.issubdtype(u.dtype, np.unsignedinteger):
                    bad = 1. if bool(u != v) else 0.
                else:
                    u, v = complex(u) if np.iscomplexobj(u) else float(u), complex(v) if np.iscomplexobj(v) else float(v)
                    if u == v or (u != u and v != v):
                        bad = 0.
                    elif not (abs(u) < np.inf and abs(v) < np.inf):
                        bad = 1.
                    else:
                        d = abs(u - v)
                        bad = d if d > 1e-6 * (1e-3 + abs(u) + abs(v)) else 0.
                if bad:
                    self.failed.append((f'{lab}{list(i) if i else ""}', f'{u!r} != {v!r}', bad))

    def true(self, label, cond):
        self.evaluated += 1
        if not cond:
            self.failed.append((label, 'false', 1.))


# ----------------------------------------------------------------------------- one harness
def quiet(f):
    return f


def run_replay(h, env, seed):
    prims.RNG_LOG.clear()
    T = RepT(env, h.opts, seed)
    raised = None
    try:
        with np.errstate(all='ignore'):
            h.body(T)
    except CodeRaised as e:
        raised = str(e)
    return T, raised


def unreadable(e):
    """the body of a harness (not the code it calls) found an output without the field, entry or draw the property names."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    own = os.sep + 'checks' + os.sep in tb.tb_frame.f_code.co_filename
    txt = str(e)
    return own and ((isinstance(e, AttributeError) and "'cdict' object has no attribute" in txt) or (isinstance(e, ValueError) and 'values to unpack' in txt)
                    or isinstance(e, KeyError))


def compare_calls(symT, repT, env):
    """translator validation: encoding evaluated at env vs the real code run at the same values."""
    bad = []
    n = 0
    pend = {}
    for nm, souts in symT.calls:
        pend.setdefault(nm, []).append(souts)
    for nm, routs in repT.calls:
        souts = pend[nm].pop(0) if pend.get(nm) else []
        if len(souts) != len(routs):
            bad.append(f'{nm}: structure')
            continue
        for k, (s, r) in enumerate(zip(souts, routs)):
            s = to_sym(s)
            if np.issubdtype(r.dtype, np.unsignedinteger):
                for i in np.ndindex(*s.shape):
                    x = env.node(s.a[i])
                    if isinstance(x, KeyWord):
                        n += 1
                        if repT.keymap.real(x.key)[x.i] != int(r[i]):
                            bad.append(f'{nm}.{k}{list(i)} key')
                continue
            if s.shape != r.shape:
                bad.append(f'{nm}.{k} shape {s.shape} {r.shape}')
                continue
            for i in np.ndindex(*s.shape):
                x = s.a[i]
                n += 1
                if isinstance(x, interp.CNode):
                    v = complex(env.num(x.re), env.num(x.im))
                    w = complex(r[i])
                else:
                    v = env.num(x)
                    w = r[i]
                    if isinstance(v, bool) or w.dtype == bool:
                        if bool(v) != bool(w):
                            bad.append(f'{nm}.{k}{list(i)}: {v} vs {w}')
                        continue
                    v, w = float(v), float(w)
                if v == w or (v != v and w != w):
                    continue
                if abs(v - w) <= 1e-6 * (1 + abs(w)):
                    continue
                bad.append(f'{nm}.{k}{list(i)}: encoded {v!r} real {w!r}')
    return n, bad


def goal_holds(goal, env):
    """numeric evaluation of a goal diagram: (holds, size of the violation)."""
    x = env.node(goal)
    if x is None:
        return True, 0.
    if x is True:
        return True, 0.
    if isinstance(x, Ne):
        if x.diff.is_zero:
            return True, 0.
        d, mag = env.poly(x.diff.num)
        v = env.rat(x.diff)
        a, b = env.rat(x.a), env.rat(x.b)
        if math.isnan(v) or math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return True, 0.
        if abs(v) <= 1e-5 * (1e-3 + abs(a) + abs(b)):
            return True, 0.
        return False, abs(v) / (1e-3 + abs(a) + abs(b))
    return False, 1.


def run_harness(h, seed=1, tier='quick'):
    """returns a result dict."""
    t0 = time.time()
    t.reset()
    interp.CTX.__init__()
    solve.UF_RANGE.clear()
    prims.RNG_LOG.clear()
    FUNCS.clear()
    DRAW_CALLS.clear()
    ops.GENERIC_DIV = bool(h.opts.get('generic_div', False))
    eng = Engine(seed, timeout_ms=h.opts.get('timeout_ms', 20000))
    t.SIGN_ORACLE = eng.sign_oracle
    interp.CTX.unroll = h.opts.get('unroll', 12)
    interp.CTX.prune = eng.prune if h.opts.get('prune', False) else None
    interp.CTX.feasible = eng.feasible
    interp.CTX.hide = h.opts.get('hide')
    res = dict(prop=h.prop, name=h.name, about=h.about, status='ok', violations=[], inconclusive=[], goals=0, proved=0,
               validated=0, replays=0, samples=[])
    T = SymT(eng, h.opts)

    def finish():
        s = eng.stats
        res.update(wall=time.time() - t0, queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown, cvc5=s.cvc5,
                   solver_s=round(s.time, 3), paths=s.paths, eqns=interp.CTX.eqns, draws=len(interp.CTX.draws),
                   atoms=len(t.ATOMS), conds=len(t.CONDS), prims=len(interp.CTX.prims),
                   assumptions=len(eng.assumptions), sample_decided=s.sample_decided,
                   unwind_open=len(interp.CTX.unwind_open), functions=sorted(FUNCS))
        return res
    raised = None
    try:
        h.body(T)
    except CodeRaised as e:
        raised = str(e)
    except (AttributeError, ValueError, KeyError) as e:
        if not unreadable(e):
            raise
        raised = f'{type(e).__name__}: {e}'
        rs = random.Random(seed * 7919 + 13)
        for k in range(3):
            env = eng.good_env(rng_seed=rs.random())
            if env is None:
                break
            try:
                run_replay(h, env, seed)
            except type(e) as e2:
                if unreadable(e2):
                    res['violations'].append(dict(goal='the result lacks a field or draw it must have', detail=f'{type(e2).__name__}: {e2}', inputs=[], draws=_draws()))
                    return finish()
        res['inconclusive'].append(raised)
        return finish()
    rs = random.Random(seed * 7919 + 13)
    if raised is not None:
        # does the real code raise on a concrete input as well?
        for k in range(3):
            env = eng.good_env(rng_seed=rs.random())
            if env is None:
                break
            R, rr = run_replay(h, env, seed)
            res['replays'] += 1
            if rr is not None:
                res['violations'].append(dict(goal='the code raises', detail=rr, inputs=R.inputs, draws=_draws()))
                return finish()
        res['inconclusive'].append(f'tracing raised but concrete run did not: {raised}')
        return finish()

    for g in interp.CTX.unwind_open:
        if eng.feasible(g):
            if h.opts.get('unwind') == 'assume':
                eng.assumptions.append(t.b_not(g))
                eng.reset_samples()
            else:
                res['inconclusive'].append('loop unrolling bound reached')

    # translator validation + reachability witness (the assumptions are satisfiable and every goal is reached)
    nval = 2 if tier == 'quick' else 4
    witness = 0
    disagree = []
    for k in range(3 * nval):
        if witness >= nval + len(disagree):
            break
        env = eng.good_env(rng_seed=rs.random())
        if env is None:
            break
        try:
            R, rr = run_replay(h, env, seed)
        except KeyError as e:
            res['inconclusive'].append(f'replay error {e!r}')
            break
        if rr is not None:
            res['violations'].append(dict(goal='the code raises', detail=rr, inputs=R.inputs, draws=_draws()))
            return finish()
        if R.assume_failed:
            continue
        n, bad = compare_calls(T, R, env)
        witness += 1
        if bad and R.misses:
            # the real code drew/queried something the encoding did not: compare again below through goals only
            pass
        if bad:
            disagree.append('; '.join(bad[:4]))
        else:
            res['validated'] += n
        if k == 0:
            res['samples'].append(dict(inputs=R.inputs[:6], goals=R.evaluated))
        if R.failed:
            # a direct violation at the witness point; still goes through the solver below
            res.setdefault('witness_failed', []).extend(f'{a}: {b}' for a, b, _ in R.failed[:3])
    # single disagreements at ill-conditioned sample points are rounding, not a wrong encoding
    res['validation_disagreements'] = disagree[:2]
    if disagree and len(disagree) > (witness - 1) / 2:
        res['inconclusive'].append('encoding disagrees with the real code: ' + disagree[0])
    if witness == 0:
        res['inconclusive'].append('vacuous: no input satisfying the assumptions was found')
        return finish()

    deadline = t0 + h.opts.get('budget_s', 300 if tier == 'quick' else 1500)
    nfail = 0
    for label, goal, generic in T.goals:
        res['goals'] += 1
        if time.time() > deadline:
            res['inconclusive'].append(f'{label}: out of time')
            continue
        status, info = discharge(eng, goal, generic, deadline)
        if status == 'proved':
            res['proved'] += 1
            continue
        if status == 'unknown':
            # an undecided goal may still have a concrete counterexample
            pass
        nfail += 1
        if nfail > 6:
            res['inconclusive'].append(f'{label}: not decided (earlier goals failed)')
            continue
        v = find_replay(h, eng, T, label, goal, info if status == 'cex' else [], generic, seed, rs, res)
        if v is not None:
            res['violations'].append(v)
            break
        res['inconclusive'].append(f'{label}: solver says {status}, no concrete counterexample reproduced '
                                   f'({_short(goal)})')
    return finish()


def _short(goal):
    s = repr([x for x in t.leaves(goal) if x is not True][:1])
    return s[:300]


def _draws():
    return [(k, np.asarray(v).tolist()) for k, s, kb, v, e in prims.RNG_LOG[:20]]


def discharge(eng, goal, generic, deadline):
    """solver verdict for one goal diagram."""
    import z3
    st, info = 'proved', []
    # zero differences: one query for all leaves on which both sides normalise to the same function
    zeros = [x for x in t.leaves(goal) if isinstance(x, Ne) and x.diff.is_zero]
    if zeros:
        used = set()
        ds = []
        for x in zeros[:200]:
            if x.a == x.b:
                ds.append(z3.Not(eng.zrat(x.a, used) == eng.zrat(x.b, used)))
            else:
                ds.append(z3.Not(eng.zeq(x, used)))
        r, _ = eng.check([z3.Or(ds)], set(), with_assumptions=False)
        if r != 'unsat':
            return 'unknown', ['normalised equality not confirmed by the solver']
        goal = t.apply(lambda x: leaf(True) if isinstance(x, Ne) and x.diff.is_zero else leaf(x), goal)
        if goal.v < 0 and goal.leaf is True:
            eng.stats.paths += max(1, len(zeros))
            return 'proved', []
    return eng.refute(goal, generic, deadline=deadline)


def find_replay(h, eng, T, label, goal, cands, generic, seed, rs, res):
    envs = []
    rng = random.Random(seed + 101)
    for m, path, lf in cands:
        if m is None:
            continue
        envs.append(eng.env_from_model(m))
        for j in (1e-3, .03, .3):
            for _ in range(6):
                envs.append(eng.env_from_model(m, j, rng))
    scored = []
    for e in envs:
        try:
            if not eng.env_ok(e):
                continue
            ok, size = goal_holds(goal, e)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if not ok:
            scored.append((size, e))
    tries = 0
    while len(scored) < 6 and tries < 1500:
        tries += 1
        e = eng.new_env(rs.random())
        try:
            if not eng.env_ok(e):
                continue
            ok, size = goal_holds(goal, e)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if not ok:
            scored.append((size, e))
    scored.sort(key=lambda p: -p[0])
    for size, e in scored[:6]:
        R, raised = run_replay(h, e, seed)
        res['replays'] += 1
        if raised is not None:
            return dict(goal='the code raises', detail=raised, inputs=R.inputs, draws=_draws())
        if R.assume_failed:
            continue
        if R.failed:
            lab, det, _ = R.failed[0]
            return dict(goal=lab, detail=det, inputs=R.inputs, draws=_draws(), solver_goal=label)
    return None
