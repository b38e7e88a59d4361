"""Scalar operations on decision-diagram values (extended-real semantics)."""
import math
from fractions import Fraction
from . import term as t
from .term import (RatFn, PINF, NINF, NAN, leaf, num, apply, ite, Node, Unsupported,
                   radd, rsub, rmul, rdiv, rneg, rinv, sign_cond, zero_cond, known_pos, known_nonzero,
                   rat_signs, R0, R1, rconst)


def is_special(x):
    return x is PINF or x is NINF or x is NAN


def _num_leaf(x):
    if x is True:
        return R1
    if x is False:
        return R0
    return x


def L(x):
    return leaf(x)


def _add(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if a is NAN or b is NAN:
        return leaf(NAN)
    if is_special(a):
        if is_special(b) and a is not b:
            return leaf(NAN)
        return leaf(a)
    if is_special(b):
        return leaf(b)
    return leaf(radd(a, b))


def _neg(a):
    a = _num_leaf(a)
    if a is PINF:
        return leaf(NINF)
    if a is NINF:
        return leaf(PINF)
    if a is NAN:
        return leaf(NAN)
    return leaf(rneg(a))


def by_sign(r, pos, zero, neg):
    """case split on the sign of a rational function."""
    s = rat_signs(r)
    if s == {1}:
        return pos
    if s == {-1}:
        return neg
    if s == {0}:
        return zero
    if 1 not in s:
        return ite(sign_cond(r, -1), neg, zero)
    if -1 not in s:
        return ite(sign_cond(r, 1), pos, zero)
    if 0 not in s:
        return ite(sign_cond(r, 1), pos, neg)
    return ite(sign_cond(r, 1), pos, ite(sign_cond(r, -1), neg, zero))


def _mul(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if a is NAN or b is NAN:
        return leaf(NAN)
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return leaf(PINF if a is b else NINF)
        s, r = (a, b) if is_special(a) else (b, a)
        o = NINF if s is PINF else PINF
        return by_sign(r, leaf(s), leaf(NAN), leaf(o))
    return leaf(rmul(a, b))


def _div(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if a is NAN or b is NAN:
        return leaf(NAN)
    if is_special(b):
        return leaf(NAN) if is_special(a) else leaf(R0)
    if is_special(a):
        o = NINF if a is PINF else PINF
        return by_sign(b, leaf(a), leaf(a), leaf(o))
    if b.is_const and b.is_zero:
        return by_sign(a, leaf(PINF), leaf(NAN), leaf(NINF))
    q = leaf(rdiv(a, b))
    if known_nonzero(b):
        return q
    if GENERIC_DIV:
        return q
    z = by_sign(a, leaf(PINF), leaf(NAN), leaf(NINF))
    return by_sign(b, q, z, q)


GENERIC_DIV = False      # True: divisors are assumed nonzero (measure-zero exclusions)


def _exp(a):
    a = _num_leaf(a)
    if a is NAN or a is PINF:
        return leaf(a)
    if a is NINF:
        return leaf(R0)
    r = t.rexp(a)
    return leaf(PINF) if r is None else leaf(r)


def _log(a):
    a = _num_leaf(a)
    if a is NAN or a is PINF:
        return leaf(a)
    if a is NINF:
        return leaf(NAN)
    s = rat_signs(a)
    if s == {1}:
        return leaf(t.rlog(a))
    if 1 not in s:
        return by_sign(a, leaf(NAN), leaf(NINF), leaf(NAN))
    # log guarded by positivity; use a plain atom for the positive branch
    if a.den or len(a.num) > 1 or True:
        lg = leaf(t.fn_atom('log', (a,))) if not _log_single(a) else leaf(_log_single(a))
    return by_sign(a, lg, leaf(NINF), leaf(NAN))


def _log_single(a):
    return None


def _sqrt(a):
    a = _num_leaf(a)
    if a is NAN or a is PINF:
        return leaf(a)
    if a is NINF:
        return leaf(NAN)
    s = rat_signs(a)
    if -1 in s and 1 in s:
        v = _sqrt_nonneg(a)
        return by_sign(a, v, leaf(R0), leaf(NAN))
    if -1 in s:
        return by_sign(a, leaf(NAN), leaf(R0), leaf(NAN))
    return _sqrt_nonneg(a)


def _sqrt_nonneg(a):
    r = t.sqrt_pos(a)
    if isinstance(r, tuple):
        r = r[1]
        return by_sign(r, leaf(r), leaf(R0), leaf(rneg(r)))
    return leaf(r)


def ipow(n):
    def f(a):
        a = _num_leaf(a)
        if is_special(a):
            if a is NAN:
                return leaf(NAN if n != 0 else R1)
            if n == 0:
                return leaf(R1)
            if n < 0:
                return leaf(R0)
            return leaf(PINF if (n % 2 == 0 or a is PINF) else NINF)
        if n >= 0:
            return leaf(t.rpow_int(a, n))
        if known_nonzero(a) or GENERIC_DIV:
            return leaf(t.rpow_int(a, n))
        if a.is_zero:
            return leaf(PINF)
        q = leaf(t.rpow_int(a, n))
        return by_sign(a, q, leaf(PINF), q)
    return f


def _pow(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if is_special(a) or is_special(b):
        if isinstance(b, RatFn) and b.is_const and b.is_zero:
            return leaf(R1)
        if a is NAN or b is NAN:
            return leaf(NAN)
        if isinstance(a, RatFn) and a.is_const and b in (PINF, NINF):
            c = abs(a.const)
            if c == 1:
                return leaf(R1)
            big = (c > 1) == (b is PINF)
            return leaf(PINF) if big else leaf(R0)
        if a is PINF and isinstance(b, RatFn):
            return by_sign(b, leaf(PINF), leaf(R1), leaf(R0))
        raise Unsupported('pow of special values')
    if b.is_const:
        c = b.const
        if c.denominator == 1 and abs(c) <= 64:
            return ipow(int(c))(a)
        s = rat_signs(a)
        if a.is_const and a.const > 0:
            return leaf(rconst(float(a.const) ** float(c)))
        if c.denominator <= 64 and -1 not in s:
            if (c * 2).denominator == 1:
                r = _sqrt(a)
                return apply(ipow(int(c * 2)), r)
            r = t.rpow_frac(a, c) if s == {1} else None
            if r is not None:
                return leaf(r)
        if (c * 2).denominator == 1:
            return apply(ipow(int(c * 2)), _sqrt(a))
    # exp(b log a)
    pos = apply(_exp, apply(_mul, _log_pos(a), leaf(b)))
    if rat_signs(a) == {1}:
        return pos
    zero = by_sign(b, leaf(R0), leaf(R1), leaf(PINF))
    return by_sign(a, pos, zero, leaf(NAN))


def _log_pos(a):
    if rat_signs(a) == {1}:
        return leaf(t.rlog(a))
    return leaf(t.fn_atom('log', (a,)))


def _lt(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if a is NAN or b is NAN:
        return leaf(False)
    if a is PINF or b is NINF:
        return leaf(False)
    if a is NINF or b is PINF:
        return leaf(True)
    if a is b:
        return leaf(False)
    return sign_cond(rsub(b, a), 1)


def _eq(a, b):
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return leaf(a == b)
    a, b = _num_leaf(a), _num_leaf(b)
    if not isinstance(a, RatFn) and not is_special(a) or not isinstance(b, RatFn) and not is_special(b):
        return leaf(a == b)     # key words
    if a is NAN or b is NAN:
        return leaf(False)
    if is_special(a) or is_special(b):
        return leaf(a is b)
    if a is b:
        return leaf(True)
    return zero_cond(rsub(a, b))


def lt(a, b):
    return apply(_lt, a, b)


def gt(a, b):
    return apply(_lt, b, a)


def eq(a, b):
    return apply(_eq, a, b)


def ne(a, b):
    return t.b_not(eq(a, b))


def _le(a, b):
    a, b = _num_leaf(a), _num_leaf(b)
    if a is NAN or b is NAN:
        return leaf(False)
    return t.b_not(_lt(b, a))


def le(a, b):
    return apply(_le, a, b)


def ge(a, b):
    return apply(_le, b, a)


def add(a, b):
    return apply(_add, a, b)


def sub(a, b):
    return apply(lambda x, y: _add(x, _neg(y).leaf), a, b)


def mul(a, b):
    return apply(_mul, a, b)


def div(a, b):
    return apply(_div, a, b)


def neg(a):
    return apply(_neg, a)


def exp(a):
    return apply(_exp, a)


def log(a):
    return apply(_log, a)


def sqrt(a):
    return apply(_sqrt, a)


def power(a, b):
    return apply(_pow, a, b)


def isnan(a):
    return apply(lambda x: leaf(x is NAN), a)


def isfinite(a):
    return apply(lambda x: leaf(not is_special(x)), a)


def maximum(a, b):
    def f(x, y):
        x, y = _num_leaf(x), _num_leaf(y)
        if x is NAN or y is NAN:
            return leaf(NAN)
        return ite(_lt(x, y), leaf(y), leaf(x))
    return apply(f, a, b)


def minimum(a, b):
    def f(x, y):
        x, y = _num_leaf(x), _num_leaf(y)
        if x is NAN or y is NAN:
            return leaf(NAN)
        return ite(_lt(y, x), leaf(y), leaf(x))
    return apply(f, a, b)


def absolute(a):
    def f(x):
        x = _num_leaf(x)
        if is_special(x):
            return leaf(NAN if x is NAN else PINF)
        return by_sign(x, leaf(x), leaf(R0), leaf(rneg(x)))
    return apply(f, a)


def sign(a):
    def f(x):
        x = _num_leaf(x)
        if is_special(x):
            return leaf(NAN) if x is NAN else num(1 if x is PINF else -1)
        return by_sign(x, num(1), num(0), num(-1))
    return apply(f, a)


def const_of(x):
    """Fraction of a constant leaf, or None."""
    x = _num_leaf(x)
    if isinstance(x, RatFn) and x.is_const:
        return x.const
    return None


def const_op(f, name):
    """op defined only on constants (or integer-valued atoms for rounding ops)."""
    def g(*xs):
        cs = [const_of(x) for x in xs]
        if any(c is None for c in cs):
            if name in ('floor', 'ceil', 'round', 'trunc') and isinstance(xs[0], RatFn):
                r = xs[0]
                if not r.den and all(c.denominator == 1 for c in r.num.values()) and \
                        all(t.ATOMS[i].integer and isinstance(e, int) and e > 0 for m in r.num for i, e in m):
                    return leaf(r)
                return leaf(t.fn_atom(name, (r,), integer=True))
            if is_special(xs[0]) and len(xs) == 1:
                return leaf(xs[0])
            raise Unsupported(f'{name} on symbolic value')
        return num(f(*cs))
    return g


def floor(a):
    return apply(const_op(math.floor, 'floor'), a)


def ceil(a):
    return apply(const_op(math.ceil, 'ceil'), a)


def round_away(c):
    return int(math.floor(abs(c) + Fraction(1, 2))) * (1 if c >= 0 else -1)


def trunc(a):
    return apply(const_op(lambda c: int(c), 'trunc'), a)


def fn1(name, value=None, specials=None, **kw):
    """uninterpreted unary function with constant folding by `value`."""
    def f(x):
        x = _num_leaf(x)
        if is_special(x):
            if specials and x in specials:
                return num(specials[x])
            return leaf(NAN)
        if x.is_const and value is not None:
            return num(value(float(x.const)))
        return leaf(t.fn_atom(name, (x,), **kw))
    return lambda a: apply(f, a)


def odd_fn(name, value, even=False, **kw):
    """normalise f(-x) = -f(x) (or f(x) for even) by the sign of the leading coefficient."""
    def f(x):
        x = _num_leaf(x)
        if is_special(x):
            return leaf(NAN)
        if x.is_const:
            return num(value(float(x.const)))
        lc = x.num[t.poly_lead(x.num)]
        if lc < 0:
            r = t.fn_atom(name, (rneg(x),), **kw)
            return leaf(r if even else rneg(r))
        return leaf(t.fn_atom(name, (x,), **kw))
    return lambda a: apply(f, a)


sin = odd_fn('sin', math.sin, lo=-1., hi=1.)
cos = odd_fn('cos', math.cos, even=True, lo=-1., hi=1.)
erf = odd_fn('erf', math.erf, lo=-1., hi=1.)


def tan(a):
    return div(sin(a), cos(a))


def tanh(a):
    e2 = exp(mul(num(2), a))

    def f(x, e):
        x = _num_leaf(x)
        if x is PINF:
            return num(1)
        if x is NINF:
            return num(-1)
        return _div(rsub(e, R1), radd(e, R1))
    return apply(f, a, e2)


def logistic(a):
    def f(x):
        x = _num_leaf(x)
        if is_special(x):
            return leaf(NAN) if x is NAN else num(1 if x is PINF else 0)
        e = t.rexp(rneg(x))
        return leaf(rinv(radd(R1, e)))
    return apply(f, a)


def expm1(a):
    return sub(exp(a), num(1))


def log1p(a):
    return log(add(num(1), a))


def select(c, a_true, a_false):
    return ite(c, a_true, a_false)


def to_bool(a):
    def f(x):
        if isinstance(x, bool):
            return leaf(x)
        if is_special(x):
            return leaf(True)
        return t.b_not(zero_cond(x))
    return apply(f, a)


def from_bool(a):
    return apply(lambda x: num(1 if x is True else 0) if isinstance(x, bool) else leaf(x), a)


def lt_total(a, b):
    """total order with NaN last."""
    def f(x, y):
        if x is NAN:
            return leaf(False)
        if y is NAN:
            return leaf(True)
        return _lt(x, y)
    return apply(f, a, b)
