"""
Values held by modelled arrays, and NumPy's scalar semantics on them.

A cell is a plain Python bool/int/Fraction, a symbolic SymBool/SymInt/SymReal,
a float for NaN and infinities, or any other object for dtypes which are only
carried around (strings, dates, complex).

Floating point values are modelled as reals: no rounding, except that
narrowing casts are uninterpreted functions.
"""
from fractions import Fraction

import numpy as np

from . import term as T
from .engine import (Sym, SymBool, SymInt, SymReal, SymNum, Unsupported, mk,
                     mkbool, num_term, to_bool_term, ite)

_INF = float('inf')


def is_num(v):
    return isinstance(v, (bool, int, Fraction, Sym))


def from_py(v, dtype):
    """Cell for a Python/NumPy scalar `v` stored with `dtype`."""
    k = dtype.kind
    if isinstance(v, Sym):
        return cast(v, scalar_dtype(v), dtype)
    if k == 'b':
        return bool(v)
    if k in 'iu':
        if isinstance(v, (float, np.floating, Fraction)):
            v = int(v)
        return wrap_int(int(v), dtype)
    if k == 'f':
        if isinstance(v, Fraction):
            return v
        f = float(v)
        if f != f or f in (_INF, -_INF):
            return f
        if dtype.itemsize < 8:
            f = float(dtype.type(f))
            if f in (_INF, -_INF):
                return f
        return Fraction(f)
    if k == 'O':
        return v
    return np.array(v).astype(dtype)[()]


def scalar_dtype(v):
    if isinstance(v, SymBool):
        return np.dtype(bool)
    if isinstance(v, SymNum):
        return v.dtype
    if isinstance(v, Fraction):
        return np.dtype(float)
    return np.asarray(v).dtype


_ranges = {}


def int_range(dtype):
    r = _ranges.get(dtype)
    if r is None:
        i = np.iinfo(dtype)
        r = _ranges[dtype] = (int(i.min), int(i.max))
    return r


def wrap_int(v, dtype):
    """Two's complement wrap-around."""
    lo, hi = int_range(dtype)
    if isinstance(v, int):
        if lo <= v <= hi:
            return v
        return (v - lo) % (hi - lo + 1) + lo
    t = v.t
    a, b = T.bounds(t)
    if lo <= a and b <= hi:
        return v
    if dtype.itemsize == 8 and (a == -_INF or b == _INF):
        # Lengths and positions carry no explicit bound; they are memory
        # sizes and stay far below 2**63.
        return v
    m = hi - lo + 1
    if a >= lo - m and b <= hi + m:
        # One wrap at most: simpler for the solver than a modulo.
        return mk(T.ite(T.lt(t, T.iconst(lo)), T.add(t, T.iconst(m)),
                        T.ite(T.lt(T.iconst(hi), t), T.sub(t, T.iconst(m)),
                              t)))
    return mk(T.add(T.imod(T.sub(t, T.iconst(lo)), T.iconst(m)),
                    T.iconst(lo)))


def trunc(v):
    """Towards zero."""
    t = num_term(v)
    f = T.floor_int(t)
    lo, hi = T.bounds(t)
    if lo >= 0:
        return mk(f)
    return mk(T.ite(T.le(T.rconst(0), t), f,
                    T.neg(T.floor_int(T.neg(t)))))


# How narrowing to a smaller floating point type is modelled: an uninterpreted
# function ('round'), or exactly apart from the overflow of half precision
# ('range').
NARROW = ['round']


def in_range(v, dtype):
    """`v` or, beyond the largest half precision number, infinity."""
    if dtype.itemsize != 2 or nonfinite(v):
        return v
    if bool(v > 65504):
        return _INF
    if bool(v < -65504):
        return -_INF
    return v


_EXACT = {2: 2 ** 11, 4: 2 ** 24, 8: 2 ** 53, 16: 2 ** 63}


def cast(v, src, dst):
    if src == dst:
        return v
    sk, dk = src.kind, dst.kind
    if dk == 'O':
        return v
    if not isinstance(v, Sym):
        if isinstance(v, (float, str, bytes)) or not is_num(v) or \
                dk not in 'biuf':
            if isinstance(v, Fraction):
                v = float(v)
            return from_py(np.array(v).astype(src).astype(dst)[()], dst)
        if dk == 'b':
            return bool(v != 0)
        if dk in 'iu':
            return wrap_int(int(v), dst)
        return from_py(v if isinstance(v, int) or
                       _representable(v, dst) else float(v), dst)
    if dk == 'b':
        if sk == 'b':
            return v
        return v != 0
    if dk in 'iu':
        if isinstance(v, SymBool):
            return mk(num_term(v))
        if sk == 'f':
            v = trunc(v)
        return wrap_int(v, dst)
    if dk == 'f':
        t = num_term(v)
        lim = _EXACT[dst.itemsize]
        if sk in 'biu':
            lo, hi = T.bounds(t)
            if lo == -_INF or -lim <= lo and hi <= lim or dst.itemsize >= 8:
                return mk(T.to_real(t))
            if NARROW[0] == 'range':
                return in_range(mk(T.to_real(t)), dst)
            return mk(T.uf('round%d' % dst.itemsize, [T.to_real(t)]))
        if dst.itemsize < src.itemsize:
            if NARROW[0] == 'range':
                return in_range(v, dst)
            return mk(T.uf('round%d' % dst.itemsize, [t]))
        return v
    raise Unsupported('cast of a symbolic value to %s' % dst)


def _representable(v, dst):
    f = float(v)
    return Fraction(f) == v and (dst.itemsize >= 8 or
                                 float(dst.type(f)) == f)


def nonfinite(v):
    return isinstance(v, (float, np.floating)) and not isinstance(v, Fraction)


def truth(v):
    """The condition `v` is true, as a bool or SymBool."""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, SymBool):
        return v
    if isinstance(v, Sym):
        return v != 0
    return bool(v)


def b_not(v):
    v = truth(v)
    return (not v) if isinstance(v, bool) else ~v


def b_and(a, b):
    a, b = truth(a), truth(b)
    return mkbool(T.and_(to_bool_term(a), to_bool_term(b)))


def b_or(a, b):
    a, b = truth(a), truth(b)
    return mkbool(T.or_(to_bool_term(a), to_bool_term(b)))


def select(c, a, b):
    """a where c else b, on cells of equal dtype."""
    ct = to_bool_term(c)
    if ct is T.TRUE:
        return a
    if ct is T.FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(T.ite(ct, to_bool_term(a), to_bool_term(b)))
    if not is_num(a) or not is_num(b):
        if type(a) is type(b) and a == b:
            return a
        # NaN and strings cannot be merged: follow each case.
        return a if bool(mkbool(ct)) else b
    return ite(mkbool(ct), a, b)


# ------------------------------------------------------------------- ufuncs

def _ints(x):
    return isinstance(x, (bool, int, SymInt, SymBool))


def _arith(f):
    def g(dt, a, b):
        if dt.kind == 'b':
            raise Unsupported('boolean arithmetic')
        r = f(_n(a), _n(b))
        if dt.kind in 'iu':
            r = wrap_int(r, dt)
        elif dt.itemsize == 2 and NARROW[0] == 'range':
            r = in_range(r, dt)
        return r
    return g


def _n(v):
    if isinstance(v, SymBool):
        return mk(num_term(v))
    if isinstance(v, bool):
        return int(v)
    return v


def _add(dt, a, b):
    if dt.kind == 'b':
        return b_or(a, b)
    return _arith(lambda x, y: x + y)(dt, a, b)


def _mul(dt, a, b):
    if dt.kind == 'b':
        return b_and(a, b)
    return _arith(lambda x, y: x * y)(dt, a, b)


_sub = _arith(lambda x, y: x - y)


def _truediv(dt, a, b):
    ta, tb = num_term(a), num_term(b)
    if tb.const is not None and tb.const == 0:
        if ta.const is not None:
            if ta.const == 0:
                return float('nan')
            return _INF if ta.const > 0 else -_INF
        return mk(T.uf('div0', [T.to_real(ta)]))
    return mk(T.rdiv(ta, tb))


def _floordiv(dt, a, b):
    a, b = _n(a), _n(b)
    if dt.kind in 'iu' and _ints(a) and _ints(b):
        tb = num_term(b)
        if tb.const is not None:
            if tb.const == 0:
                return 0
            return wrap_int(mk(T.idiv(num_term(a), tb)), dt)
        ta = num_term(a)
        neg = T.idiv(T.neg(ta), T.neg(tb))
        return wrap_int(mk(T.ite(T.eq0(tb), T.iconst(0),
                                 T.ite(T.lt0(tb), neg, T.idiv(ta, tb)))), dt)
    return mk(T.uf('floor_divide', [T.to_real(num_term(a)),
                                    T.to_real(num_term(b))]))


def _neg(dt, a):
    r = -_n(a)
    return wrap_int(r, dt) if dt.kind in 'iu' else r


def _abs(dt, a):
    a = _n(a)
    r = abs(a)
    return wrap_int(r, dt) if dt.kind in 'iu' else r


def _cmp(f):
    def g(dt, a, b):
        return f(_n(a), _n(b))
    return g


def _eq(dt, a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return mkbool(T.eq(to_bool_term(a), to_bool_term(b)))
    return _n(a) == _n(b)


def _ne(dt, a, b):
    return b_not(_eq(dt, a, b))


def _max(dt, a, b):
    if dt.kind == 'b':
        return b_or(a, b)
    return select(_n(a) >= _n(b), a, b)


def _min(dt, a, b):
    if dt.kind == 'b':
        return b_and(a, b)
    return select(_n(a) <= _n(b), a, b)


def _sign(dt, a):
    return ite(a > 0, 1, ite(a < 0, -1, 0)) if dt.kind != 'f' else \
        ite(a > 0, Fraction(1), ite(a < 0, Fraction(-1), Fraction(0)))


def _floor(dt, a):
    if dt.kind != 'f':
        return a
    return mk(T.to_real(T.floor_int(num_term(a))))


def _ceil(dt, a):
    if dt.kind != 'f':
        return a
    return mk(T.neg(T.to_real(T.floor_int(T.neg(num_term(a))))))


def _truncf(dt, a):
    if dt.kind != 'f':
        return a
    return mk(T.to_real(num_term(trunc(a))))


def _invert(dt, a):
    if dt.kind == 'b':
        return b_not(a)
    return wrap_int(-_n(a) - 1, dt)


def _sqrt(dt, a):
    t = T.to_real(num_term(a))
    if t.const is not None:
        import math
        if t.const < 0:
            return float('nan')
        r = T.sqrt(t)
        if r.const is None:
            return Fraction(math.sqrt(t.const))
        return mk(r)
    return mk(T.sqrt(t))


def _square(dt, a):
    return _mul(dt, a, a)


def _recip(dt, a):
    if dt.kind == 'f':
        return _truediv(dt, Fraction(1), a)
    a = _n(a)
    # 1 / a towards zero: only 1 and -1 have a non-zero reciprocal (and
    # that of 0 is undefined).
    t = num_term(a)
    u = T.uf('recip0' + dt.name, [t], 'I', *int_range(dt))
    return mk(T.ite(T.eq0(t), u, T.ite(
        T.or_(T.eq(t, T.iconst(1)), T.eq(t, T.iconst(-1))), t,
        T.iconst(0))))


def _xor(dt, a, b):
    a, b = truth(a), truth(b)
    return mkbool(T.not_(T.eq(to_bool_term(a), to_bool_term(b))))


EXACT = {
    'add': _add, 'subtract': _sub, 'multiply': _mul,
    'true_divide': _truediv, 'divide': _truediv, 'floor_divide': _floordiv,
    'negative': _neg, 'positive': lambda dt, a: a,
    'absolute': _abs, 'fabs': _abs,
    'greater': _cmp(lambda a, b: a > b),
    'greater_equal': _cmp(lambda a, b: a >= b),
    'less': _cmp(lambda a, b: a < b),
    'less_equal': _cmp(lambda a, b: a <= b),
    'equal': _eq, 'not_equal': _ne,
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'sign': _sign, 'floor': _floor, 'ceil': _ceil, 'trunc': _truncf,
    'invert': _invert, 'sqrt': _sqrt, 'square': _square,
    'reciprocal': _recip,
    'logical_and': lambda dt, a, b: b_and(a, b),
    'logical_or': lambda dt, a, b: b_or(a, b),
    'logical_xor': _xor,
    'logical_not': lambda dt, a: b_not(a),
    'isfinite': lambda dt, a: True, 'isnan': lambda dt, a: False,
    'isinf': lambda dt, a: False,
    'conjugate': lambda dt, a: a,
}

_BOOL_ONLY = {'bitwise_and': lambda dt, a, b: b_and(a, b),
              'bitwise_or': lambda dt, a, b: b_or(a, b),
              'bitwise_xor': _xor}


_loops = {}


def ufunc_loop(ufunc, in_dtypes):
    """NumPy's own choice of inner loop for array operands of these types."""
    key = (ufunc, tuple(in_dtypes))
    r = _loops.get(key)
    if r is None:
        n = ufunc.nin
        for t in ufunc.types:
            ins, outs = t.split('->')
            if 'O' in t or len(ins) != n:
                continue
            if all(np.can_cast(d, np.dtype(c), 'safe')
                   for d, c in zip(in_dtypes, ins)):
                r = tuple(np.dtype(c) for c in ins + outs)
                break
        else:
            raise Unsupported('no loop of %s for %s' % (ufunc.__name__,
                                                        in_dtypes))
        _loops[key] = r
    return r


def apply_ufunc(name, ufunc, out_dtype, in_dtypes, args):
    """One element of a ufunc; `args` are cells of `in_dtypes`."""
    if not any(isinstance(a, Sym) for a in args):
        if all(is_num(a) for a in args) and name in EXACT and \
                name not in ('true_divide', 'divide', 'sqrt', 'reciprocal'):
            if not any(isinstance(a, bool) for a in args):
                return EXACT[name](out_dtype, *args)
        if all(isinstance(a, Fraction) or isinstance(a, int)
               for a in args) and name in ('true_divide', 'divide',
                                           'sqrt', 'square'):
            return EXACT[name](out_dtype, *args)
        real = [d.type(float(a) if isinstance(a, Fraction) else a)
                for a, d in zip(args, in_dtypes)]
        with np.errstate(all='ignore'):
            return from_py(ufunc(*real), out_dtype)
    if any(nonfinite(a) for a in args):
        if name in ('fmax', 'fmin') and any(a != a for a in args
                                            if nonfinite(a)):
            # These two pass over NaN.
            rest = [a for a in args if not (nonfinite(a) and a != a)]
            return rest[0] if rest else args[0]
        if name in ('add', 'subtract') or any(a != a for a in args
                                              if nonfinite(a)):
            if name in ('equal', 'greater', 'less', 'greater_equal',
                        'less_equal'):
                return False
            if name == 'not_equal':
                return True
            return [a for a in args if nonfinite(a)][0]
        inf = [a for a in args if nonfinite(a)][0]
        rest = [a for a in args if a is not inf]
        if name in ('maximum', 'minimum', 'fmax', 'fmin') and \
                len(rest) == 1 and not nonfinite(rest[0]):
            # Infinity wins the comparison or loses it, by its sign.
            up = name in ('maximum', 'fmax')
            return inf if up == (inf > 0) else rest[0]
        raise Unsupported('%s of infinities' % name)
    if out_dtype.kind == 'b' and name in _BOOL_ONLY:
        return _BOOL_ONLY[name](out_dtype, *args)
    if name in EXACT:
        if not all(d.kind in 'biuf' for d in in_dtypes):
            raise Unsupported('ufunc on %s' % (in_dtypes,))
        args = list(args)
        if out_dtype.kind == 'f':
            args = [mk(T.to_real(num_term(a))) for a in args]
        return EXACT[name](out_dtype, *args)
    ts = []
    if all(d.kind in 'biuf' for d in in_dtypes):
        loop = ufunc_loop(ufunc, in_dtypes)
        args = [cast(a, d, t) for a, d, t in zip(args, in_dtypes, loop)]
        in_dtypes = loop[:ufunc.nin]
    for a in args:
        ts.append(num_term(a))
        if ts[-1] is None:
            raise Unsupported('%s of %r' % (name, a))
    key = name + ':' + ','.join(d.char for d in in_dtypes)
    if out_dtype.kind == 'b':
        return mkbool(T.uf(key, ts, 'B'))
    if out_dtype.kind == 'f':
        return mk(T.uf(key, ts, 'R'))
    if out_dtype.kind in 'iu':
        lo, hi = int_range(out_dtype)
        return mk(T.uf(key, ts, 'I', lo, hi))
    raise Unsupported('%s giving %s' % (name, out_dtype))
