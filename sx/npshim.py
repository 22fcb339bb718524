"""
Stand-ins for the `numpy` and `numpy.ma` modules seen by the code under test.

Without symbolic arguments everything is real NumPy.  With symbolic arguments
a function is either modelled here (or is purely structural, in which case
real NumPy performs it on element positions), or the path is given up as
unsupported - never silently approximated.
"""
import builtins
import types

import numpy as np
import numpy.ma  # noqa

from . import term as T
from . import cells as C
from . import arr as A
from .arr import (Nd, Buf, Pull, MArr, lift, has_sym, ufunc_call,
                  reduce_call, from_real)
from .engine import (Sym, SymBool, SymInt, SymReal, SymNum, Unsupported, eng,
                     to_bool_term,
                     mk, mkbool, ite, num_term)
from .seq import SymRange, is_int, slen


class ShimType(object):
    """A NumPy class: its instances include the models."""
    def __init__(self, real, models, ctor):
        self._sx_real = real
        self._sx_models = models
        self._ctor = ctor
        self.__name__ = real.__name__
        self.__doc__ = None

    def __call__(self, *args, **kw):
        if self._ctor is not None and (has_sym(args) or has_sym(kw) or
                                       _arrayish(args)):
            return self._ctor(*args, **kw)
        return self._sx_real(*args, **kw)

    def __getattr__(self, name):
        return getattr(self._sx_real, name)


def _arrayish(args):
    return any(is_lazy(a) for a in args)


def is_lazy(a):
    """An object of the code under test which can realise itself."""
    return not isinstance(a, (Nd, Sym, np.ndarray, np.generic, type)) and \
        hasattr(type(a), '__array__')


class SymUfunc(object):
    def __init__(self, real):
        self._sx_real = real
        self.__name__ = real.__name__
        self.__doc__ = 'ufunc ' + real.__name__

    def __call__(self, *args, **kw):
        args = [a.__array__() if is_lazy(a) else a for a in args]
        if not (has_sym(args) or has_sym(kw)):
            return self._sx_real(*args, **kw)
        out = kw.pop('out', None)
        where = kw.pop('where', None)
        dtype = kw.pop('dtype', None)
        casting = kw.pop('casting', 'same_kind')
        if kw:
            raise Unsupported('ufunc keywords %s' % sorted(kw))
        if len(args) > self._sx_real.nin:
            out = args[self._sx_real.nin]
            args = args[:self._sx_real.nin]
        if len(args) < self._sx_real.nin:
            return self._sx_real(*[1] * len(args))      # raises
        if self._sx_real.nout != 1:
            raise Unsupported('ufunc with several outputs')
        return ufunc_call(self._sx_real.__name__, args, out=out,
                          ufunc=self._sx_real, where=where, dtype=dtype,
                          casting=casting)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        if not has_sym(a):
            return self._sx_real.reduce(a, axis, dtype, out, keepdims, **kw)
        if isinstance(a, MArr):
            raise Unsupported('ufunc.reduce of a masked array')
        if isinstance(a, (list, tuple)):
            a = lift(a)
        n = self.__name__
        if n not in ('add', 'multiply', 'minimum', 'maximum', 'logical_and',
                     'logical_or') or kw:
            raise Unsupported('%s.reduce' % n)
        return reduce_call(n, a, axis, dtype, out, keepdims)

    def __getattr__(self, name):
        if name in ('at', 'accumulate', 'outer', 'reduceat'):
            real = getattr(self._sx_real, name)

            def f(*a, **k):
                if has_sym(a) or has_sym(k):
                    raise Unsupported('ufunc.%s' % name)
                return real(*a, **k)
            return f
        return getattr(self._sx_real, name)

    def __repr__(self):
        return repr(self._sx_real)


class SymMaFunc(object):
    """One of np.ma's masked unary/binary operations."""
    def __init__(self, real, name):
        self._sx_real = real
        self.name = name
        self.__name__ = name
        self.__doc__ = real.__doc__

    def __call__(self, *args, **kw):
        args = [a.__array__() if is_lazy(a) else a for a in args]
        if not (has_sym(args) or has_sym(kw)):
            return self._sx_real(*args, **kw)
        if kw:
            raise Unsupported('np.ma.%s keywords' % self.name)
        args = [lift(a) if isinstance(a, (list, tuple)) else a for a in args]
        if len(args) == 1:
            return A.ma_unary(self.name, args[0])
        return A.ma_binary(self.name, *args)

    def __getattr__(self, name):
        return getattr(self._sx_real, name)


# --------------------------------------------------------------- creation

def _uninit(dtype):
    e = eng()
    e.fresh += 1
    k = [T.iconst(e.fresh)]
    if dtype.kind == 'b':
        return mkbool(T.uf('uninit', k, 'B'))
    if dtype.kind in 'iu':
        lo, hi = C.int_range(dtype)
        return mk(T.uf('uninit_' + dtype.name, k, 'I', lo, hi))
    if dtype.kind == 'f':
        return mk(T.uf('uninit', k, 'R'))
    return None


def _shape(shape):
    if isinstance(shape, (int, np.integer, SymInt)):
        return (shape,)
    if isinstance(shape, Nd):
        return tuple(shape)
    return tuple(shape)


def _new(shape, dtype, value):
    """A fresh model array; `value` is a cell or a function making one."""
    shape = _shape(shape)
    for n in shape:
        if not is_int(n) and not isinstance(n, (bool, np.bool_)):
            if not hasattr(n, '__index__'):
                raise TypeError("'%s' object cannot be interpreted as an "
                                "integer" % type(n).__name__)
    if any(isinstance(n, SymInt) for n in shape):
        for n in shape:
            if n < 0:
                raise ValueError('negative dimensions are not allowed')
        if callable(value):
            e = eng()
            e.fresh += 1
            k = T.iconst(e.fresh)

            def fn(idx):
                ts = [k] + [num_term(i) for i in idx]
                if dtype.kind == 'b':
                    return mkbool(T.uf('uninit_a', ts, 'B'))
                if dtype.kind in 'iu':
                    lo, hi = C.int_range(dtype)
                    return mk(T.uf('uninit_a' + dtype.name, ts, 'I', lo, hi))
                if dtype.kind != 'f':
                    return UNINITIALISED
                return mk(T.uf('uninit_a', ts, 'R'))
            return Pull(shape, dtype, fn)
        return Pull(shape, dtype, lambda idx: value)
    shape = tuple(int(n) for n in shape)
    np.empty(0).reshape((0,) + tuple(0 for _ in shape))
    n = 1
    for d in shape:
        if d < 0:
            raise ValueError('negative dimensions are not allowed')
        n *= d
    if n > 1 << 20:
        raise Unsupported('allocation of %d elements' % n)
    return Buf.make(shape, dtype,
                    [value() if callable(value) else value
                     for _ in range(n)])


def _modelled(dtype):
    return dtype.kind in 'biuf'


def _symbolic(shape):
    return any(isinstance(n, SymInt) for n in _shape(shape))


UNINITIALISED = object()


def np_empty(shape, dtype=float, order='C'):
    dtype = np.dtype(dtype)
    if not _modelled(dtype) and (not _symbolic(shape) or
                                 dtype.kind == 'O' and _few(shape)):
        return np.empty(_conc(shape), dtype, order)
    return _new(shape, dtype, lambda: _uninit(dtype))


def _few(shape):
    """Whether a table of these lengths can only be a small one."""
    return all(not isinstance(n, SymInt) or
               eng().implied(to_bool_term(n <= 8)) for n in _shape(shape))


def _conc(shape):
    return tuple(int(n) for n in _shape(shape))


def np_zeros(shape, dtype=float, order='C'):
    dtype = np.dtype(dtype)
    if not _modelled(dtype):
        return np.zeros(_conc(shape), dtype, order)
    return _new(shape, dtype, C.from_py(0, dtype))


def np_ones(shape, dtype=None, order='C'):
    dtype = np.dtype(float if dtype is None else dtype)
    if not _modelled(dtype):
        return np.ones(_conc(shape), dtype, order)
    return _new(shape, dtype, C.from_py(1, dtype))


def np_full(shape, fill_value, dtype=None, order='C'):
    if dtype is None:
        dtype = C.scalar_dtype(fill_value) if not isinstance(
            fill_value, Nd) else fill_value.dtype
    dtype = np.dtype(dtype)
    if not _modelled(dtype) and _symbolic(shape) and \
            not isinstance(fill_value, (Nd, np.ndarray)) and \
            not (dtype.kind == 'O' and _few(shape)):
        return _new(shape, dtype, C.from_py(np.array(
            [fill_value], dtype)[0], dtype))
    if not _modelled(dtype):
        return np.full(_conc(shape), fill_value, dtype, order)
    v = lift(fill_value)
    if v.shape:
        r = _new(shape, dtype, lambda: _uninit(dtype))
        r[...] = v
        return r
    return _new(shape, dtype, C.cast(v.item(), v.dtype, dtype))


def _like(maker):
    def f(a, *args, **kw):
        kw.pop('subok', None)
        kw.pop('order', None)
        shape = kw.pop('shape', None)
        if not isinstance(a, Nd) and not has_sym(a):
            a_ = np.asarray(a)
            base = np.ma.MaskedArray if isinstance(
                a, np.ma.MaskedArray) else None
        else:
            a_ = lift(a)
            base = MArr if isinstance(a, MArr) else None
        if maker is np_full:
            fv = args[0] if args else kw.pop('fill_value')
            dt = args[1] if len(args) > 1 else kw.pop('dtype', None)
            r = np_full(a_.shape if shape is None else shape, fv,
                        a_.dtype if dt is None else dt)
        else:
            dt = args[0] if args else kw.pop('dtype', None)
            r = maker(a_.shape if shape is None else shape,
                      a_.dtype if dt is None else dt)
        if base is not None and isinstance(r, Nd):
            r = MArr(r)
        return r
    return f


def np_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if is_lazy(x):
        x = x.__array__()
    if not has_sym(x):
        return np.array(x, dtype=dtype, copy=copy, order=order, subok=subok,
                        ndmin=ndmin)
    if isinstance(x, MArr) and not subok:
        x = x._data
    was = x
    x = lift(x)
    if dtype is not None and np.dtype(dtype) != x.dtype:
        x = x.astype(dtype)
    elif copy and x is was:
        x = x.copy()
    if isinstance(x, Buf) and x.is_scalar:
        x = Buf(x.cells, x.idx, x.dtype)
    while len(x.shape) < ndmin:
        x = x[None]
    return x


def np_asarray(x, dtype=None, order=None):
    if is_lazy(x):
        x = x.__array__()
    if not has_sym(x):
        return np.asarray(x, dtype=dtype, order=order)
    return np_array(x, dtype=dtype, copy=False)


def np_asanyarray(x, dtype=None, order=None):
    if is_lazy(x):
        x = x.__array__()
    if not has_sym(x):
        return np.asanyarray(x, dtype=dtype, order=order)
    return np_array(x, dtype=dtype, copy=False, subok=True)


def np_require(x, dtype=None, requirements=None):
    if not has_sym(x):
        return np.require(x, dtype, requirements)
    return np_asanyarray(x, dtype)


def np_arange(*args, **kw):
    if not (has_sym(args) or has_sym(kw)):
        return np.arange(*args, **kw)
    dt = kw.pop('dtype', None)
    if kw:
        raise Unsupported('arange')
    r = SymRange.make(*args)
    n = r.n
    dtype = np.dtype(dt or int)
    if isinstance(n, int):
        return Buf.make((n,), dtype, [r.at(i) for i in range(n)])
    return Pull((n,), dtype, lambda idx: r.at(idx[0]))


# --------------------------------------------------------------- functions

def _method(name):
    """np.f(a, ...) which is a.f(...)."""
    def f(a, *args, **kw):
        if is_lazy(a):
            a = a.__array__()
        if not (has_sym(a) or has_sym(args) or has_sym(kw)):
            return getattr(np, name)(a, *args, **kw)
        a = lift(a)
        kw = {k: v for k, v in kw.items()
              if not (k == 'out' and v is None)}
        return getattr(a, name)(*args, **kw)
    f.__name__ = name
    return f


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if is_lazy(a):
        a = a.__array__()
    if not has_sym(a):
        if keepdims is not False:
            kw['keepdims'] = keepdims
        return np.sum(a, axis=axis, dtype=dtype, out=out, **kw)
    if kw:
        raise Unsupported('np.sum keywords')
    return _plain_or_method(a).sum(axis=axis, dtype=dtype, out=out,
                                   keepdims=keepdims)


def _plain_or_method(a):
    if isinstance(a, (list, tuple)):
        a = lift(a)
    if isinstance(a, SymNum) or isinstance(a, SymBool):
        a = lift(a)
    return a


def _minmax(name):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        if is_lazy(a):
            a = a.__array__()
        if not has_sym(a):
            if keepdims is not False:
                kw['keepdims'] = keepdims
            return getattr(np, name)(a, axis=axis, out=out, **kw)
        if kw:
            raise Unsupported('np.%s keywords' % name)
        return getattr(_plain_or_method(a), name)(axis=axis,
                                                  keepdims=keepdims)
    return f


def _allany(name):
    def f(a, axis=None, out=None, keepdims=False):
        if not has_sym(a):
            kw = {} if keepdims is False else {'keepdims': keepdims}
            return getattr(np, name)(a, axis=axis, out=out, **kw)
        return getattr(_plain_or_method(a), name)(axis=axis,
                                                  keepdims=keepdims)
    return f


def np_where(c, *ab):
    if not (has_sym(c) or has_sym(ab)):
        return np.where(c, *ab)
    if not ab:
        return lift(c).nonzero()
    return A.where(c, *ab)


def np_copyto(dst, src, casting='same_kind', where=True):
    if not (has_sym(src) or has_sym(where) or isinstance(dst, Nd)):
        return np.copyto(dst, src, casting, where)
    if not isinstance(dst, Nd):
        raise Unsupported('copyto a real array')
    if where is True:
        dst[...] = src
    else:
        dst[...] = A._fit(A.where(where, src, dst), dst.dtype)


def np_searchsorted(a, v, side='left', sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(a, v, side, sorter)
    if sorter is not None:
        raise Unsupported('searchsorted sorter')
    a = lift(a)
    if a.ndim != 1:
        raise ValueError('object too deep for desired array')
    hay = [x for x in (a.to_buf() if isinstance(a, Pull) else a).flat_cells()]

    def one(x):
        r = 0
        for h in hay:
            r = r + ite(h < x if side == 'left' else h <= x, 1, 0)
        return r
    if isinstance(v, (int, SymInt, np.integer)):
        r = one(v)
        return SymInt(r.t, np.dtype('int64')) if isinstance(r, SymInt) \
            else np.int64(r)
    v = lift(v)
    if isinstance(v, Pull):
        v = v.to_buf()
    return Buf.make(v.shape, np.dtype('int64'),
                    [one(x) for x in v.flat_cells()])


def np_cumsum(a, axis=None, dtype=None, out=None):
    if not has_sym(a):
        return np.cumsum(a, axis, dtype, out)
    return lift(a).cumsum(axis, dtype)


def np_product(a, axis=None, dtype=None, out=None, **kw):
    if not has_sym(a):
        return np.prod(a, axis, dtype, out, **kw)
    return lift(a).prod(axis, dtype)


def np_ndim(a):
    if isinstance(a, (Nd, Sym)):
        return a.ndim
    if has_sym(a):
        return lift(a).ndim
    return np.ndim(a)


def np_shape(a):
    if isinstance(a, (Nd, Sym)):
        return a.shape
    if has_sym(a):
        return lift(a).shape
    return np.shape(a)


def np_size(a, axis=None):
    if isinstance(a, (Nd, Sym)):
        a = lift(a)
        return a.size if axis is None else a.shape[axis]
    return np.size(a, axis)


def np_isscalar(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, Buf) and x.is_scalar:
        return True
    if isinstance(x, Nd):
        return False
    return np.isscalar(x)


def np_ndindex(*shape):
    if has_sym(shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        shape = tuple(int(n) for n in shape)
    return np.ndindex(*shape)


def np_rollaxis(a, axis, start=0):
    if not (has_sym(a) or has_sym(axis)):
        return np.rollaxis(a, axis, start)
    n = a.ndim
    axis, start = int(axis), int(start)
    axis = np.core.multiarray.normalize_axis_index(axis, n)
    if start < 0:
        start += n
    if not 0 <= start < n + 1:
        raise np.AxisError('start')
    if axis < start:
        start -= 1
    if axis == start:
        return a[...]
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return a.transpose(axes)


def np_moveaxis(a, source, destination):
    if not has_sym(a):
        return np.moveaxis(a, source, destination)
    probe = np.moveaxis(np.empty(tuple(range(2, 2 + a.ndim))), source,
                        destination)
    return a.transpose([n - 2 for n in probe.shape])


def np_expand_dims(a, axis):
    if not has_sym(a):
        return np.expand_dims(a, axis)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    out = a.ndim + len(axes)
    axes = [np.core.multiarray.normalize_axis_index(x, out) for x in axes]
    return a[tuple(None if i in axes else slice(None) for i in range(out))]


def np_broadcast_to(a, shape, subok=False):
    if not (has_sym(a) or has_sym(shape)):
        return np.broadcast_to(a, shape, subok)
    shape = _shape(shape)
    a = lift(a)
    if isinstance(a, MArr):
        if not subok:
            a = a._data
        else:
            raise Unsupported('broadcast_to of a masked array')
    if isinstance(a, Buf) and not has_sym(shape):
        return Buf(a.cells, np.broadcast_to(a.idx, shape), a.dtype)
    if isinstance(a, Buf) and not any(isinstance(n, SymInt) for n in shape):
        return Buf(a.cells, np.broadcast_to(a.idx, shape), a.dtype)
    if len(shape) < len(a.shape):
        raise ValueError('input operand has more dimensions than allowed by '
                         'the axis remapping')
    f = A.broadcast_fn(a, shape)
    r = Pull(shape, a.dtype, f)
    r._writeable = False
    return r


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    if not (has_sym(x) or has_sym(shape)):
        return np.lib.stride_tricks.as_strided(x, shape, strides, subok,
                                               writeable)
    if isinstance(x, MArr):
        x = x._data
    if shape is None:
        shape = x.shape
    if strides is None:
        strides = x.strides
    shape = _shape(shape)
    strides = tuple(strides)
    if len(shape) != len(strides):
        raise ValueError('mismatch in length of strides and shape')
    if isinstance(x, Buf):
        repeats = [isinstance(n, SymInt) and not isinstance(s, A.Stride) and
                   s == 0 for n, s in zip(shape, strides)]
        if any(repeats):
            # Repeated dimensions keep their symbolic length.
            f = A.buf_fn(_buf_strided(
                x, tuple(1 if r else int(n) for n, r in zip(shape, repeats)),
                strides, False))
            r = Pull(shape, x.dtype, lambda i: f(tuple(
                0 if r else j for j, r in zip(i, repeats))))
            r._writeable = writeable
            return r
        if any(isinstance(n, SymInt) for n in shape):
            shape = tuple(int(n) for n in shape)
        return _buf_strided(x, shape, strides, writeable)
    src = []
    used = set()
    for n, s in zip(shape, strides):
        if isinstance(s, A.Stride):
            if s.arr is not x or s.axis in used:
                raise Unsupported('as_strided with foreign strides')
            used.add(s.axis)
            src.append(s.axis)
            if not (n <= x.shape[s.axis]):
                raise Unsupported('as_strided beyond the array')
        elif isinstance(s, (int, np.integer)) and s == 0:
            src.append(None)
        else:
            raise Unsupported('as_strided with computed strides')
    f = x.snapshot()
    nd = x.ndim

    def fn(idx):
        out = [0] * nd
        for i, a in enumerate(src):
            if a is not None:
                out[a] = idx[i]
        return f(tuple(out))
    r = Pull(shape, x.dtype, fn)
    r._writeable = writeable
    return r


def _buf_strided(x, shape, strides, writeable):
    base = x.idx
    root = base
    while isinstance(root.base, np.ndarray):
        root = root.base
    lo, hi = np.byte_bounds(root)
    start = base.__array_interface__['data'][0]
    a = b = start
    empty = False
    for n, s in zip(shape, strides):
        if n == 0:
            empty = True
        if s < 0:
            a += (n - 1) * s
        else:
            b += (n - 1) * s
    if not empty and (a < lo or b + base.itemsize > hi):
        # Reads memory which is not part of the array.
        return Buf.make(shape, x.dtype,
                        [_uninit(x.dtype) for _ in
                         range(int(np.prod(shape, dtype=int)))])
    r = np.lib.stride_tricks.as_strided(base, shape, strides,
                                        writeable=writeable)
    return Buf(x.cells, r, x.dtype)


_STRUCT = ('concatenate', 'stack', 'hstack', 'vstack', 'dstack',
           'column_stack', 'tile', 'roll', 'flip', 'fliplr', 'flipud',
           'rot90', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'split',
           'array_split', 'append', 'diagonal', 'broadcast_arrays', 'delete',
           'ix_', 'row_stack', 'block', 'hsplit', 'vsplit', 'meshgrid')


def _struct(name):
    real = getattr(np, name)

    def f(*args, **kw):
        if not (has_sym(args) or has_sym(kw)):
            return real(*args, **kw)
        if name == 'concatenate' and any(isinstance(a, MArr) or
                                         isinstance(a, np.ma.MaskedArray)
                                         for a in args[0]):
            # NumPy keeps the class, not the masks.
            return MArr(lift(f([A.getdata(lift(a)) for a in args[0]],
                               *args[1:], **kw)))
        if name == 'concatenate' and not any(
                isinstance(a, MArr) for a in args[0]) and any(
                isinstance(a, Pull) for a in args[0]):
            return _pull_concat(*args, **kw)
        cells = []
        dts = []

        def conv(x):
            if isinstance(x, MArr):
                raise Unsupported('np.%s of a masked array' % name)
            if isinstance(x, Pull):
                x = x.to_buf()
            if isinstance(x, Buf):
                n = len(cells)
                cells.extend(x.cells)
                dts.append((x.dtype, n, len(cells)))
                return x.idx + n
            if isinstance(x, np.ndarray) and x.dtype.kind in 'biuf' and \
                    name != 'ix_':
                return conv(from_real(x))
            if isinstance(x, SymInt):
                return int(x)
            if isinstance(x, (list, tuple)):
                return type(x)([conv(i) for i in x])
            return x
        args = [conv(x) for x in args]
        kw = {k: conv(v) for k, v in kw.items()}
        if len({d[0] for d in dts}) != 1:
            dt = np.result_type(*[d[0] for d in dts])
            for d, i, j in dts:
                cells[i:j] = [C.cast(c, d, dt) for c in cells[i:j]]
        else:
            dt = dts[0][0]
        r = real(*args, **kw)

        def back(i):
            if isinstance(i, (list, tuple)):
                return type(i)(back(x) for x in i)
            return Buf(cells, np.asarray(i), dt).copy()
        return back(r)
    f.__name__ = name
    return f


def _pull_concat(arrays, axis=0, out=None):
    arrays = [lift(a) for a in arrays]
    n = arrays[0].ndim
    axis = np.core.multiarray.normalize_axis_index(int(axis), n)
    dt = np.result_type(*[a.dtype for a in arrays])
    shape = list(arrays[0].shape)
    for a in arrays[1:]:
        for i in range(n):
            if i == axis:
                shape[i] = shape[i] + a.shape[i]
            elif not A.dims_equal(shape[i], a.shape[i]):
                raise ValueError('all the input array dimensions for the '
                                 'concatenation axis must match exactly')
    r = np_empty(shape, dt)
    pos = 0
    for a in arrays:
        k = [slice(None)] * n
        k[axis] = slice(pos, pos + a.shape[axis])
        r[tuple(k)] = a
        pos = pos + a.shape[axis]
    return r


def np_array_equal(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b)
    a, b = lift(a), lift(b)
    if a.shape != b.shape:
        return False
    return bool(lift(ufunc_call('equal', [a, b])).all())


def np_issubdtype(a, b):
    if isinstance(a, ShimType):
        a = a._sx_real
    if isinstance(b, ShimType):
        b = b._sx_real
    return np.issubdtype(a, b)


def np_any_scalar(name, real):
    """np.isreal and friends: elementwise on models."""
    def f(a):
        if is_lazy(a):
            a = a.__array__()
        if not has_sym(a):
            return real(a)
        a = lift(a)
        v = name == 'isreal'
        if isinstance(a, Pull):
            return Pull(a.shape, np.dtype(bool), lambda idx: v)
        if isinstance(a, MArr):
            raise Unsupported('np.%s of a masked array' % name)
        return A._scalar_result(Buf.make(a.shape, np.dtype(bool),
                                         [v] * a.size), not a.shape)
    f.__name__ = name
    f.__doc__ = real.__doc__
    return f


def np_result_type(*args):
    def real(a):
        if isinstance(a, Nd):
            return np.empty((1,) * len(a.shape), dtype=a.dtype)
        if isinstance(a, Sym):
            # Only the kind of a Python scalar matters, unless its value
            # does not fit.
            raise Unsupported('result_type of a symbolic scalar')
        return a
    return np.result_type(*[real(a) for a in args])


class _LibShim(object):
    def __getattr__(self, name):
        if name == 'stride_tricks':
            return STRIDE_TRICKS
        return getattr(np.lib, name)


class _StrideShim(object):
    as_strided = staticmethod(as_strided)
    broadcast_to = staticmethod(np_broadcast_to)

    def __getattr__(self, name):
        return _guard(name, getattr(np.lib.stride_tricks, name))


STRIDE_TRICKS = _StrideShim()


def _guard(name, real):
    def f(*args, **kw):
        if has_sym(args) or has_sym(kw):
            raise Unsupported('np.%s' % name)
        return real(*args, **kw)
    f.__name__ = name
    f._sx_real = real
    return f


class NpShim(object):
    """The `numpy` module."""
    def __init__(self):
        d = self.__dict__
        d['__name__'] = 'numpy'
        d['empty'] = np_empty
        d['zeros'] = np_zeros
        d['ones'] = np_ones
        d['full'] = np_full
        d['empty_like'] = _like(np_empty)
        d['zeros_like'] = _like(np_zeros)
        d['ones_like'] = _like(np_ones)
        d['full_like'] = _like(np_full)
        d['array'] = np_array
        d['asarray'] = np_asarray
        d['asanyarray'] = np_asanyarray
        d['ascontiguousarray'] = np_asarray
        d['require'] = np_require
        d['arange'] = np_arange
        d['copy'] = lambda a, order='K': np_array(a)
        for n in ('transpose', 'reshape', 'take', 'ravel', 'squeeze',
                  'swapaxes', 'repeat', 'mean', 'var', 'std', 'compress',
                  'clip'):
            d[n] = _method(n)
        d['sum'] = np_sum
        d['min'] = d['amin'] = _minmax('min')
        d['max'] = d['amax'] = _minmax('max')
        d['all'] = d['alltrue'] = _allany('all')
        d['any'] = d['sometrue'] = _allany('any')
        d['where'] = np_where
        d['copyto'] = np_copyto
        d['searchsorted'] = np_searchsorted
        d['cumsum'] = np_cumsum
        d['product'] = d['prod'] = np_product
        d['ndim'] = np_ndim
        d['shape'] = np_shape
        d['size'] = np_size
        d['isscalar'] = np_isscalar
        d['ndindex'] = np_ndindex
        d['rollaxis'] = np_rollaxis
        d['moveaxis'] = np_moveaxis
        d['expand_dims'] = np_expand_dims
        d['broadcast_to'] = np_broadcast_to
        d['array_equal'] = np_array_equal
        d['isclose'] = np_isclose
        d['allclose'] = np_allclose
        d['count_nonzero'] = np_count_nonzero
        d['issubdtype'] = np_issubdtype
        d['result_type'] = np_result_type
        d['nonzero'] = lambda a: lift(a).nonzero() if has_sym(a) \
            else np.nonzero(a)
        for n in _STRUCT:
            d[n] = _struct(n)
        d['lib'] = _LibShim()
        d['ma'] = MA
        d['ndarray'] = ShimType(np.ndarray, (Buf, Pull, MArr), None)
        d['ufunc'] = ShimType(np.ufunc, (SymUfunc,), None)
        for n in ('isreal', 'iscomplex'):
            d[n] = np_any_scalar(n, getattr(np, n))

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            v = SymUfunc(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
            v = _guard(name, v)
        self.__dict__[name] = v
        return v


# ----------------------------------------------------------------- np.ma

def ma_array(data, dtype=None, copy=False, order=None, mask=A.nomask,
             fill_value=None, keep_mask=True, hard_mask=False, shrink=True,
             subok=True, ndmin=0):
    if is_lazy(data):
        data = data.__array__()
    if not (has_sym(data) or has_sym(mask) or has_sym(fill_value)):
        r = np.ma.array(data, dtype=dtype, copy=copy, order=order,
                        mask=mask, fill_value=fill_value,
                        keep_mask=keep_mask, shrink=shrink, subok=subok,
                        ndmin=ndmin)
        # So that symbolic values can be combined into it in place.
        if data is np.ma.masked and r.mask.flags.writeable:
            r = A.lift_masked(r)
        return r
    if isinstance(data, np.ma.MaskedArray):
        data = A.lift_masked(data)
    src = data
    m0 = data._mask if isinstance(data, MArr) else A.nomask
    d = data._data if isinstance(data, MArr) else data
    d = np_array(d, dtype=dtype, copy=copy, ndmin=ndmin)
    d = lift(d)
    if isinstance(d, Buf) and not copy and d is (
            data._data if isinstance(data, MArr) else data):
        d = d.view()
    r = MArr(d)
    if isinstance(src, MArr):
        p = A.proto_like(src)
        r.proto = p if p.dtype == d.dtype else p.astype(d.dtype)
        if src.proto._fill_value is None:
            r.proto = np.ma.masked_array(np.zeros(1, d.dtype))
        r._sharedmask = True
    if mask is A.nomask:
        r._mask = m0 if not keep_mask or not copy else (
            m0 if m0 is A.nomask else m0.copy())
        if not keep_mask:
            r._mask = A.nomask
    else:
        m = _make_mask(mask, d, copy)
        if m0 is A.nomask:
            r._mask = m
            r._sharedmask = not copy
        elif not keep_mask:
            r._mask = m
        else:
            r._mask = lift(ufunc_call('logical_or', [m, m0]))
            r._sharedmask = False
    if fill_value is not None:
        if has_sym(fill_value):
            raise Unsupported('symbolic fill value')
        r.proto._fill_value = None
        r.proto._fill_value = A.check_fill(fill_value, d.dtype)
    return r


def _make_mask(mask, d, copy):
    if mask is True or mask is False or isinstance(mask, np.bool_):
        return A.full_like_data(d, bool(mask))
    if isinstance(mask, MArr):
        mask = mask._data
    was = mask
    m = lift(mask)
    if isinstance(m, MArr):
        m = m._data
    if m.dtype.kind != 'b':
        m = m.astype(bool)
    elif copy and m is was:
        m = m.copy()
    if isinstance(m, Pull) or isinstance(d, Pull):
        if len(m.shape) == len(d.shape) and all(
                A.dims_equal(x, y) for x, y in zip(m.shape, d.shape)):
            return m
        if not m.shape:
            f = A.broadcast_fn(m, d.shape)
            return Pull(d.shape, m.dtype, f)
        m, d = [x.to_buf() if isinstance(x, Pull) else x for x in (m, d)]
    if m.shape != d.shape:
        if m.size == 1:
            c = m.item()
            return Buf.make(d.shape, m.dtype, [c] * d.size)
        if m.size == d.size:
            return m.reshape(d.shape)
        raise np.ma.MaskError('Mask and data not compatible: data size is '
                              '%d, mask size is %d.' % (d.size, m.size))
    return m


def ma_empty(shape, dtype=float, fill_value=None, hardmask=False):
    dtype = np.dtype(dtype)
    if not _modelled(dtype) and (not _symbolic(shape) or
                                 dtype.kind == 'O' and _few(shape)):
        r = np.ma.empty(_conc(shape), dtype)
        if fill_value is not None:
            r.fill_value = fill_value
        return r
    return _ma_from(np_empty(shape, dtype), fill_value)


def _ma_from(a, fill_value):
    r = MArr(a)
    if fill_value is not None:
        r.proto.fill_value = fill_value
    return r


def ma_zeros(shape, dtype=float, fill_value=None, hardmask=False):
    r = np_zeros(shape, dtype)
    return _ma_from(r, fill_value) if isinstance(r, Nd) else np.ma.array(r)


def ma_ones(shape, dtype=float, fill_value=None, hardmask=False):
    r = np_ones(shape, dtype)
    return _ma_from(r, fill_value) if isinstance(r, Nd) else np.ma.array(r)


def ma_masked_all(shape, dtype=float):
    r = ma_empty(shape, dtype)
    r._mask = A.full_like_data(r._data, True)
    return r


def ma_count(a, axis=None, keepdims=False):
    if not has_sym(a):
        return np.ma.count(a, axis) if not keepdims else \
            np.ma.count(a, axis, keepdims=keepdims)
    a = lift(a)
    if not isinstance(a, MArr):
        a = MArr(a)
    return a.count(axis, keepdims)


def ma_count_masked(a, axis=None):
    if not has_sym(a):
        return np.ma.count_masked(a, axis)
    m = A.getmaskarray(a)
    return m.sum(axis)


def ma_getmaskarray(a):
    if not has_sym(a):
        return np.ma.getmaskarray(a)
    return A.getmaskarray(a)


def ma_getmask(a):
    if not has_sym(a):
        return np.ma.getmask(a)
    if isinstance(a, MArr):
        return a._mask
    return A.nomask


def ma_getdata(a, subok=True):
    if not has_sym(a):
        return np.ma.getdata(a, subok)
    return A.getdata(lift(a))


def ma_is_masked_array(x):
    return isinstance(x, MArr) or np.ma.isMaskedArray(x)


def ma_is_masked(x):
    if not has_sym(x):
        return np.ma.is_masked(x)
    if not isinstance(x, MArr) or x._mask is A.nomask:
        return False
    return bool(lift(x._mask).any())


def ma_masked_equal(x, value, copy=True):
    if not (has_sym(x) or has_sym(value)):
        return np.ma.masked_equal(x, value, copy)
    r = ma_masked_where(A.ma_binary('equal', x, value)
                        if isinstance(x, MArr) else
                        ufunc_call('equal', [x, value]), x, copy)
    if not has_sym(value):
        r.proto.fill_value = value
    return r


def ma_masked_where(cond, a, copy=True):
    if not (has_sym(cond) or has_sym(a)):
        return np.ma.masked_where(cond, a, copy)
    a = lift(a)
    if not isinstance(a, MArr):
        r = MArr(a.copy() if copy else a)
    else:
        r = a.copy() if copy else a.view()
    # A masked condition counts as true (its data are, in masked_equal).
    if cond is A.masked or cond is np.ma.masked:
        m = True
    elif isinstance(cond, MArr):
        m = cond._data
        if cond._mask is not A.nomask:
            m = ufunc_call('logical_or', [m, cond._mask])
    else:
        m = cond
    m = lift(m)
    if r._mask is not A.nomask:
        m = lift(ufunc_call('logical_or', [r._mask, m]))
    else:
        m = m.copy()
    r._mask = A._broadcast_mask(m, r._data)
    return r


def ma_masked_values(x, value, rtol=1e-5, atol=1e-8, copy=True, shrink=True):
    if not (has_sym(x) or has_sym(value)):
        return np.ma.masked_values(x, value, rtol, atol, copy, shrink)
    x = lift(x)
    data = x
    if isinstance(x, MArr):
        data = x._data if x._mask is A.nomask else A._fit(
            A.where(x._mask, value, x._data), x.dtype)
    if x.dtype.kind == 'f':
        m = np_isclose(data, value, rtol, atol)
    else:
        m = ufunc_call('equal', [data, value])
    r = ma_array(data, mask=m, copy=copy)
    if not has_sym(value):
        r.proto.fill_value = value
    if shrink and isinstance(r._mask, Buf) and not bool(r._mask.any()):
        r._mask = A.nomask
    return r


def _ma_masked_by(name, ufunc):
    real = getattr(np.ma, 'masked_' + name)

    def f(x, value, copy=True):
        if not (has_sym(x) or has_sym(value)):
            return real(x, value, copy)
        c = A.ma_binary(ufunc, x, value) if isinstance(x, MArr) else \
            ufunc_call(ufunc, [x, value])
        return ma_masked_where(c, x, copy)
    f.__name__ = 'masked_' + name
    return f


def ma_masked_invalid(a, copy=True):
    if not has_sym(a):
        return np.ma.masked_invalid(a, copy)
    a = lift(a)
    return ma_masked_where(ufunc_call('isnan', [A.getdata(a)])
                           if a.dtype.kind == 'f' else
                           A.full_like_data(A.getdata(a), False), a, copy)


def ma_concatenate(arrays, axis=0):
    if not has_sym(arrays):
        return np.ma.concatenate(arrays, axis)
    arrays = [A.lift_masked(a) if isinstance(a, np.ma.MaskedArray) else
              lift(a) for a in arrays]
    r = MArr(lift(NP.concatenate([A.getdata(a) for a in arrays], axis)))
    if any(isinstance(a, MArr) and a._mask is not A.nomask for a in arrays):
        m = lift(NP.concatenate([lift(A.getmaskarray(a)) for a in arrays],
                                axis))
        if not isinstance(m, Buf) or bool(m.any()):
            r._mask = m
    return r


def _ma_struct(name):
    real = getattr(np.ma, name)

    def f(arrays, *args, **kw):
        if not has_sym(arrays):
            return real(arrays, *args, **kw)
        arrays = [A.lift_masked(a) if isinstance(a, np.ma.MaskedArray) else
                  lift(a) for a in arrays]
        fn = getattr(NP, name)
        return ma_array(fn([A.getdata(a) for a in arrays], *args, **kw),
                        mask=fn([lift(A.getmaskarray(a)) for a in arrays],
                                *args, **kw))
    f.__name__ = name
    return f


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol, atol, equal_nan)
    a, b = lift(a), lift(b)
    if isinstance(a, MArr) or isinstance(b, MArr):
        raise Unsupported('np.isclose of a masked array')
    a = a.astype(float)
    b = b.astype(float)
    near = ufunc_call('absolute', [ufunc_call('subtract', [a, b])])
    tol = ufunc_call('add', [np.float64(atol), ufunc_call('multiply', [
        np.float64(rtol), ufunc_call('absolute', [b])])])
    return ufunc_call('less_equal', [near, tol])


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(a, b, rtol, atol, equal_nan)
    return bool(lift(np_isclose(a, b, rtol, atol)).all())


def np_count_nonzero(a, axis=None):
    if not has_sym(a):
        return np.count_nonzero(a, axis)
    return lift(A.getdata(lift(a))).astype(bool).sum(axis, dtype=np.intp)


def ma_filled(a, fill_value=None):
    if isinstance(a, MArr):
        return a.filled(fill_value)
    if isinstance(a, Nd):
        return a
    return np.ma.filled(a, fill_value)


def ma_where(c, *ab):
    if not (has_sym(c) or has_sym(ab)):
        return np.ma.where(c, *ab)
    if len(ab) != 2:
        raise Unsupported('np.ma.where')
    c, x, y = [lift(v) for v in (c,) + ab]
    if any(v is A.masked or v is np.ma.masked for v in ab):
        raise Unsupported('np.ma.where')
    cd = A.getdata(c)
    d = lift(A.where(cd, A.getdata(x), A.getdata(y)))
    if not any(isinstance(v, MArr) and v._mask is not A.nomask
               for v in (c, x, y)):
        return MArr(d)
    m = lift(A.where(cd, A.getmaskarray(x), A.getmaskarray(y)))
    m = A.where(A.getmaskarray(c), True, m)
    return MArr(d, A._broadcast_mask(lift(m), d))


def ma_mask_or(m1, m2, copy=False, shrink=True):
    if not (has_sym(m1) or has_sym(m2)):
        return np.ma.mask_or(m1, m2, copy, shrink)
    if m1 is A.nomask or m1 is False:
        return m2
    if m2 is A.nomask or m2 is False:
        return m1
    return ufunc_call('logical_or', [m1, m2])


def _ma_method(name):
    def f(a, *args, **kw):
        if not (has_sym(a) or has_sym(args) or has_sym(kw)):
            return getattr(np.ma, name)(a, *args, **kw)
        a = lift(a)
        if not isinstance(a, MArr):
            a = MArr(a)
        return getattr(a, name)(*args, **kw)
    return f


def ma_set_fill_value(a, fv):
    if isinstance(a, MArr):
        a.set_fill_value(fv)
        return
    if not isinstance(a, Nd):
        np.ma.set_fill_value(a, fv)


_MA_PLAIN = ('default_fill_value', 'minimum_fill_value',
             'maximum_fill_value', 'is_mask')


def _fill_of(real):
    def f(obj):
        if isinstance(obj, (Nd, Sym)):
            dt = obj.dtype if isinstance(obj, Nd) else C.scalar_dtype(obj)
            return real(np.empty(0, dtype=dt))
        return real(obj)
    return f


class MaShim(object):
    """The `numpy.ma` module."""
    def __init__(self):
        d = self.__dict__
        d['__name__'] = 'numpy.ma'
        d['MaskedArray'] = ShimType(
            np.ma.MaskedArray, (MArr,),
            lambda data=None, mask=A.nomask, dtype=None, copy=False,
            subok=True, ndmin=0, fill_value=None, keep_mask=True,
            hard_mask=None, shrink=True, order=None:
                ma_array(data, mask=mask, dtype=dtype, copy=copy,
                         fill_value=fill_value, keep_mask=keep_mask,
                         ndmin=ndmin))
        d['masked_array'] = d['MaskedArray']
        d['array'] = ma_array
        d['asarray'] = lambda a, dtype=None, order=None: \
            ma_array(a, dtype=dtype, copy=False)
        d['asanyarray'] = d['asarray']
        d['empty'] = ma_empty
        d['zeros'] = ma_zeros
        d['ones'] = ma_ones
        d['masked_all'] = ma_masked_all
        d['count'] = ma_count
        d['count_masked'] = ma_count_masked
        d['getmaskarray'] = ma_getmaskarray
        d['getmask'] = ma_getmask
        d['getdata'] = ma_getdata
        d['isMaskedArray'] = d['isMA'] = d['isarray'] = ma_is_masked_array
        d['is_masked'] = ma_is_masked
        d['masked_equal'] = ma_masked_equal
        d['masked_values'] = ma_masked_values
        for n, f in (('not_equal', 'not_equal'), ('less', 'less'),
                     ('less_equal', 'less_equal'), ('greater', 'greater'),
                     ('greater_equal', 'greater_equal')):
            d['masked_' + n] = _ma_masked_by(n, f)
        d['masked_invalid'] = ma_masked_invalid
        d['concatenate'] = ma_concatenate
        for n in ('stack', 'hstack', 'vstack', 'dstack'):
            d[n] = _ma_struct(n)
        d['masked_where'] = ma_masked_where
        d['filled'] = ma_filled
        d['where'] = ma_where
        d['mask_or'] = ma_mask_or
        d['nomask'] = A.nomask
        d['masked'] = A.masked
        for n in ('minimum_fill_value', 'maximum_fill_value',
                  'default_fill_value'):
            d[n] = _fill_of(getattr(np.ma, n))
        d['set_fill_value'] = ma_set_fill_value
        for n in ('sum', 'min', 'max', 'mean', 'var', 'std', 'all', 'any',
                  'prod', 'transpose', 'reshape', 'ravel', 'compressed',
                  'take'):
            d[n] = _ma_method(n)

    def __getattr__(self, name):
        v = getattr(np.ma, name)
        core = np.ma.core
        if isinstance(v, (core._MaskedUnaryOperation,
                          core._MaskedBinaryOperation,
                          core._DomainedBinaryOperation,
                          core._extrema_operation)):
            nm = getattr(v, 'f', v).__name__ if not isinstance(
                v, core._extrema_operation) else name
            v = SymMaFunc(v, nm)
            v.__name__ = v._sx_real.__name__
        elif name == 'power':
            v = SymMaFunc(v, 'power')
        elif name in _MA_PLAIN:
            pass
        elif isinstance(v, type):
            pass
        elif callable(v):
            v = _guard('ma.' + name, v)
        self.__dict__[name] = v
        return v


MA = MaShim()
NP = NpShim()
