"""
Models of numpy.ndarray and numpy.ma.MaskedArray.

* `Buf`: concrete shape.  Every structural operation (indexing, views,
  strides, reshaping) is done by real NumPy on an integer array which says
  where each element lives, so views, aliasing, copies and errors are NumPy's
  own; only the element values are symbolic.
* `Pull`: symbolic shape.  An array is a function from an index tuple (of
  symbolic integers) to a value; indexing composes functions.
* `MArr`: data and mask, either of the above.
"""
import builtins

import numpy as np

from . import term as T
from . import cells as C
from .engine import (Sym, SymBool, SymInt, SymReal, SymNum, Unsupported,
                     eng, mk, mkbool, num_term, to_bool_term, ite)
from .seq import plain, SymRange, slice_indices, range_len, slen

_real = np


def is_sym_dim(n):
    return isinstance(n, SymInt)


def conc(n):
    return n if isinstance(n, int) else int(n)


class Nd(object):
    __array_ufunc__ = None
    __array_priority__ = 0.0
    __hash__ = None

    # ------------------------------------------------- operators
    def _bin(self, name, other, swap=False):
        if not _operand(other):
            return NotImplemented
        a, b = (other, self) if swap else (self, other)
        if isinstance(a, MArr) or isinstance(b, MArr) or a is np.ma.masked \
                or b is np.ma.masked:
            return ma_binary(name, a, b)
        return ufunc_call(name, [a, b])

    def _ibin(self, name, other):
        return ufunc_call(name, [self, other], out=self)

    def __add__(self, o):
        return self._bin('add', o)

    def __radd__(self, o):
        return self._bin('add', o, True)

    def __sub__(self, o):
        return self._bin('subtract', o)

    def __rsub__(self, o):
        return self._bin('subtract', o, True)

    def __mul__(self, o):
        return self._bin('multiply', o)

    def __rmul__(self, o):
        return self._bin('multiply', o, True)

    def __truediv__(self, o):
        return self._bin('true_divide', o)

    def __rtruediv__(self, o):
        return self._bin('true_divide', o, True)

    def __floordiv__(self, o):
        return self._bin('floor_divide', o)

    def __rfloordiv__(self, o):
        return self._bin('floor_divide', o, True)

    def __mod__(self, o):
        return self._bin('remainder', o)

    def __pow__(self, o):
        if isinstance(o, int) and o == 2:
            return self._bin('multiply', self)
        return self._bin('power', o)

    def __rpow__(self, o):
        return self._bin('power', o, True)

    def __and__(self, o):
        return self._bin('bitwise_and', o)

    def __rand__(self, o):
        return self._bin('bitwise_and', o, True)

    def __or__(self, o):
        return self._bin('bitwise_or', o)

    def __ror__(self, o):
        return self._bin('bitwise_or', o, True)

    def __xor__(self, o):
        return self._bin('bitwise_xor', o)

    def __rxor__(self, o):
        return self._bin('bitwise_xor', o, True)

    def __lt__(self, o):
        return self._bin('less', o)

    def __le__(self, o):
        return self._bin('less_equal', o)

    def __gt__(self, o):
        return self._bin('greater', o)

    def __ge__(self, o):
        return self._bin('greater_equal', o)

    def __eq__(self, o):
        return self._bin('equal', o)

    def __ne__(self, o):
        return self._bin('not_equal', o)

    def __neg__(self):
        return self._un('negative')

    def __abs__(self):
        return self._un('absolute')

    def __invert__(self):
        return self._un('invert')

    def _un(self, name):
        return ufunc_call(name, [self])

    def __iadd__(self, o):
        return self._ibin('add', o)

    def __isub__(self, o):
        return self._ibin('subtract', o)

    def __imul__(self, o):
        return self._ibin('multiply', o)

    def __itruediv__(self, o):
        return self._ibin('true_divide', o)

    def __ifloordiv__(self, o):
        return self._ibin('floor_divide', o)

    def __iand__(self, o):
        return self._ibin('bitwise_and', o)

    def __ior__(self, o):
        return self._ibin('bitwise_or', o)

    def __ixor__(self, o):
        return self._ibin('bitwise_xor', o)

    # ------------------------------------------------ shared things
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = d * n
        return n

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def T(self):
        return self.transpose()

    def _sx_len(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __len__(self):
        return conc(self._sx_len())

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        i = 0
        n = self.shape[0]
        while i < n:
            if is_sym_dim(n) and i >= eng().max_loop:
                from .engine import BoundCut
                raise BoundCut('loop over a symbolic array')
            yield self[i]
            i += 1

    def __contains__(self, v):
        return bool((self == v).any())

    def __format__(self, spec):
        return '<sym array>'

    def __repr__(self):
        return '<sym array>'
    __str__ = __repr__

    def __array__(self, dtype=None):
        return force_real(self, dtype)

    def __getattr__(self, name):
        if name.startswith('_sx'):
            raise AttributeError(name)
        cls = _real.ma.MaskedArray if isinstance(self, MArr) else \
            _real.ndarray
        if hasattr(cls, name):
            raise Unsupported('%s.%s' % (cls.__name__, name))
        raise AttributeError("'numpy.ndarray' object has no attribute %r"
                             % name)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()


def _operand(o):
    if isinstance(o, (Nd, Sym, _real.ndarray, _real.generic, bool, int,
                      float, complex, list, tuple, str, bytes)):
        return True
    from fractions import Fraction
    if isinstance(o, Fraction):
        return True
    if o is None:
        return True
    # Something which handles the operation itself, like a biggus Array.
    return False


class Buf(Nd):
    __slots__ = ('cells', 'idx', 'dtype', 'is_scalar')

    def __init__(self, cells, idx, dtype, is_scalar=False):
        self.cells = cells
        self.idx = idx
        self.dtype = dtype
        self.is_scalar = is_scalar

    # ------------------------------------------------- construction
    @staticmethod
    def make(shape, dtype, values):
        n = 1
        for d in shape:
            n *= d
        return Buf(list(values),
                   _real.arange(n, dtype=_real.intp).reshape(shape), dtype)

    @staticmethod
    def scalar(v, dtype):
        return Buf([v], _real.zeros((), dtype=_real.intp), dtype, True)

    def _like(self, idx, scalar=False):
        if not isinstance(idx, _real.ndarray):
            idx = _real.asarray(idx)
            scalar = True
        return Buf(self.cells, idx, self.dtype, scalar)

    def flat_cells(self):
        c = self.cells
        return [c[i] for i in self.idx.ravel().tolist()]

    def copy(self, order='C'):
        return Buf.make(self.shape, self.dtype, self.flat_cells())

    # --------------------------------------------------- attributes
    @property
    def shape(self):
        return self.idx.shape

    @shape.setter
    def shape(self, s):
        self.idx.shape = _conc_shape(s)

    @property
    def strides(self):
        return self.idx.strides

    @property
    def flags(self):
        return self.idx.flags

    @property
    def base(self):
        return None

    @property
    def flat(self):
        return BufFlat(self)

    @property
    def real(self):
        return self

    @property
    def data(self):
        raise Unsupported('ndarray.data')

    # ------------------------------------------------------ indexing
    def __getitem__(self, k):
        k = buf_key(k, self.shape)
        r = self.idx[k]
        if not isinstance(r, _real.ndarray):
            return cell_scalar(self.cells[int(r)], self.dtype)
        return Buf(self.cells, r, self.dtype) if \
            _real.shares_memory(r, self.idx) or not r.size else \
            Buf(self.cells, r, self.dtype).copy()

    def __setitem__(self, k, v):
        if not self.idx.flags.writeable:
            raise ValueError('assignment destination is read-only')
        k = buf_key(k, self.shape)
        target = self.idx[k]
        assign(self, _real.asarray(target), v)

    def fill(self, v):
        assign(self, self.idx, v)

    def item(self, *args):
        if args:
            r = self.idx.item(*args)
        elif self.idx.size != 1:
            raise ValueError('can only convert an array of size 1 to a '
                             'Python scalar')
        else:
            r = int(self.idx.ravel()[0])
        return self.cells[r]

    def tolist(self):
        if not self.shape:
            return self.cells[int(self.idx)]
        return [x.tolist() if isinstance(x, Nd) else
                (x.item() if isinstance(x, _real.generic) else x)
                for x in self]

    # ---------------------------------------------------- structure
    def _struct(self, f):
        r = f(self.idx)
        if not isinstance(r, _real.ndarray):
            return cell_scalar(self.cells[int(r)], self.dtype)
        b = Buf(self.cells, r, self.dtype)
        if r is self.idx or _real.shares_memory(r, self.idx):
            return b
        return b.copy()

    def transpose(self, *axes):
        if len(axes) == 1 and axes[0] is None:
            axes = ()
        elif len(axes) == 1:
            axes = (tuple(int(a) for a in axes[0]),) if not isinstance(
                axes[0], (int, SymInt)) else (int(axes[0]),)
        return self._struct(lambda i: i.transpose(*axes))

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and not isinstance(shape[0], (int, SymInt)):
            shape = shape[0]
        shape = _conc_shape(shape)
        return self._struct(lambda i: i.reshape(shape, **kw))

    def ravel(self, order='C'):
        return self._struct(lambda i: i.ravel(order))

    def flatten(self, order='C'):
        return self._struct(lambda i: i.flatten(order))

    def squeeze(self, axis=None):
        return self._struct(lambda i: i.squeeze(axis))

    def swapaxes(self, a, b):
        return self._struct(lambda i: i.swapaxes(a, b))

    def repeat(self, n, axis=None):
        return self._struct(lambda i: i.repeat(n, axis))

    def take(self, ind, axis=None, out=None, mode='raise'):
        ind = conc_index_array(ind)
        return self._struct(lambda i: i.take(ind, axis=axis, mode=mode))

    def compress(self, cond, axis=None):
        cond = conc_bools(cond)
        return self._struct(lambda i: i.compress(cond, axis))

    def view(self, t=None):
        if t is None:
            return self._like(self.idx)
        if isinstance(t, type) and issubclass(t, _real.ma.MaskedArray):
            return MArr(self._like(self.idx))
        if t is _real.ndarray:
            return self._like(self.idx)
        raise Unsupported('view')

    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dtype = _real.dtype(dtype)
        if not _real.can_cast(self.dtype, dtype, casting):
            raise TypeError('Cannot cast array from %r to %r according to '
                            'the rule %r' % (self.dtype, dtype, casting))
        if not copy and dtype == self.dtype:
            return self
        src = self.dtype
        r = Buf.make(self.shape, dtype,
                     [C.cast(c, src, dtype) for c in self.flat_cells()])
        r.is_scalar = self.is_scalar
        return r

    # ------------------------------------------------------- values
    def __bool__(self):
        if self.size == 1:
            return bool(C.truth(self.item()))
        return bool(_real.zeros(self.shape))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        v = self.item()
        if isinstance(v, Sym):
            raise Unsupported('a symbolic value reached a C-level float')
        return float(v)

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        return int(self.item())

    def __index__(self):
        if self.dtype.kind not in 'iu' or self.shape:
            raise TypeError('only integer scalar arrays can be converted to '
                            'a scalar index')
        return int(self.item())

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_call('add', self, axis, dtype, out, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_call('multiply', self, axis, dtype, out, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return reduce_call('minimum', self, axis, None, out, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return reduce_call('maximum', self, axis, None, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return reduce_call('logical_and', self, axis, None, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return reduce_call('logical_or', self, axis, None, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        if dtype is None and self.dtype.kind in 'biu':
            dtype = _real.dtype(float)
        s = self.sum(axis, dtype, None, keepdims)
        n = self.size if axis is None else self.shape[axis]
        return ufunc_call('true_divide', [s, n])

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        a = self
        if self.dtype.kind in 'biu':
            a = self.astype(float)
        m = a.mean(axis, keepdims=True) if axis is not None else a.mean()
        d = a - m
        s = (d * d).sum(axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        return ufunc_call('true_divide', [s, builtins.max(n - ddof, 0)])

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return ufunc_call('sqrt', [self.var(axis, dtype, None, ddof,
                                            keepdims)])

    def cumsum(self, axis=None, dtype=None, out=None):
        if axis is None:
            a = self.ravel()
        elif self.ndim == 1 and axis in (0, -1):
            a = self
        else:
            raise Unsupported('cumsum')
        dt = dtype or _real.cumsum(_real.ones(1, self.dtype)).dtype
        a = a.astype(dt)
        out_cells = []
        acc = None
        for c in a.flat_cells():
            acc = c if acc is None else C.apply_ufunc(
                'add', _real.add, a.dtype, (a.dtype, a.dtype), (acc, c))
            out_cells.append(acc)
        return Buf.make(a.shape, a.dtype, out_cells)

    def nonzero(self):
        b = conc_bools(self)
        return b.nonzero()

    def clip(self, lo=None, hi=None):
        a = self
        if lo is not None:
            a = ufunc_call('maximum', [a, lo])
        if hi is not None:
            a = ufunc_call('minimum', [a, hi])
        return a


class BufFlat(object):
    def __init__(self, b):
        self.b = b

    def __iter__(self):
        for i in self.b.idx.ravel().tolist():
            yield cell_scalar(self.b.cells[i], self.b.dtype)

    def __getitem__(self, k):
        return self.b.ravel()[k]

    def __setitem__(self, k, v):
        f = self.b.idx.flat
        target = f[buf_key(k, (self.b.idx.size,))]
        _flat_assign(self.b, _real.asarray(target).ravel().tolist(), v)

    def __len__(self):
        return self.b.idx.size


def _flat_assign(b, targets, v):
    v = lift(v)
    if isinstance(v, Pull):
        v = v.to_buf()
    src = v.flat_cells()
    if not src:
        return
    for n, i in enumerate(targets):
        b.cells[i] = C.cast(src[n % len(src)], v.dtype, b.dtype)


def _conc_shape(s):
    if isinstance(s, (int, SymInt, _real.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def cell_scalar(c, dtype):
    """What indexing down to one element gives."""
    k = dtype.kind
    if isinstance(c, SymInt):
        return SymInt(c.t, dtype)
    if isinstance(c, SymBool):
        return c
    if isinstance(c, Sym):
        return Buf.scalar(c, dtype)
    if k == 'O':
        return c
    from fractions import Fraction
    if isinstance(c, Fraction):
        v = dtype.type(float(c))
        if Fraction(float(v)) != c:
            return Buf.scalar(c, dtype)
        return v
    if isinstance(c, _real.generic):
        return c
    return dtype.type(c)


def assign(b, target, v):
    """b.flat-cells[target] = v with NumPy's broadcasting and casting."""
    if isinstance(v, MArr):
        v = v._data
    if isinstance(v, Pull):
        v = v.to_buf()
    v = lift(v, like=b.dtype)
    try:
        src = v.idx
        if src.ndim > target.ndim:
            extra = src.ndim - target.ndim
            if all(n == 1 for n in src.shape[:extra]):
                src = src.reshape(src.shape[extra:])
        src = _real.broadcast_to(src, target.shape)
    except ValueError:
        raise ValueError('could not broadcast input array from shape %r into '
                         'shape %r' % (v.shape, target.shape))
    vals = [v.cells[i] for i in src.ravel().tolist()]
    dt = b.dtype
    cells = b.cells
    if v.dtype == dt:
        for i, x in zip(target.ravel().tolist(), vals):
            cells[i] = x
    else:
        for i, x in zip(target.ravel().tolist(), vals):
            cells[i] = C.cast(x, v.dtype, dt)


# ---------------------------------------------------------------- lifting

def lift(x, like=None):
    """An array-like as a Buf (Pull and MArr are returned as they are)."""
    if isinstance(x, Nd):
        return x
    if isinstance(x, SymBool):
        return Buf.scalar(x, _real.dtype(bool))
    if isinstance(x, SymInt):
        if like is not None and like.kind in 'iu':
            return Buf.scalar(plain(x), _real.dtype('int64'))
        return Buf.scalar(plain(x), x.dtype)
    if isinstance(x, SymReal):
        return Buf.scalar(mk(x.t), x.dtype)
    from fractions import Fraction
    if isinstance(x, Fraction):
        return Buf.scalar(x, _real.dtype(float))
    if isinstance(x, SymRange):
        return lift(list(x))
    if isinstance(x, (list, tuple)) and has_sym(x):
        parts = [lift(i) for i in x]
        return stack_parts(parts)
    if isinstance(x, _real.ma.MaskedArray):
        return lift_masked(x)
    if not isinstance(x, (_real.ndarray, _real.generic, list, tuple, bool,
                          int, float, complex, str, bytes)) and \
            hasattr(x, '__array__') and not isinstance(x, type):
        return lift(x.__array__())
    a = _real.asarray(x)
    if a.dtype.kind == 'O' and has_sym(x):
        raise Unsupported('object array of symbolic values')
    b = from_real(a)
    if not isinstance(x, _real.ndarray) and not a.shape:
        b.is_scalar = True
    return b


def from_real(a):
    dt = a.dtype
    return Buf.make(a.shape, dt, [C.from_py(v, dt)
                                  for v in a.ravel().tolist()]
                    if dt.kind in 'biuf' else list(a.ravel()))


def lift_masked(x):
    m = MArr(from_real(_real.asarray(x.data)) if x is not _real.ma.masked
             else from_real(_real.zeros(())))
    if x.mask is not _real.ma.nomask:
        m._mask = from_real(_real.asarray(x.mask))
    m.proto = proto_like(x)
    return m


def stack_parts(parts):
    if not parts:
        return from_real(_real.array([]))
    if any(isinstance(p, MArr) for p in parts):
        raise Unsupported('sequence of masked arrays')
    parts = [p.to_buf() if isinstance(p, Pull) else p for p in parts]
    shape = parts[0].shape
    for p in parts:
        if p.shape != shape:
            raise Unsupported('ragged sequence')
    dt = _real.result_type(*[p.dtype for p in parts])
    vals = []
    for p in parts:
        vals.extend(C.cast(c, p.dtype, dt) for c in p.flat_cells())
    return Buf.make((len(parts),) + tuple(shape), dt, vals)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, Nd, SymRange, MaskedView)):
        return True
    t = type(x)
    if t in (tuple, list):
        for i in x:
            if has_sym(i, depth + 1):
                return True
        return False
    if t is slice:
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    if t is dict:
        for i in x.values():
            if has_sym(i):
                return True
        return False
    from fractions import Fraction
    if t is Fraction:
        return True
    return False


class MaskedView(object):
    """Placeholder base so that isinstance checks are cheap."""


def force_real(x, dtype=None):
    """A real array from a model whose values are all constant."""
    if isinstance(x, MArr):
        x = x._data
    if isinstance(x, Pull):
        x = x.to_buf()
    vals = []
    from fractions import Fraction
    for c in x.flat_cells():
        if isinstance(c, SymInt):
            c = int(c)
        elif isinstance(c, SymBool):
            c = bool(c)
        elif isinstance(c, Sym):
            raise Unsupported('a symbolic array reached real NumPy')
        elif isinstance(c, Fraction):
            c = float(c)
        vals.append(c)
    a = _real.empty(len(vals), x.dtype)
    for i, c in enumerate(vals):
        a[i] = c
    a = a.reshape(x.shape)
    return a if dtype is None else a.astype(dtype)


# --------------------------------------------------------- concretisation

def conc_bools(b):
    if isinstance(b, MArr):
        b = b._data
    if isinstance(b, Pull):
        b = b.to_buf()
    if isinstance(b, Buf):
        vals = [bool(C.truth(c)) for c in b.flat_cells()]
        return _real.array(vals, dtype=bool).reshape(b.shape)
    return _real.asarray([bool(x) for x in b]) if has_sym(b) else \
        _real.asarray(b, dtype=bool)


def conc_index_array(b):
    if isinstance(b, (int, _real.integer)):
        return int(b)
    if isinstance(b, SymInt):
        return int(b)
    if isinstance(b, SymRange):
        return _real.array([int(x) for x in b], dtype=_real.intp)
    if isinstance(b, Pull):
        b = b.to_buf()
    if isinstance(b, Buf):
        if b.dtype.kind == 'b':
            return conc_bools(b)
        return _real.array([int(x) for x in b.flat_cells()],
                           dtype=_real.intp).reshape(b.shape)
    if isinstance(b, (list, tuple)):
        if has_sym(b):
            return _real.array([conc_index_array(x) for x in b],
                               dtype=_real.intp)
        return b
    return b


def conc_slice(k, n):
    """A slice without symbolic parts selecting the same of 0..n-1."""
    if not has_sym(k):
        return k
    start, stop, step = slice_indices(k, n)
    m = conc(range_len(start, stop, step))
    if m == 0:
        return slice(0, 0, 1)
    start = conc(start)
    if m == 1:
        return slice(start, start + 1, 1)
    step = conc(step)
    last = start + (m - 1) * step
    stop = last + (1 if step > 0 else -1)
    return slice(start, stop if stop >= 0 else None, step)


def check_int(k, n, axis=0):
    """Index error unless -n <= k < n; the non-negative index."""
    k = plain(k)
    if not (k < n and k >= -n):
        raise IndexError('index out of bounds for axis %d' % axis)
    if k < 0:
        return k + n
    return k


def key_items(k):
    if isinstance(k, tuple):
        return list(k)
    if isinstance(k, list) and any(
            isinstance(x, (slice, list, tuple, Nd, SymRange)) or
            x is None or x is Ellipsis for x in k):
        # NumPy 1.19 still takes such lists as tuples.
        return list(k)
    return [k]


def buf_key(k, shape):
    if not has_sym(k):
        if isinstance(k, list):
            items = key_items(k)
            if len(items) != 1 or items[0] is not k:
                return tuple(items)
        return k
    items = key_items(k)
    n_used = 0
    for x in items:
        if x is None or x is Ellipsis:
            continue
        n_used += _key_ndim(x)
    out = []
    axis = 0
    for x in items:
        if x is Ellipsis:
            out.append(x)
            axis += len(shape) - n_used
            continue
        if x is None:
            out.append(x)
            continue
        n = shape[axis] if axis < len(shape) else None
        if isinstance(x, SymInt):
            if n is None:
                raise IndexError('too many indices for array')
            out.append(conc(check_int(x, n, axis)))
        elif isinstance(x, slice):
            if n is None:
                raise IndexError('too many indices for array')
            out.append(conc_slice(x, n))
        elif isinstance(x, (SymRange, list, tuple, Buf, Pull, MArr)):
            out.append(conc_index_array(x))
        elif isinstance(x, SymBool):
            out.append(bool(x))
        else:
            out.append(x)
        axis += _key_ndim(x)
    return tuple(out)


def _key_ndim(x):
    if isinstance(x, (Buf, _real.ndarray)) and x.dtype.kind == 'b':
        return x.ndim
    if isinstance(x, (bool, SymBool)):
        return 0
    return 1


# -------------------------------------------------------------------- Pull

class Pull(Nd):
    def __init__(self, shape, dtype, fn=None, parent=None, fwd=None,
                 inv=None, origin=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.parent = parent
        self.fwd = fwd
        self.inv = inv
        self.box = [fn]
        self.is_scalar = False
        self._writeable = True
        # (base array, axis of the base or None) per axis, for strides.
        self.origin = origin

    def at(self, idx):
        if self.parent is not None:
            return self.parent.at(self.fwd(idx))
        return self.box[0](idx)

    def snapshot(self):
        """A function frozen at the current contents."""
        if self.parent is not None:
            f = self.parent.snapshot()
            fwd = self.fwd
            return lambda idx: f(fwd(idx))
        return self.box[0]

    def copy(self, order='C'):
        return Pull(self.shape, self.dtype, self.snapshot())

    def write(self, cond, val):
        """Elements with cond(idx) become val(idx)."""
        if self.parent is not None:
            if self.inv is None:
                raise Unsupported('write through a view')
            inv = self.inv

            def pcond(pidx):
                c, idx = inv(pidx)
                if c is False:
                    return False
                return C.b_and(c, cond(idx))

            def pval(pidx):
                return val(inv(pidx)[1])
            self.parent.write(pcond, pval)
            return
        old = self.box[0]

        def fn(idx):
            c = cond(idx)
            t = to_bool_term(c)
            if t is T.TRUE:
                return val(idx)
            if t is T.FALSE:
                return old(idx)
            # Settle the question now when the path already decides it.
            d = decided(t)
            if d is True:
                return val(idx)
            if d is False:
                return old(idx)
            return C.select(c, val(idx), old(idx))
        self.box[0] = fn

    def to_buf(self):
        shape = tuple(conc(n) for n in self.shape)
        size = 1
        for n in shape:
            size *= n
        if size > 4096:
            raise Unsupported('array too large to enumerate')
        return Buf.make(shape, self.dtype,
                        [self.at(i) for i in _real.ndindex(*shape)])

    @property
    def strides(self):
        return tuple(Stride(self, i) for i in range(len(self.shape)))

    @property
    def flags(self):
        return PullFlags(self)

    # ------------------------------------------------------ indexing
    def _plan(self, k):
        """
        Per-axis plan of an indexing operation.

        Returns (out_shape, fwd, inv or None, is_copy).
        """
        items = key_items(k)
        n_real = 0
        for x in items:
            if x is not None and x is not Ellipsis:
                n_real += _key_ndim(x)
        if n_real > self.ndim:
            raise IndexError('too many indices for array')
        full = []
        seen = False
        for x in items:
            if x is Ellipsis:
                if seen:
                    raise IndexError("an index can only have a single "
                                     "ellipsis ('...')")
                seen = True
                full.extend([slice(None)] * (self.ndim - n_real))
            else:
                full.append(x)
        if not seen:
            full.extend([slice(None)] * (self.ndim - n_real))
        axis = 0
        plan = []           # (kind, axis, ...)
        adv = []            # positions in plan that are advanced
        for x in full:
            if x is None:
                plan.append(('new',))
                continue
            n = self.shape[axis]
            if isinstance(x, slice):
                start, stop, step = slice_indices(x, n)
                plan.append(('slice', axis, start, step,
                             range_len(start, stop, step)))
            elif isinstance(x, (int, _real.integer, SymInt)) and \
                    not isinstance(x, bool):
                plan.append(('int', axis, check_int(x, n, axis)))
            elif isinstance(x, (SymRange, tuple, list, Buf, _real.ndarray)):
                plan.append(('seq', axis) + self._seq(x, n, axis))
            elif isinstance(x, Pull):
                plan.append(('seq', axis) + self._seq(x.to_buf(), n, axis))
            else:
                raise IndexError('only integers, slices (`:`), ellipsis '
                                 '(`...`), numpy.newaxis (`None`) and '
                                 'integer or boolean arrays are valid '
                                 'indices')
            axis += 1
        return self._finish(plan)

    def _seq(self, x, n, axis):
        """(length, function position -> index) of a sequence key."""
        if isinstance(x, SymRange):
            if x.n > 0:
                check_int(x.at(0), n, axis)
                check_int(x.at(x.n - 1), n, axis)
                # A range which crosses zero wraps element by element.
                if x.at(0) >= 0 and x.at(x.n - 1) >= 0:
                    return x.n, x.at
                if x.at(0) < 0 and x.at(x.n - 1) < 0:
                    return x.n, lambda i: x.at(i) + n
                return x.n, lambda i: ite(x.at(i) < 0, x.at(i) + n, x.at(i))
            return 0, x.at
        if isinstance(x, (Buf, _real.ndarray)):
            if x.dtype.kind == 'b':
                if x.ndim != 1:
                    raise Unsupported('boolean key of rank %d' % x.ndim)
                if not (x.shape[0] == n):
                    raise IndexError('boolean index did not match indexed '
                                     'array along dimension')
                vals = conc_bools(x).nonzero()[0].tolist()
            elif x.dtype.kind not in 'iu':
                if x.size == 0 and not isinstance(x, _real.ndarray):
                    vals = []
                else:
                    raise IndexError('arrays used as indices must be of '
                                     'integer (or boolean) type')
            elif x.ndim != 1:
                raise Unsupported('key of rank %d' % x.ndim)
            else:
                vals = x.flat_cells() if isinstance(x, Buf) else x.tolist()
        else:
            vals = []
            flags = [isinstance(v, (bool, _real.bool_, SymBool)) for v in x]
            if flags and all(flags):
                return self._seq(_real.array([bool(v) for v in x]), n, axis)
            for v in x:
                if isinstance(v, (bool, _real.bool_)):
                    v = int(v)
                if not isinstance(v, (int, _real.integer, SymInt)):
                    if isinstance(v, (list, tuple, Nd)):
                        raise Unsupported('nested sequence key')
                    raise IndexError('only integers are valid indices')
                vals.append(v)
        vals = [check_int(v, n, axis) for v in vals]

        def pos(i):
            if not vals:
                return 0            # never a valid position
            if isinstance(i, int):
                return vals[i]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = ite(i == j, vals[j], r)
            return r
        return len(vals), pos

    def _finish(self, plan):
        adv = [i for i, p in enumerate(plan) if p[0] == 'seq']
        if adv:
            advs = [i for i, p in enumerate(plan) if p[0] in ('seq', 'int')]
            length = None
            for i in adv:
                n = plan[i][2]
                if length is None or (isinstance(length, int) and
                                      length == 1):
                    length = n
                elif isinstance(n, int) and n == 1:
                    pass
                elif not (length == n):
                    if length == 1:
                        length = n
                    elif n == 1:
                        pass
                    else:
                        raise IndexError('shape mismatch: indexing arrays '
                                         'could not be broadcast together')
            contiguous = advs == list(range(advs[0], advs[-1] + 1))
            shape = []
            where = []      # per plan item: output axis or None
            adv_out = None
            if not contiguous:
                adv_out = 0
                shape.append(length)
            for i, p in enumerate(plan):
                if p[0] == 'new':
                    where.append(None)
                    shape.append(1)
                elif p[0] == 'slice':
                    where.append(len(shape))
                    shape.append(p[4])
                else:
                    if contiguous and i == advs[0]:
                        adv_out = len(shape)
                        shape.append(length)
                    where.append(None)
            ndim = self.ndim

            def fwd(idx):
                out = [None] * ndim
                for i, p in enumerate(plan):
                    if p[0] == 'slice':
                        out[p[1]] = p[2] + idx[where[i]] * p[3]
                    elif p[0] == 'int':
                        out[p[1]] = p[2]
                    elif p[0] == 'seq':
                        one = isinstance(p[2], int) and p[2] == 1
                        out[p[1]] = p[3](0 if one else idx[adv_out])
                return tuple(out)
            return tuple(shape), fwd, None, True, plan, where
        shape = []
        where = []
        for p in plan:
            if p[0] == 'new':
                where.append(len(shape))
                shape.append(1)
            elif p[0] == 'slice':
                where.append(len(shape))
                shape.append(p[4])
            else:
                where.append(None)
        ndim = self.ndim

        def fwd(idx):
            out = [None] * ndim
            for i, p in enumerate(plan):
                if p[0] == 'slice':
                    out[p[1]] = p[2] + idx[where[i]] * p[3]
                elif p[0] == 'int':
                    out[p[1]] = p[2]
            return tuple(out)

        n_out = len(shape)

        def inv(pidx):
            c = True
            out = [0] * n_out
            for i, p in enumerate(plan):
                if p[0] == 'int':
                    c = C.b_and(c, pidx[p[1]] == p[2])
                elif p[0] == 'slice':
                    d = pidx[p[1]] - p[2]
                    st = p[3]
                    if isinstance(st, int) and st == 1:
                        q = d
                    elif isinstance(st, int) and st == -1:
                        q = -d
                    else:
                        q = d // st
                        c = C.b_and(c, q * st == d)
                    c = C.b_and(c, C.b_and(q >= 0, q < p[4]))
                    out[where[i]] = q
                if c is False:
                    return False, None
            return c, tuple(out)
        return tuple(shape), fwd, inv, False, plan, where

    def __getitem__(self, k):
        shape, fwd, inv, is_copy, plan, where = self._plan(k)
        if not shape and not any(x is Ellipsis for x in key_items(k)):
            return cell_scalar(self.at(fwd(())), self.dtype)
        if is_copy:
            f = self.snapshot()
            return Pull(shape, self.dtype, lambda idx: f(fwd(idx)))
        return Pull(shape, self.dtype, parent=self, fwd=fwd, inv=inv)

    def __setitem__(self, k, v):
        if not self._writeable:
            raise ValueError('assignment destination is read-only')
        shape, fwd, inv, is_copy, plan, where = self._plan(k)
        if is_copy:
            raise Unsupported('assignment through integer sequences into an '
                              'array of symbolic shape')
        if isinstance(v, MArr):
            v = v._data
        v = lift(v, like=self.dtype)
        vf = broadcast_fn(v, shape, assign=True)
        src, dst = v.dtype, self.dtype
        if src != dst:
            raw = vf
            vf = lambda idx: C.cast(raw(idx), src, dst)  # noqa
        if plan and all(p[0] == 'slice' and isinstance(p[2], int) and
                        p[2] == 0 and
                        p[4] is self.shape[p[1]] for p in plan):
            self.write(lambda idx: True, vf)
            return
        self.write(lambda idx: inv(idx)[0], lambda idx: vf(inv(idx)[1]))

    def fill(self, v):
        v = lift(v, like=self.dtype)
        c = C.cast(v.item(), v.dtype, self.dtype)
        self.write(lambda idx: True, lambda idx: c)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or not
                               isinstance(axes[0], (int, SymInt))):
            axes = None if axes[0] is None else tuple(axes[0])
        n = self.ndim
        if not axes:
            axes = tuple(range(n))[::-1] if axes is None or n else ()
        axes = [int(a) for a in axes]
        if len(axes) != n:
            raise ValueError("axes don't match array")
        axes = [_real.core.multiarray.normalize_axis_index(a, n)
                for a in axes]
        if len(set(axes)) != n:
            raise ValueError('repeated axis in transpose')

        def fwd(idx):
            out = [None] * n
            for i, a in enumerate(axes):
                out[a] = idx[i]
            return tuple(out)

        def inv(pidx):
            return True, tuple(pidx[a] for a in axes)
        return Pull([self.shape[a] for a in axes], self.dtype, parent=self,
                    fwd=fwd, inv=inv)

    def swapaxes(self, a, b):
        axes = list(range(self.ndim))
        axes[a], axes[b] = axes[b], axes[a]
        return self.transpose(axes)

    def take(self, ind, axis=None, out=None, mode='raise'):
        if axis is None or mode != 'raise':
            return self.to_buf().take(ind, axis, out, mode)
        axis = int(axis)
        if axis < 0:
            axis += self.ndim
        if isinstance(ind, (int, SymInt, _real.integer)):
            return self[(slice(None),) * axis + (ind,)].copy()
        return self[(slice(None),) * axis + (ind,)]

    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dtype = _real.dtype(dtype)
        src = self.dtype
        f = self.snapshot()
        return Pull(self.shape, dtype,
                    lambda idx: C.cast(f(idx), src, dtype))

    def view(self, t=None):
        if t is None or t is _real.ndarray:
            return Pull(self.shape, self.dtype, parent=self,
                        fwd=lambda i: i, inv=lambda i: (True, i))
        if isinstance(t, type) and issubclass(t, _real.ma.MaskedArray):
            return MArr(self.view())
        raise Unsupported('view')

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and not isinstance(shape[0], (int, SymInt)):
            shape = tuple(shape[0])
        # Only the insertion or removal of unit dimensions, and -1.
        src = list(self.shape)
        if len(shape) == len(src) and all(
                isinstance(a, type(b)) and bool(a == b)
                for a, b in zip(shape, src)):
            return self
        return self.to_buf().reshape(shape)

    @property
    def flat(self):
        return self.to_buf().flat

    def item(self, *a):
        return self.to_buf().item(*a)

    def tolist(self):
        return self.to_buf().tolist()

    def __bool__(self):
        return bool(self.to_buf())

    def __float__(self):
        return float(self.to_buf())

    def __int__(self):
        return int(self.to_buf())

    def __index__(self):
        return self.to_buf().__index__()


def _delegate(name):
    def f(self, *a, **k):
        return getattr(self.to_buf(), name)(*a, **k)
    return f


for _n in ('sum', 'prod', 'min', 'max', 'all', 'any', 'mean', 'var', 'std',
           'cumsum', 'nonzero', 'ravel', 'flatten', 'squeeze', 'repeat',
           'compress', 'clip'):
    setattr(Pull, _n, _delegate(_n))


class PullFlags(object):
    def __init__(self, a):
        self.a = a

    @property
    def writeable(self):
        return self.a._writeable

    @writeable.setter
    def writeable(self, v):
        self.a._writeable = bool(v)


class Stride(object):
    def __init__(self, arr, axis):
        self.arr = arr
        self.axis = axis


def decided(t):
    """True/False when the path settles the condition, else None."""
    e = eng()
    if e.implied(t):
        return True
    if e.implied(T.not_(t)):
        return False
    return None


def dims_equal(a, b):
    if a is b:
        return True
    r = a == b
    return r if isinstance(r, bool) else bool(r)


def broadcast_fn(v, shape, assign=False):
    """Function of an index into `shape` reading the broadcast array v."""
    n = len(shape)
    vs = v.shape
    if len(vs) > n:
        if assign and all(dims_equal(d, 1) for d in vs[:len(vs) - n]):
            v = v[(0,) * (len(vs) - n)]
            v = lift(v)
            vs = v.shape
        else:
            raise ValueError('could not broadcast input array')
    off = n - len(vs)
    unit = []
    for i, d in enumerate(vs):
        if dims_equal(d, shape[off + i]):
            unit.append(False)
        elif dims_equal(d, 1):
            unit.append(True)
        else:
            raise ValueError('could not broadcast input array from shape '
                             'into shape')
    if isinstance(v, Pull):
        f = v.snapshot()
    else:
        f = buf_fn(v)
    return lambda idx: f(tuple(0 if u else idx[off + i]
                               for i, u in enumerate(unit)))


def buf_fn(b):
    """The contents of a Buf as a function of a symbolic index."""
    vals = b.flat_cells()
    shape = b.shape

    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            p = 0
            for i, n in zip(idx, shape):
                p = p * n + i
            return vals[p]
        p = 0
        for i, n in zip(idx, shape):
            p = i + p * n
        if not vals:
            return 0    # no index is in range
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = C.select(p == j, vals[j], r)
        return r
    return fn


# ------------------------------------------------------------------ ufuncs

_probe_cache = {}


def _probe(ufunc, specs, python):
    key = (ufunc, specs, python)
    r = _probe_cache.get(key)
    if r is None:
        args = []
        for (dt, scalar), py in zip(specs, python):
            if py is not None:
                args.append(py)
            elif scalar:
                args.append(dt.type(1))
            else:
                args.append(_real.ones(1, dtype=dt))
        try:
            with _real.errstate(all='ignore'):
                r = ('ok', _real.asarray(ufunc(*args)).dtype)
        except Exception as e:
            r = ('err', e)
        _probe_cache[key] = r
    if r[0] == 'err':
        raise type(r[1])(*r[1].args)
    return r[1]


def result_dtype(ufunc, args, lifted):
    specs = []
    python = []
    for a, b in zip(args, lifted):
        scalar = b.is_scalar or not b.shape
        # Value-based casting looks at constants.
        if isinstance(a, (bool, int, float, complex)):
            python.append(a)
        elif scalar and isinstance(b, Buf) and not isinstance(
                b.item(), Sym) and b.dtype.kind in 'iuf' and \
                isinstance(b.item(), int):
            python.append(b.dtype.type(b.item()))
        else:
            python.append(None)
        specs.append((b.dtype, scalar))
    try:
        hash(tuple(python))
    except TypeError:
        python = [None] * len(python)
    return _probe(ufunc, tuple(specs), tuple(python))


def ufunc_call(name, args, out=None, ufunc=None, where=None, dtype=None,
               casting='same_kind'):
    ufunc = ufunc or getattr(_real, name)
    if where is not None and where is not True:
        raise Unsupported('ufunc where=')
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(out, MArr):
        return ma_inplace(name, out, args[1])
    if any(isinstance(a, MArr) or a is _real.ma.masked for a in args):
        return ma_wrap(name, ufunc, args)
    lifted = [lift(a) for a in args]
    if any(isinstance(a, MArr) for a in lifted):
        return ma_wrap(name, ufunc, lifted)
    out_dt = result_dtype(ufunc, args, lifted)
    if dtype is not None:
        out_dt = _real.dtype(dtype)
    in_dts = tuple(a.dtype for a in lifted)
    if any(isinstance(a, Pull) for a in lifted):
        if any(isinstance(a, Buf) and a.shape for a in lifted):
            lifted = [a.to_buf() if isinstance(a, Pull) else a
                      for a in lifted]
            if isinstance(out, Pull):
                r = lift(ufunc_call(name, lifted, ufunc=ufunc))
                if not _real.can_cast(r.dtype, out.dtype, casting):
                    raise TypeError('Cannot cast ufunc output')
                out[...] = r
                return out
        else:
            return _pull_ufunc(name, ufunc, lifted, out_dt, in_dts, out)
    try:
        idxs = _real.broadcast_arrays(*[a.idx for a in lifted])
    except ValueError:
        raise ValueError('operands could not be broadcast together with '
                         'shapes ' + ' '.join(str(a.shape) for a in lifted))
    shape = idxs[0].shape
    lists = [i.ravel().tolist() for i in idxs]
    stores = [a.cells for a in lifted]
    vals = []
    if len(lifted) == 1:
        c0 = stores[0]
        for i in lists[0]:
            vals.append(C.apply_ufunc(name, ufunc, out_dt, in_dts, (c0[i],)))
    else:
        for ii in zip(*lists):
            vals.append(C.apply_ufunc(
                name, ufunc, out_dt, in_dts,
                tuple(c[i] for c, i in zip(stores, ii))))
    if out is not None:
        if not isinstance(out, Nd):
            if isinstance(out, _real.ndarray):
                raise Unsupported('in-place update of a real array with '
                                  'symbolic values')
            out = lift(out)
        if out.is_scalar:
            return _scalar_result(Buf.make(shape, out_dt, vals), True)
        if not _real.can_cast(out_dt, out.dtype, casting):
            raise TypeError('Cannot cast ufunc %r output from %r to %r with '
                            'casting rule %r' % (name, out_dt, out.dtype,
                                                 casting))
        if shape != out.shape:
            raise ValueError('non-broadcastable output operand with shape %s '
                             "doesn't match the broadcast shape %s"
                             % (out.shape, shape))
        if not out.idx.flags.writeable:
            raise ValueError('output array is read-only')
        for i, v in zip(out.idx.ravel().tolist(), vals):
            out.cells[i] = C.cast(v, out_dt, out.dtype)
        return out
    r = Buf.make(shape, out_dt, vals)
    return _scalar_result(r, not shape)


def _scalar_result(r, scalar):
    if scalar and not r.shape:
        return cell_scalar(r.cells[int(r.idx)], r.dtype)
    return r


def _pull_ufunc(name, ufunc, lifted, out_dt, in_dts, out):
    n = builtins.max(len(a.shape) for a in lifted)
    shape = [1] * n
    for a in lifted:
        off = n - len(a.shape)
        for i, d in enumerate(a.shape):
            s = shape[off + i]
            if isinstance(s, int) and s == 1:
                shape[off + i] = d
            elif isinstance(d, int) and d == 1:
                pass
            elif not dims_equal(s, d):
                if dims_equal(s, 1):
                    shape[off + i] = d
                elif not dims_equal(d, 1):
                    raise ValueError('operands could not be broadcast '
                                     'together with shapes')
    fns = [broadcast_fn(a, tuple(shape)) for a in lifted]

    def fn(idx):
        return C.apply_ufunc(name, ufunc, out_dt, in_dts,
                             tuple(f(idx) for f in fns))
    if out is not None:
        if not _real.can_cast(out_dt, out.dtype, 'same_kind'):
            raise TypeError('Cannot cast ufunc output')
        dst = out.dtype
        out.write(lambda i: True, lambda i: C.cast(fn(i), out_dt, dst))
        return out
    return Pull(shape, out_dt, fn)


# --------------------------------------------------------------- reductions

_identity = {'add': 0, 'multiply': 1, 'logical_and': True,
             'logical_or': False}


def norm_axes(axis, ndim):
    if axis is None:
        return list(range(ndim))
    if isinstance(axis, (tuple, list)):
        return [_norm_axis(a, ndim) for a in axis]
    return [_norm_axis(axis, ndim)]


def _norm_axis(a, ndim):
    return _real.core.multiarray.normalize_axis_index(int(a), ndim)


def reduce_call(name, a, axis, dtype=None, out=None, keepdims=False):
    if isinstance(a, Pull):
        a = a.to_buf()
    a = lift(a)
    if out is not None:
        out[...] = reduce_call(name, a, axis, dtype or out.dtype, None,
                               keepdims)
        return out
    ufunc = getattr(_real, name)
    axes = norm_axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    one = _real.ones((1,) * builtins.max(a.ndim, 1), a.dtype)
    if dtype is not None:
        dt = _real.dtype(dtype)
    elif a.dtype.kind == 'O':
        dt = a.dtype
    else:
        dt = _real.asarray(ufunc.reduce(one, axis=0)).dtype
    moved = a.idx.transpose(keep + axes)
    kshape = tuple(a.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= a.shape[i]
    if n == 0 and name not in _identity:
        size = 1
        for d in kshape:
            size *= d
        if size:
            raise ValueError('zero-size array to reduction operation %s '
                             'which has no identity' % name)
    rows = moved.reshape(-1, n).tolist() if n else \
        [[] for _ in range(int(_real.prod(kshape, dtype=int)))]
    vals = []
    src = a.dtype
    for row in rows:
        acc = None
        for i in row:
            c = a.cells[i]
            if name not in ('logical_and', 'logical_or'):
                c = C.cast(c, src, dt)
            if acc is None:
                acc = C.truth(c) if name.startswith('logical') else c
            elif dt.kind == 'O' and name in ('add', 'multiply'):
                # Python's own integers: they do not overflow.
                acc = acc + c if name == 'add' else acc * c
            elif name in ('logical_and', 'logical_or'):
                acc = C.apply_ufunc(name, ufunc, dt, (dt, src), (acc, c))
            else:
                acc = C.apply_ufunc(name, ufunc, dt, (dt, dt), (acc, c))
        if acc is None:
            acc = C.from_py(_identity[name], dt)
        vals.append(acc)
    if keepdims:
        kshape = tuple(1 if i in axes else d for i, d in enumerate(a.shape))
    r = Buf.make(kshape, dt, vals)
    return _scalar_result(r, not kshape)


# ------------------------------------------------------------------- masked

nomask = _real.ma.nomask
masked = _real.ma.masked


def proto_like(x):
    """A tiny real masked array carrying dtype and fill value."""
    if isinstance(x, MArr):
        p = x.proto
        q = _real.ma.masked_array(_real.zeros(1, p.dtype))
        q._fill_value = None if p._fill_value is None else \
            p._fill_value.copy()
        return q
    q = _real.ma.masked_array(_real.zeros(1, x.dtype))
    fv = getattr(x, '_fill_value', None)
    if fv is not None:
        q._fill_value = _real.array(fv)
    return q


class MArr(Nd):
    __array_priority__ = 15

    def __init__(self, data, mask=nomask, proto=None):
        self._data = data
        self._mask = mask
        self.proto = proto
        if proto is None:
            self.proto = _real.ma.masked_array(_real.zeros(1, data.dtype))
        self._sharedmask = False
        self._hardmask = False
        self.is_scalar = False

    def _wrap(self, data, mask):
        r = MArr(data, mask, proto_like(self))
        r._sharedmask = True
        return r

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def shape(self):
        return self._data.shape

    @shape.setter
    def shape(self, s):
        self._data.shape = s
        if self._mask is not nomask:
            # As in NumPy: the mask is a view of its own.
            m = self._mask._like(self._mask.idx.view())
            m.shape = s
            self._mask = m

    @property
    def data(self):
        return self._data.view()

    @property
    def mask(self):
        if self._mask is nomask:
            return nomask
        return self._mask.view()

    @mask.setter
    def mask(self, m):
        self.__setmask__(m)

    def __setmask__(self, m, copy=False):
        if m is masked:
            m = True
        if self._mask is nomask:
            if m is nomask:
                return
            self._mask = full_like_data(self._data, False)
        if isinstance(m, (int, float, bool, _real.bool_, _real.number,
                          SymBool)):
            self._mask[...] = m
            return
        m = lift(m)
        if isinstance(m, MArr):
            m = m._data
        if isinstance(self._mask, Pull):
            if len(m.shape) == len(self._mask.shape):
                self._mask[...] = m
                return
            raise Unsupported('mask assignment')
        if isinstance(m, Pull):
            m = m.to_buf()
        m = m.astype(bool)
        _flat_assign(self._mask, self._mask.idx.ravel().tolist(), m)

    @property
    def fill_value(self):
        return self.proto.fill_value

    @fill_value.setter
    def fill_value(self, v):
        self.proto.fill_value = v

    @property
    def _fill_value(self):
        return self.proto._fill_value

    def set_fill_value(self, v):
        self.proto.set_fill_value(v)

    @property
    def flags(self):
        return self._data.flags

    @property
    def strides(self):
        return self._data.strides

    def __bool__(self):
        if self.size == 1:
            m = getmaskarray(self).item()
            if bool(C.truth(m)):
                return False
        return bool(self._data)

    def __float__(self):
        return float(self._data)

    def __int__(self):
        return int(self._data)

    # ------------------------------------------------------- indexing
    def __getitem__(self, k):
        d = self._data[k]
        if self._mask is nomask:
            if isinstance(d, Nd) and not d.is_scalar:
                r = self._wrap(d, nomask)
                return r
            return d
        m = self._mask[k]
        if isinstance(d, Nd) and not d.is_scalar:
            return self._wrap(d, m)
        if bool(C.truth(m) if not isinstance(m, Nd) else C.truth(m.item())):
            return masked
        return d

    def __setitem__(self, k, v):
        if v is masked:
            if self._mask is nomask:
                self._mask = full_like_data(self._data, False)
            self._mask[k] = True
            return
        if isinstance(v, _real.ma.MaskedArray):
            v = lift_masked(v)
        if isinstance(v, (list, tuple)) or not isinstance(
                v, (Nd, Sym, _real.ndarray, _real.generic, int, float, str,
                    bytes, complex)):
            v = lift(v)
        dval = v._data if isinstance(v, MArr) else v
        mval = v._mask if isinstance(v, MArr) else nomask
        if self._mask is nomask:
            self._data[k] = dval
            if mval is not nomask:
                self._mask = full_like_data(self._data, False)
                self._mask[k] = mval
        else:
            self._data[k] = dval
            self._mask[k] = False if mval is nomask else mval

    # ------------------------------------------------------ structure
    def _both(self, f):
        d = f(self._data)
        m = nomask if self._mask is nomask else f(self._mask)
        if not isinstance(d, Nd):
            if m is nomask or not bool(C.truth(m)):
                return d
            return masked
        return self._wrap(d, m)

    def transpose(self, *a):
        return self._both(lambda x: x.transpose(*a))

    def reshape(self, *a, **k):
        return self._both(lambda x: x.reshape(*a, **k))

    def ravel(self, *a):
        return self._both(lambda x: x.ravel(*a))

    def flatten(self, *a):
        return self._both(lambda x: x.flatten(*a))

    def copy(self, *a):
        r = self._both(lambda x: x.copy())
        r._sharedmask = False
        return r

    def squeeze(self, *a, **k):
        return self._both(lambda x: x.squeeze(*a, **k))

    def swapaxes(self, *a):
        return self._both(lambda x: x.swapaxes(*a))

    def repeat(self, *a, **k):
        return self._both(lambda x: x.repeat(*a, **k))

    def take(self, ind, axis=None, out=None, mode='raise'):
        return self._both(lambda x: x.take(ind, axis=axis, mode=mode))

    def compress(self, cond, axis=None):
        return self._both(lambda x: x.compress(cond, axis))

    def view(self, t=None):
        if t is None or t is _real.ma.MaskedArray:
            return self._wrap(self._data.view(), self._mask)
        if t is _real.ndarray:
            return self._data.view()
        raise Unsupported('view')

    def astype(self, dtype, **k):
        d = self._data.astype(dtype)
        r = MArr(d, self._mask if self._mask is nomask
                 else self._mask.copy(), self.proto.astype(dtype))
        return r

    @property
    def flat(self):
        if self._mask is nomask:
            return self._data.flat
        raise Unsupported('MaskedArray.flat')

    def fill(self, v):
        # ndarray.fill: the mask is left alone.
        self._data.fill(v)

    def filled(self, fill_value=None):
        if fill_value is None:
            fill_value = self.fill_value
        else:
            fill_value = check_fill(fill_value, self.dtype)
        if self._mask is nomask:
            return self._data
        fv = lift(fill_value, like=self.dtype)
        c = C.cast(fv.item(), fv.dtype, self.dtype)
        if isinstance(self._data, Pull) or isinstance(self._mask, Pull):
            fd = pull_fn(self._data)
            fm = pull_fn(self._mask)
            return Pull(self.shape, self.dtype,
                        lambda idx: C.select(fm(idx), c, fd(idx)))
        vals = [C.select(m, c, d) for m, d in
                zip(self._mask.flat_cells(), self._data.flat_cells())]
        return Buf.make(self.shape, self.dtype, vals)

    def compressed(self):
        d = self._data.ravel()
        if self._mask is not nomask:
            d = d.compress(conc_bools(self._mask.ravel()) == False)  # noqa
        return d

    def tolist(self):
        raise Unsupported('MaskedArray.tolist')

    def item(self, *a):
        return self._data.item(*a)

    def count(self, axis=None, keepdims=False):
        m = getmaskarray(self)
        if isinstance(m, Pull):
            m = m.to_buf()
        return reduce_call('add', ufunc_call('logical_not', [m]).astype(
            _real.intp) if m.shape else lift(C.b_not(m.item())).astype(
                _real.intp), axis, _real.intp, None, keepdims)

    # ------------------------------------------------------ reductions
    def _axis_mask(self, axis, keepdims=False):
        if self._mask is nomask:
            return nomask
        return reduce_call('logical_and', self._mask, axis,
                           keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        newmask = self._axis_mask(axis, keepdims)
        r = self.filled(0).sum(axis, dtype=dtype, keepdims=keepdims)
        return self._reduced(r, newmask)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        newmask = self._axis_mask(axis, keepdims)
        r = self.filled(1).prod(axis, dtype=dtype, keepdims=keepdims)
        return self._reduced(r, newmask)

    def _reduced(self, r, newmask):
        if isinstance(r, Nd) and r.shape:
            m = MArr(r, nomask, _real.ma.masked_array(_real.zeros(
                1, r.dtype)))
            if newmask is not nomask:
                m.__setmask__(newmask)
            return m
        if newmask is not nomask and bool(C.truth(
                newmask.item() if isinstance(newmask, Nd) else newmask)):
            return masked
        return r

    def _extreme(self, name, axis, keepdims):
        newmask = self._axis_mask(axis, keepdims)
        a = self._data
        if isinstance(a, Pull):
            a = a.to_buf()
        if self._mask is nomask:
            r = reduce_call(name, a, axis, keepdims=keepdims)
            return self._reduced(r, nomask)
        fill = (_real.ma.minimum_fill_value if name == 'minimum' else
                _real.ma.maximum_fill_value)(a.dtype)
        fc = C.from_py(fill, a.dtype)
        mk_ = self._mask.to_buf() if isinstance(self._mask, Pull) \
            else self._mask
        axes = norm_axes(axis, a.ndim)
        keep = [i for i in range(a.ndim) if i not in axes]
        kshape = tuple(a.shape[i] for i in keep)
        n = 1
        for i in axes:
            n *= a.shape[i]
        if n == 0:
            r = reduce_call(name, a, axis, keepdims=keepdims)
            return self._reduced(r, newmask)
        rows = a.idx.transpose(keep + axes).reshape(-1, n).tolist()
        mrows = mk_.idx.transpose(keep + axes).reshape(-1, n).tolist()
        vals = []
        f = C.EXACT[name]
        for row, mrow in zip(rows, mrows):
            acc = None
            have = False        # an unmasked element was seen
            for i, j in zip(row, mrow):
                c = a.cells[i]
                ok = C.b_not(mk_.cells[j])
                if acc is None:
                    acc, have = c, ok
                    continue
                both = f(a.dtype, acc, c)
                acc = C.select(C.b_and(have, ok), both,
                               C.select(ok, c, acc))
                have = C.b_or(have, ok)
            vals.append(C.select(have, acc, fc)
                        if not C.nonfinite(fc) else acc)
        if keepdims:
            kshape = tuple(1 if i in axes else d
                           for i, d in enumerate(a.shape))
        r = Buf.make(kshape, a.dtype, vals)
        return self._reduced(_scalar_result(r, not kshape), newmask)

    def min(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._extreme('minimum', axis, keepdims)

    def max(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._extreme('maximum', axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        newmask = self._axis_mask(axis, keepdims)
        return self._reduced(self.filled(True).all(axis, keepdims=keepdims),
                             newmask)

    def any(self, axis=None, out=None, keepdims=False):
        newmask = self._axis_mask(axis, keepdims)
        return self._reduced(self.filled(False).any(axis,
                                                    keepdims=keepdims),
                             newmask)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        if dtype is None and self.dtype.kind in 'biu':
            dtype = _real.dtype(float)
        s = self.sum(axis, dtype=dtype)
        return ma_binary('true_divide', s, self.count(axis))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        cnt = self.count(axis)
        m = self.mean(axis)
        if axis is not None and isinstance(m, Nd):
            m = MArr(lift(m._data), m._mask) if isinstance(m, MArr) else m
            k = (slice(None),) * _norm_axis(axis, self.ndim) + (None,)
            m = m[k]
        d = ma_binary('subtract', self, m)
        d = ma_binary('multiply', d, d)
        s = d.sum(axis)
        den = ufunc_call('subtract', [cnt, ddof])
        bad = ufunc_call('less_equal', [den, 0])
        r = ma_binary('true_divide', s, den)
        if isinstance(r, MArr):
            r._mask = lift(ufunc_call('logical_or',
                                      [getmaskarray(r), bad]))
        return r

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return ma_unary('sqrt', self.var(axis, dtype, None, ddof))

    def _ibin(self, name, other):
        return ma_inplace(name, self, other)

    def _un(self, name):
        return ma_unary(name, self)


def check_fill(fv, dtype):
    return _real.ma.core._check_fill_value(fv, _real.dtype(dtype))


def pull_fn(a):
    if isinstance(a, Pull):
        return a.snapshot()
    return buf_fn(a)


def full_like_data(data, v):
    """A fresh boolean array of the shape of `data`."""
    dt = _real.dtype(bool)
    if isinstance(data, Pull):
        return Pull(data.shape, dt, lambda idx: v)
    return Buf.make(data.shape, dt, [v] * data.idx.size)


def getmask(x):
    if isinstance(x, MArr):
        return x._mask
    return _real.ma.getmask(x)


def getmaskarray(x):
    if isinstance(x, MArr):
        if x._mask is nomask:
            return full_like_data(x._data, False)
        return x._mask
    if isinstance(x, Nd):
        return full_like_data(x, False)
    return from_real(_real.ma.getmaskarray(x))


def getdata(x):
    if isinstance(x, MArr):
        return x._data
    if isinstance(x, _real.ma.MaskedArray):
        return lift_masked(x)._data
    return x


_MA_DOMAINED = ('true_divide', 'divide', 'floor_divide', 'remainder', 'fmod',
                'mod')


def _mask_or(ms):
    ms = [m for m in ms if m is not nomask]
    if not ms:
        return nomask
    r = ms[0]
    for m in ms[1:]:
        r = ufunc_call('logical_or', [r, m])
    return r


def _norm_operand(x):
    if isinstance(x, _real.ma.MaskedArray):
        return lift_masked(x)
    return x


def _is0d(r):
    return not (isinstance(r, Nd) and r.shape)


def _bit(m):
    if isinstance(m, Nd):
        m = m.item()
    return bool(C.truth(m))


def _ma_result(r, m, args, protofrom=None):
    r = lift(r)
    out = MArr(r, m)
    for a in args:
        if isinstance(a, MArr):
            p = proto_like(a)
            try:
                out.proto = p if p.dtype == r.dtype else p.astype(r.dtype)
            except (TypeError, ValueError, OverflowError):
                pass
            break
    return out


def _mask_data(r, m, orig):
    """Where masked, keep the first operand's data, as np.ma does."""
    if m is nomask:
        return r
    return where(m, lift(orig), r)


def where(c, a, b):
    """np.where on models, result of dtype of b when it can hold it."""
    a, b, c = lift(a), lift(b), lift(c)
    dt = _real.result_type(a.dtype, b.dtype) if a.dtype != b.dtype \
        else a.dtype
    da, db = a.dtype, b.dtype
    if any(isinstance(x, Pull) for x in (a, b, c)):
        if not any(isinstance(x, Buf) and x.shape for x in (a, b, c)):
            n = builtins.max(len(x.shape) for x in (a, b, c))
            shape = None
            for x in (a, b, c):
                if isinstance(x, Pull) and len(x.shape) == n:
                    shape = x.shape
            fa, fb, fc = [broadcast_fn(x, shape) for x in (a, b, c)]
            return Pull(shape, dt, lambda i: C.select(
                C.truth(fc(i)), C.cast(fa(i), da, dt),
                C.cast(fb(i), db, dt)))
        a, b, c = [x.to_buf() if isinstance(x, Pull) else x
                   for x in (a, b, c)]
    ia, ib, ic = _real.broadcast_arrays(a.idx, b.idx, c.idx)
    vals = []
    for i, j, k in zip(ia.ravel().tolist(), ib.ravel().tolist(),
                       ic.ravel().tolist()):
        vals.append(C.select(C.truth(c.cells[k]),
                             C.cast(a.cells[i], da, dt),
                             C.cast(b.cells[j], db, dt)))
    return Buf.make(ia.shape, dt, vals)


def ma_binary(name, a, b):
    """np.ma's binary functions and MaskedArray operators."""
    a, b = _norm_operand(a), _norm_operand(b)
    if name == 'remainder':
        name = 'remainder'
    da, db = getdata(a), getdata(b)
    ma_, mb = getmask(a), getmask(b)
    if name == 'power':
        r = ufunc_call('power', [da, db])
        m = _mask_or([ma_, mb])
        if _is0d(r):
            return masked if m is not nomask and _bit(m) else r
        return _ma_result(r, m, (a, b))
    r = ufunc_call(name, [da, db])
    if name in _MA_DOMAINED:
        zero = ufunc_call('equal', [db, 0])
        m = _mask_or([lift(zero), ma_, mb])
        if _is0d(r):
            return masked if _bit(m) else r
        m = _broadcast_mask(m, r)
        orig = lift(da)
        if r.dtype != orig.dtype and not _real.can_cast(
                orig.dtype, r.dtype, 'safe'):
            orig = lift(0)
        return _ma_result(_fit(where(m, orig, r), r.dtype), m, (a, b))
    m = _mask_or([ma_, mb])
    if m is not nomask:
        if ma_ is nomask or mb is nomask:
            m = _broadcast_mask(m, r)
    if _is0d(r):
        if m is not nomask and _bit(m):
            return masked
        return r
    if m is not nomask:
        m = _broadcast_mask(m, r)
        r0 = r
        r = _fit(where(m, lift(da), r), r0.dtype)
    return _ma_result(r, m, (a, b))


def _fit(x, dt):
    return x if x.dtype == dt else x.astype(dt)


def _broadcast_mask(m, r):
    m = lift(m)
    r = lift(r)
    if len(m.shape) == len(r.shape) and all(
            x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
            for x, y in zip(m.shape, r.shape)):
        return m
    if isinstance(r, Pull) or isinstance(m, Pull):
        f = broadcast_fn(m, r.shape)
        return Pull(r.shape, m.dtype, f)
    return Buf(m.cells, _real.broadcast_to(m.idx, r.shape), m.dtype).copy()


# Where np.ma's functions of limited domain are valid.
_INTERVAL = {'arcsin': (-1.0, 1.0), 'arccos': (-1.0, 1.0),
             'arccosh': (1.0, None), 'arctanh': (-1.0 + 1e-15, 1.0 - 1e-15)}


def ma_unary(name, a):
    a = _norm_operand(a)
    if a is masked:
        return masked
    da = getdata(a)
    m = getmask(a)
    r = ufunc_call(name, [da])
    if name == 'sqrt':
        bad = ufunc_call('less', [da, 0])
        m = _mask_or([lift(bad), m])
    elif name in ('log', 'log2', 'log10'):
        m = _mask_or([lift(ufunc_call('less_equal', [da, 0])), m])
    elif name in _INTERVAL:
        lo, hi = _INTERVAL[name]
        if lo is not None:
            m = _mask_or([lift(ufunc_call('less', [da, lo])), m])
        if hi is not None:
            m = _mask_or([lift(ufunc_call('greater', [da, hi])), m])
    elif name == 'tan':
        c = ufunc_call('absolute', [ufunc_call('cos', [da])])
        m = _mask_or([lift(ufunc_call('less', [c, 1e-35])), m])
    if _is0d(r):
        if m is not nomask and _bit(m):
            return masked
        return r
    if m is not nomask:
        m = _broadcast_mask(m, r)
        r = _fit(where(m, lift(da), r), r.dtype) \
            if _real.can_cast(lift(da).dtype, r.dtype, 'same_kind') else r
    return _ma_result(r, m, (a,))


def ma_inplace(name, a, other):
    other = _norm_operand(other)
    m = getmask(other)
    if name.startswith('bitwise') or name.startswith('logical'):
        # The plain ufunc: np.ma has no such in-place operators.
        ufunc_call(name, [a._data, getdata(other)], out=a._data)
        a._mask = _mask_or([a._mask, m])
        a._sharedmask = False
        return a
    if a._mask is nomask:
        if m is not nomask:
            a._mask = full_like_data(a._data, False)
            a._mask[...] = m
    elif m is not nomask:
        ufunc_call('logical_or', [a._mask, m], out=a._mask)
    od = getdata(other)
    unit = {'add': 0, 'subtract': 0}.get(name, 1)
    if name in ('true_divide', 'floor_divide'):
        dom = lift(ufunc_call('equal', [od, 0]))
        newm = _mask_or([dom, m])
        od = where(dom, lift(1), lift(od))
        if a._mask is nomask:
            a._mask = full_like_data(a._data, False)
        ufunc_call('logical_or', [a._mask, newm], out=a._mask)
    if a._mask is not nomask:
        lo = lift(od)
        od = where(a._mask, lift(a.dtype.type(unit)), lo)
    r = ufunc_call(name, [a._data, od], out=a._data)
    if r is not a._data:
        a._data = r
    return a


def ma_wrap(name, ufunc, args):
    """A plain ufunc applied to masked arrays (via __array_wrap__)."""
    args = [_norm_operand(a) for a in args]
    r = ufunc_call(name, [getdata(a) for a in args], ufunc=ufunc)
    ms = [getmaskarray(a) if isinstance(a, MArr) else nomask for a in args]
    m = _mask_or(ms)
    if name in ('sqrt', 'log', 'log2', 'log10'):
        bad = ufunc_call('less' if name == 'sqrt' else 'less_equal',
                         [getdata(args[0]), 0])
        m = _mask_or([m, lift(bad)])
    if name in _MA_DOMAINED:
        m = _mask_or([m, lift(ufunc_call('equal', [getdata(args[1]), 0]))])
    if _is0d(r):
        if m is not nomask and _bit(m):
            return masked
        return r
    if m is not nomask:
        m = _broadcast_mask(m, r)
    return _ma_result(r, m, args)


def _array_op(name, a, b):
    if isinstance(a, _real.ma.MaskedArray) or isinstance(
            b, _real.ma.MaskedArray):
        return ma_binary(name, a, b)
    return ufunc_call(name, [a, b])


def _install():
    from . import engine
    engine.ARRAY_OP[0] = _array_op


_install()


def _scalar_method(name):
    def f(self, *args, **kw):
        return getattr(lift(self), name)(*args, **kw)
    f.__name__ = name
    return f


# NumPy scalars have the methods of arrays.
for _cls in (SymInt, SymReal, SymBool):
    for _name in ('flatten', 'ravel', 'reshape', 'item', 'astype'):
        if not hasattr(_cls, _name):
            setattr(_cls, _name, _scalar_method(_name))
