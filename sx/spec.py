"""
The oracle: what an array ought to contain, as a function of the index.

Nothing here uses the code under test or NumPy's array machinery.  A `Spec`
is a shape, a type and two functions from an index tuple to a value (see
`cells`) and to a mask bit.  The same definitions run on symbolic values
(during checking) and on plain ones (during replay on the real code).
"""
from fractions import Fraction

import numpy as np

from . import term as T
from . import cells as C
from .engine import Sym, SymInt, mk, mkbool, num_term, ite
from .seq import plain, slice_indices, range_len


class Spec(object):
    def __init__(self, shape, dtype, fn, mask=None, fill=None):
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.fn = fn
        self.mask = mask        # None: no masking at all
        self.fill = fill        # fill value of masked data, or None

    @property
    def ndim(self):
        return len(self.shape)

    def m(self, idx):
        return False if self.mask is None else self.mask(idx)

    def _with(self, shape, remap):
        """New spec reading this one through an index map."""
        f, m = self.fn, self.mask
        return Spec(shape, self.dtype, lambda i: f(remap(i)),
                    None if m is None else (lambda i: m(remap(i))),
                    self.fill)

    # --------------------------------------------------------- structure
    def index(self, keys):
        """Apply keys dimension by dimension (orthogonally)."""
        if not isinstance(keys, tuple):
            keys = (keys,)
        keys = full_keys(keys, self.ndim)
        shape = []
        picks = []      # per source dimension: function of the new index
        d = 0
        for k in keys:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[d]
            d += 1
            kind = key_kind(k)
            if kind == 'int':
                p = norm_index(k, n)
                picks.append((lambda p: lambda i: p)(p))
            elif kind == 'slice':
                s, e, st = slice_indices(k, n)
                pos = len(shape)
                shape.append(range_len(s, e, st))
                picks.append((lambda pos, s, st: lambda i: s + i[pos] * st)(
                    pos, s, st))
            elif kind == 'bool':
                sel = [j for j, b in enumerate(k) if b]
                pos = len(shape)
                shape.append(len(sel))
                picks.append((lambda pos, sel: lambda i:
                              choose(sel, i[pos]))(pos, sel))
            else:
                sel = [norm_index(j, n) for j in seq_items(k)]
                pos = len(shape)
                shape.append(len(sel))
                picks.append((lambda pos, sel: lambda i:
                              choose(sel, i[pos]))(pos, sel))
        return self._with(shape, lambda i: tuple(p(i) for p in picks))

    def transpose(self, axes=None):
        n = self.ndim
        if axes is None:
            axes = tuple(range(n))[::-1]
        axes = tuple(a + n if a < 0 else a for a in axes)
        shape = [self.shape[a] for a in axes]
        inv = [0] * n
        for j, a in enumerate(axes):
            inv[a] = j
        return self._with(shape, lambda i: tuple(i[inv[a]]
                                                 for a in range(n)))

    def newaxes(self, places):
        """`places`: for each result dimension, True when it is new."""
        shape = []
        keep = []
        it = iter(self.shape)
        for j, new in enumerate(places):
            if new:
                shape.append(1)
            else:
                shape.append(next(it))
                keep.append(j)
        return self._with(shape, lambda i: tuple(i[j] for j in keep))

    def broadcast(self, shape):
        """NumPy broadcasting of this array to `shape`.

        Dimensions of length one must be plain ints (the harness decides
        which they are).
        """
        lead = len(shape) - self.ndim
        one = [isinstance(n, int) and n == 1 for n in self.shape]

        def remap(i):
            return tuple(0 if one[d] else i[lead + d]
                         for d in range(self.ndim))
        return self._with(shape, remap)

    def cast(self, dtype):
        dtype = np.dtype(dtype)
        f, src = self.fn, self.dtype
        return Spec(self.shape, dtype, lambda i: C.cast(f(i), src, dtype),
                    self.mask, None)

    def mask_equal(self, value):
        f, m = self.fn, self.m

        def mask(i):
            return C.b_or(m(i), f(i) == value)
        return Spec(self.shape, self.dtype, f, mask, value)

    def filled(self, fill=None):
        """Plain array: masked elements replaced by the fill value."""
        if self.mask is None:
            return self
        if fill is None:
            fill = self.fill
        if fill is None:
            fill = default_fill(self.dtype)
        c = C.from_py(fill, self.dtype)
        f, m = self.fn, self.mask
        return Spec(self.shape, self.dtype,
                    lambda i: C.select(m(i), c, f(i)))

    # ------------------------------------------------------- reductions
    def reduce(self, axis, dtype, f, masked=False):
        """
        `f(cells)` over the plain values along `axis`; with masked=True
        `f([(value, masked bit)])` giving (value, masked bit).
        """
        n = self.shape[axis]
        shape = self.shape[:axis] + self.shape[axis + 1:]

        def at(i, j):
            return tuple(i[:axis]) + (j,) + tuple(i[axis:])
        memo = {}

        def compute(i):
            k = tuple(num_term(x) for x in i)
            if k not in memo:
                if masked:
                    memo[k] = f([(self.fn(at(i, j)), self.m(at(i, j)))
                                 for j in range(n)])
                else:
                    memo[k] = (f([self.fn(at(i, j)) for j in range(n)]),
                               False)
            return memo[k]
        return Spec(shape, dtype, lambda i: compute(i)[0],
                    (lambda i: compute(i)[1]) if masked else None)


def default_fill(dtype):
    return np.ma.default_fill_value(np.dtype(dtype))


def constant(shape, value, dtype):
    dtype = np.dtype(dtype)
    c = C.from_py(value, dtype)
    return Spec(shape, dtype, lambda i: c)


def full_keys(keys, ndim):
    """Expand Ellipsis and missing trailing keys."""
    n = len([k for k in keys if k is not None and k is not Ellipsis])
    out = []
    seen = False
    for k in keys:
        if k is Ellipsis:
            if not seen:
                out.extend([slice(None)] * (ndim - n))
                seen = True
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (ndim - n))
    return out


def key_kind(k):
    if isinstance(k, (int, np.integer, SymInt)) and not isinstance(k, bool):
        return 'int'
    if isinstance(k, slice):
        return 'slice'
    if isinstance(k, np.ndarray) and k.dtype == bool:
        return 'bool'
    return 'seq'


def seq_items(k):
    from .arr import Buf
    if isinstance(k, Buf):
        return k.flat_cells()
    return [int(i) if isinstance(i, np.integer) else i for i in k]


def norm_index(k, n):
    k = plain(k) if isinstance(k, SymInt) else int(k)
    return ite(k < 0, k + n, k)


def choose(seq, i):
    """seq[i] for a possibly symbolic i."""
    if not isinstance(i, SymInt):
        return seq[i] if -len(seq) <= i < len(seq) else 0
    if not seq:
        return 0
    r = seq[-1]
    for j in range(len(seq) - 2, -1, -1):
        r = ite(i == j, seq[j], r)
    return r


def _merge(c, a, b, dtype):
    return C.select(c, a, b)


def concat(specs, axis):
    """Concatenation along an axis."""
    specs = list(specs)
    offs = [0]
    for s in specs:
        offs.append(offs[-1] + s.shape[axis])
    shape = list(specs[0].shape)
    shape[axis] = offs[-1]

    def locate(i, get):
        p = i[axis]
        r = None
        for j in range(len(specs) - 1, -1, -1):
            lo, hi = offs[j], offs[j + 1]
            if isinstance(p, int) and isinstance(lo, int) and \
                    isinstance(hi, int):
                if not lo <= p < hi:
                    continue
                return get(specs[j], tuple(i[:axis]) + (p - lo,) +
                           tuple(i[axis + 1:]))
            v = get(specs[j], tuple(i[:axis]) + (p - lo,) +
                    tuple(i[axis + 1:]))
            r = v if r is None else C.select(p < hi, v, r)
        if r is None:
            r = 0       # outside; not compared
        return r
    mask = None
    if any(s.mask is not None for s in specs):
        def mask(i):
            return locate(i, lambda s, j: s.m(j))
    return Spec(shape, specs[0].dtype,
                lambda i: locate(i, lambda s, j: s.fn(j)), mask,
                common_fill(specs))


def common_fill(specs):
    fs = [effective_fill(s) for s in specs]
    for f in fs[1:]:
        if not (f == fs[0] or (f != f and fs[0] != fs[0])):
            return None
    return fs[0] if fs else None


def effective_fill(s):
    """The fill value an array is known to have, None when unknown."""
    return s.fill if s.fill is not None else default_fill(s.dtype)


def stack(specs, shape):
    """`specs`: {stack position tuple: Spec} for every position."""
    first = specs[tuple(0 for _ in shape)] if specs else None
    k = len(shape)
    allpos = sorted(specs)

    def locate(i, get):
        p = i[:k]
        if not any(isinstance(x, SymInt) for x in p):
            return get(specs[tuple(int(x) for x in p)], tuple(i[k:]))
        r = None
        for pos in reversed(allpos):
            v = get(specs[pos], tuple(i[k:]))
            if r is None:
                r = v
            else:
                c = True
                for a, b in zip(p, pos):
                    c = C.b_and(c, a == b)
                r = C.select(c, v, r)
        return r
    mask = None
    if any(s.mask is not None for s in specs.values()):
        def mask(i):
            return locate(i, lambda s, j: s.m(j))
    return Spec(tuple(shape) + tuple(first.shape), first.dtype,
                lambda i: locate(i, lambda s, j: s.fn(j)), mask,
                common_fill([specs[p] for p in allpos]))


def elementwise(ufunc, specs, shape, dtype=None):
    """A NumPy ufunc applied to specs of shape `shape`."""
    specs = list(specs)
    ins = tuple(s.dtype for s in specs)
    out = C.ufunc_loop(ufunc, ins)[ufunc.nin]
    dtype = out if dtype is None else np.dtype(dtype)
    name = ufunc.__name__

    def fn(i):
        args = [s.fn(i) for s in specs]
        return C.cast(C.apply_ufunc(name, ufunc, out, ins, args), out,
                      dtype)
    mask = None
    if any(s.mask is not None for s in specs):
        def mask(i):
            r = False
            for s in specs:
                r = C.b_or(r, s.m(i))
            return r
    return Spec(shape, dtype, fn, mask)
