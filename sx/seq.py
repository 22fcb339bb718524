"""Symbolic ranges (also standing for tuples made from them) and slices."""
from . import term as T
from .engine import (SymInt, SymBool, SymNum, is_sym, eng, ite, num_term,
                     mk, smax, to_bool_term, BoundCut)


def is_int(x):
    import numpy as np
    return isinstance(x, (int, np.integer, SymInt)) and \
        not isinstance(x, bool)


def compound(v):
    return isinstance(v, SymInt) and any(
        len(m) > 1 or any(a.op != 'var' for a in m) for m, _ in v.t.items)


def plain(x):
    """What __index__ gives: not a NumPy integer."""
    if getattr(x, 'is_scalar', False) and x.dtype.kind in 'iu':
        x = x.item()            # a model array of rank 0
    return SymInt(x.t) if isinstance(x, SymInt) and x.npdtype is not None \
        else x


def slice_indices(slc, n):
    """slice.indices for plain or symbolic components and length."""
    start, stop, step = plain(slc.start), plain(slc.stop), plain(slc.step)
    n = plain(n)
    if not any(is_sym(x) for x in (start, stop, step, n)):
        return slc.indices(n)
    for x in (start, stop, step):
        if x is not None and not isinstance(x, SymInt) and \
                not hasattr(x, '__index__'):
            raise TypeError('slice indices must be integers or None or have '
                            'an __index__ method')
    if step is None:
        step = 1
    if isinstance(step, SymInt):
        if step == 0:
            raise ValueError('slice step cannot be zero')
    elif step == 0:
        raise ValueError('slice step cannot be zero')
    negative = bool(step < 0)
    if negative:
        lower, upper = -1, n - 1
    else:
        lower, upper = 0, n

    def clamp(v, default):
        if v is None:
            return default
        if compound(v) and eng().implied(T.and_(
                to_bool_term(v >= 0), to_bool_term(v <= upper))):
            # Keep derived bounds (multiples of a step) recognisable.
            return v
        w = ite(v < 0, v + n, v)
        return ite(v < 0, ite(w < lower, lower, w),
                   ite(w > upper, upper, w))
    start = clamp(start, upper if negative else lower)
    stop = clamp(stop, lower if negative else upper)
    return start, stop, step


def range_len(start, stop, step):
    if not any(is_sym(x) for x in (start, stop, step)):
        return len(range(start, stop, step))
    if step == 0:
        raise ValueError('range() arg 3 must not be zero')
    if step > 0:
        n = (stop - start + step - 1) // step
    else:
        n = (start - stop - step - 1) // (-step)
    return ite(n < 0, 0, n)


class SymRange(object):
    """start + i*step for 0 <= i < n; immutable, tuple-like."""

    def __init__(self, start, n, step, kind='range'):
        self.start = start
        self.n = n
        self.step = step
        self.kind = kind

    @staticmethod
    def make(*args):
        args = tuple(plain(a) for a in args)
        if len(args) == 1:
            args = (0,) + args
        if len(args) == 2:
            args = args + (1,)
        start, stop, step = args
        return SymRange(start, range_len(start, stop, step), step)

    def as_tuple(self):
        return SymRange(self.start, self.n, self.step, 'tuple')

    def at(self, i):
        return self.start + i * self.step

    def __iter__(self):
        i = 0
        while i < self.n:
            if i >= eng().max_loop:
                raise BoundCut('loop over a symbolic range')
            yield self.at(i)
            i += 1

    def __reversed__(self):
        return iter(SymRange(self.at(self.n - 1), self.n, -self.step))

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            s, e, st = slice_indices(k, self.n)
            m = range_len(s, e, st)
            return SymRange(self.at(s), m, self.step * st, self.kind)
        if not hasattr(k, '__index__'):
            raise TypeError('%s indices must be integers or slices, not %s'
                            % (self.kind, type(k).__name__))
        k = plain(k)
        if k < 0:
            k = k + self.n
            if k < 0:
                raise IndexError('%s index out of range' % self.kind)
        elif k >= self.n:
            raise IndexError('%s index out of range' % self.kind)
        return self.at(k)

    def __contains__(self, v):
        d = v - self.start
        return bool((d % self.step == 0) and 0 <= d // self.step < self.n)

    def __add__(self, o):
        return tuple(self) + tuple(o)

    def __radd__(self, o):
        return tuple(o) + tuple(self)

    def __eq__(self, o):
        if isinstance(o, SymRange):
            if self.n != o.n:
                return False
            return bool(self.n == 0 or (self.start == o.start and (
                self.n == 1 or self.step == o.step)))
        if isinstance(o, (tuple, range)):
            return tuple(self) == tuple(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(tuple(self))

    def index(self, v):
        return tuple(self).index(v)

    def count(self, v):
        return tuple(self).count(v)

    def __repr__(self):
        return '<%s sym>' % self.kind


def slen(x):
    if isinstance(x, SymRange):
        return x.n
    f = getattr(type(x), '_sx_len', None)
    if f is not None:
        return f(x)
    return len(x)
