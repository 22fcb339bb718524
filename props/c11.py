"""C11: the real mean, std and var are executed on sources of concrete shape
whose elements are all symbolic, with every mask, under a symbolic chunk-size
limit, for every axis, ddof and (symbolic) mdtol, and compared with the
defining formula over the contributing elements in exact arithmetic."""
from fractions import Fraction

import numpy as np

from sx import cells as C
from sx import engine as E
from sx import spec as S
from sx import term as T
from sx.harness import scenario, product
from props.common import take_keys
from props.subjects import adapt, make

ASSUMPTIONS = [
    'Arithmetic is exact (reals): rounding, and with it the accuracy of the '
    'one-pass algorithm, is outside; half precision overflows to infinity '
    'in arithmetic and casts.',
    'Reduced dimensions of length 1 to 4 (5 in the thorough tier), at most 6 '
    'elements in all; every element symbolic, every mask explored.',
    'Positions where 0 < N <= ddof are outside (the divisor is not '
    'positive).',
    'Sums of squares are non-negative (given to the solver as a lemma).',
]


def real(v):
    """The exact value of a cell."""
    if isinstance(v, E.Sym):
        return E.mk(T.to_real(E.num_term(v)))
    return Fraction(v)



def moments(values):
    n = len(values)
    m = values[0]
    for v in values[1:]:
        m = m + v
    m = m * Fraction(1, n)
    q = (values[0] - m) * (values[0] - m)
    for v in values[1:]:
        q = q + (v - m) * (v - m)
    return m, q


def root(env, v):
    if isinstance(v, E.Sym):
        return E.mk(T.sqrt(E.num_term(v)))
    t = T.sqrt(T.rconst(v))
    if t.const is not None:
        return t.const
    import math
    return Fraction(math.sqrt(v))


def reference(env, fn, ddof=0, mdtol=1, masked=False):
    def f(cells):
        if not masked:
            cells = [(c, False) for c in cells]
        vals = [real(v) for v, m in cells if not m]
        total = len(cells)
        if not vals:
            return (Fraction(0), True) if masked else Fraction(0)
        mean, q = moments(vals)
        mask = False
        if fn == 'mean':
            r = mean
            if masked:
                mask = Fraction(total - len(vals), total) > mdtol
        else:
            if env.sym and isinstance(q, E.Sym):
                T.nonneg(E.num_term(q))
            r = q * Fraction(1, len(vals) - ddof)
            if fn == 'std':
                r = root(env, r)
        return (r, mask) if masked else r
    return f


def result_dtype(dtype):
    return (np.array([0], dtype=dtype) / 1.).dtype


def stat_spec(env, s, fn, axis, masked, ddof=0, mdtol=1):
    """The spec of the statistic of `s`."""
    if masked and s.mask is None:
        s = S.Spec(s.shape, s.dtype, s.fn, lambda i: False)
    w = s.reduce(axis, np.dtype('f8'),
                 reference(env, fn, ddof, mdtol, masked), masked=masked)
    return w.cast(result_dtype(s.dtype))


def data(env, shape, dtype, masked=None):
    s = env.data('A', shape, dtype, masked=masked)
    if s.dtype == np.dtype('f2'):
        for i in np.ndindex(*shape):
            env.assume(env.all([s.fn(i) <= 65504, s.fn(i) >= -65504]))
    return s


def fixed_mask(env, s):
    """Explore every mask: the same data with the mask bits decided."""
    if s.mask is None:
        return s
    bits = {i: bool(C.truth(s.m(i))) for i in np.ndindex(*[
        int(n) for n in s.shape])}
    return S.Spec(s.shape, s.dtype, s.fn, lambda i: bits[tuple(
        int(j) for j in i)], s.fill)


def counts(s, axis):
    """The numbers of contributing elements, over all positions."""
    shape = s.shape[:axis] + s.shape[axis + 1:]
    out = set()
    for i in np.ndindex(*shape):
        out.add(len([1 for j in range(s.shape[axis])
                     if not s.m(i[:axis] + (j,) + i[axis:])]))
    return out


def realise(env, r, want, masked, what):
    # Gives the lemmas about its sums of squares.
    for i in np.ndindex(*[int(n) for n in want.shape]):
        want.fn(i)
    got = env.do(r.masked_array if masked else r.ndarray,
                 what + ' realising')
    (env.same_masked if masked else env.same)(got, want, what, exact=False)


PLAIN = [(1,), (2,), (4,), (2, 2), (3, 2), (2, 3), (2, 1, 2)]
STATS = ['mean', 'std', 'var']


@scenario('C11', narrow='range', quick=product(fn=STATS, shape=PLAIN, dtype=['f8']) +
          product(fn=STATS, shape=[(3,), (2, 2)],
                  dtype=['i1', 'u1', 'i4', 'u2', 'i8', 'f4', 'f2']),
          thorough=product(fn=STATS, shape=[(5,), (2, 4), (4, 2),
                                            (2, 2, 2)], dtype=['f8']) +
          product(fn=STATS, shape=[(4,), (3, 2), (2, 3)],
                  dtype=['i1', 'u1', 'i2', 'i4', 'u4', 'u8', 'f4']))
def plain(env, fn, shape, dtype):
    env.sources = {}
    s = data(env, shape, dtype)
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.small('limit', 1, n + 1))
    axis = env.small('axis', 0, len(shape) - 1)
    kw = {}
    ddof = 0
    if fn != 'mean':
        ddof = env.small('ddof', -1, shape[axis] - 1)
        if ddof or env.flag('given'):
            kw['ddof'] = ddof
    elif env.flag('mdtol given'):
        kw['mdtol'] = 0
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis, **kw), 'building')
    want = stat_spec(env, s, fn, axis, False, ddof)
    env.same_shape(r.shape, want.shape, 'reported shape')
    env.check(r.dtype == want.dtype, 'reported type')
    realise(env, r, want, False, fn)


@scenario('C11', narrow='range', quick=product(
    shape=[(1,), (3,), (1, 2), (2, 1)], dtype=['f8']) +
          product(shape=[(2,), (1, 2)], dtype=['u1', 'i4', 'f4', 'f2']),
          thorough=product(shape=[(2, 2), (4,), (3, 1), (3, 2), (2, 3)],
                           dtype=['f8', 'i2']))
def masked_mean(env, shape, dtype):
    env.sources = {}
    s = fixed_mask(env, data(env, shape, dtype, 'mask'))
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.small('limit', 1, n + 1))
    axis = env.small('axis', 0, len(shape) - 1)
    kw = {}
    mdtol = 1
    if env.flag('given'):
        mdtol = kw['mdtol'] = env.real('mdtol', 0, 1)
    r = env.do(lambda: env.B.mean(a, axis=axis, **kw), 'building')
    want = stat_spec(env, s, 'mean', axis, True, mdtol=mdtol)
    env.same_shape(r.shape, want.shape, 'reported shape')
    realise(env, r, want, True, 'mean')


@scenario('C11', narrow='range', quick=product(fn=['std', 'var'],
                               shape=[(1,), (3,), (1, 2), (2, 1)],
                               dtype=['f8']) +
          product(fn=['std', 'var'], shape=[(2,), (1, 2)],
                  dtype=['u1', 'i4', 'f4', 'f2']),
          thorough=product(fn=['std', 'var'], shape=[(2, 2), (3, 1), (4,), (3, 2), (2, 3)],
                           dtype=['f8', 'i2']))
def masked_spread(env, fn, shape, dtype):
    env.sources = {}
    s = fixed_mask(env, data(env, shape, dtype, 'mask'))
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.small('limit', 1, n + 1))
    axis = env.small('axis', 0, len(shape) - 1)
    ddof = env.small('ddof', 0, shape[axis] - 1)
    env.assume(not any(0 < c <= ddof for c in counts(s, axis)))
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis, ddof=ddof),
               'building')
    want = stat_spec(env, s, fn, axis, True, ddof)
    env.same_shape(r.shape, want.shape, 'reported shape')
    realise(env, r, want, True, fn)


@scenario('C11', narrow='range', quick=product(fn=STATS, masked=['nomask', None]))
def maskless(env, fn, masked):
    """Masked evaluation of data without a mask, plain and masked types."""
    env.sources = {}
    s = env.data('A', (2, 2), 'i4', masked=masked)
    a = adapt(env, s, 'A')
    env.set_chunk(env.small('limit', 1, 5))
    axis = env.small('axis', 0, 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    realise(env, r, stat_spec(env, s, fn, axis, True), True, fn)


KINDS = ['stack', 'mosaic0', 'mosaic1', 'transpose', 'broadcast', 'cast',
         'negative', 'add', 'bcadd', 'sum']


def dims2(name, lo=0):
    return 2


@scenario('C11', narrow='range', quick=product(kind=KINDS, fn=['mean', 'var']),
          thorough=product(kind=KINDS + ['newaxis', 'leading', 'stack2',
                                         'ortho'], fn=['std']))
def sources(env, kind, fn):
    a, s = make(env, kind, dims2, 'i4')
    env.set_chunk(env.small('limit', 1, 5))
    axis = env.small('axis', 0, len(s.shape) - 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    realise(env, r, stat_spec(env, s, fn, axis, False), False, fn)


@scenario('C11', narrow='range', quick=product(fn=STATS, masked=[None, 'mask']))
def selections(env, fn, masked):
    """Selecting from a statistic keeps it that of the selected part."""
    env.sources = {}
    shape = (2, 1, 2) if masked is None else (2, 2)
    s = env.data('A', shape, 'i4', masked=masked)
    if masked:
        env.assume(env.not_(s.m((0, 0))))
        s = fixed_mask(env, s)
    a = adapt(env, s, 'A')
    env.set_chunk(env.small('limit', 1, 3))
    axis = env.small('axis', 0, len(shape) - 1)
    kw = {'mdtol': Fraction(1, 2) if env.sym else 0.5} \
        if fn == 'mean' and masked else {}
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis, **kw), 'building')
    want = stat_spec(env, s, fn, axis, masked is not None,
                     mdtol=Fraction(1, 2) if kw else 1)
    kinds = env.choice('keys', [('int', 'full'), ('full', 'int'),
                                ('full', 'nslice:')]
                       if masked is None else [('int',), ('nslice:',)])
    key = take_keys(env, 'k', kinds, want.shape)
    realise(env, env.do(lambda: r[key], 'indexing'), want.index(key),
            masked is not None, 'selection')
