"""C10: the real sum, count, min and max are executed on sources of concrete
shape whose elements and mask bits are all symbolic, under a symbolic
chunk-size limit, over every axis, plain and masked, and compared with the
mathematical reduction; likewise for
every kind of source array, for reductions of reductions and of expressions,
and for selections of the result."""
import itertools

from sx import cells as C
from sx import engine as E
from sx import spec as S
from props import subjects as SUB
from sx.harness import scenario, product
from props.common import take_keys
from props.subjects import adapt, make

ASSUMPTIONS = [
    'Reduced dimensions of concrete length (up to 5), at most 9 elements '
    'in all (12 in the thorough tier) with every element and mask bit '
    'symbolic, every chunk-size limit.',
    'Empty reduced dimensions are left out for minima and maxima (NumPy '
    'refuses them) and for masked data (NumPy gives no mask for them).',
    'Sums stay in the type of the source (integers wrap around, as pinned by '
    'the tests); sums of floating point values are exact (reals).',
]
NAN = float('nan')
FNS = ['sum', 'count', 'min', 'max']


def pick(less):
    def f(cells):
        r = cells[0]
        for c in cells[1:]:
            r = C.select(less(c, r), c, r)
        return r
    return f


def reference(fn, dtype, masked):
    """The reduction of a list of cells (or of (cell, masked) pairs)."""
    zero = C.from_py(0, dtype)

    def total(cells):
        r = zero
        for c in cells:
            r = r + c
        return C.wrap_int(r, dtype) if dtype.kind in 'iu' else r

    if dtype.kind == 'b':
        def less(a, b):
            return C.b_and(C.b_not(a), b)

        def more(a, b):
            return C.b_and(a, C.b_not(b))
    else:
        def less(a, b):
            return a < b

        def more(a, b):
            return a > b

    if not masked:
        return {'sum': total, 'count': len,
                'min': pick(less),
                'max': pick(more)}[fn]

    def count(pairs):
        r = 0
        for _, m in pairs:
            r = r + C.select(m, 0, 1)
        return r, False

    def all_masked(pairs):
        r = True
        for _, m in pairs:
            r = C.b_and(r, m)
        return r

    def masked_total(pairs):
        return (total([C.select(m, zero, v) for v, m in pairs]),
                all_masked(pairs))

    def extreme(less):
        def f(pairs):
            v, m = pairs[0]
            for w, k in pairs[1:]:
                take = C.b_and(C.b_not(k), C.b_or(m, less(w, v)))
                v = C.select(take, w, v)
                m = C.b_and(m, k)
            return v, m
        return f
    return {'sum': masked_total, 'count': count,
            'min': extreme(less),
            'max': extreme(more)}[fn]


def isnan(v):
    return isinstance(v, float) and v != v


def reduced(s, fn, axis, masked):
    import numpy as np
    dt = np.dtype('i') if fn == 'count' else s.dtype
    if masked and s.mask is None:
        s = S.Spec(s.shape, s.dtype, s.fn, lambda i: False)
    return s.reduce(axis, dt, reference(fn, dt, masked), masked=masked)


def compare(env, r, want, masked, what):
    got = env.do(r.masked_array if masked else r.ndarray,
                 what + ' realising')
    (env.same_masked if masked else env.same)(got, want, what)


SHAPES = [(3,), (5,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 2, 2), (0, 2),
          (2, 0, 1)]
INTS = [(4,), (2, 2), (3, 1)]


@scenario('C10', quick=product(fn=FNS, shape=SHAPES, dtype=['f8'],
                               masked=[None]) +
          product(fn=FNS, shape=SHAPES, dtype=['i4'], masked=['mask']) +
          product(fn=['sum', 'min', 'max'], shape=INTS, dtype=['i2', 'u1'],
                  masked=[None]) +
          product(fn=FNS, shape=[(3,), (2, 2), (1, 3)], dtype=['f8'],
                  masked=['mask', 'nomask']) +
          product(fn=['min', 'max', 'count'], shape=[(2, 2)], dtype=['?'],
                  masked=[None]),
          thorough=product(fn=FNS, shape=[(3, 3), (2, 4), (1, 2, 3),
                                          (3, 2, 1)], dtype=['f8'],
                           masked=[None]) +
          product(fn=FNS, shape=[(3, 3), (2, 4), (2, 2, 2), (6,)],
                  dtype=['i2', 'u1'], masked=['mask']) +
          product(fn=FNS, shape=[(2, 3), (3, 2)], dtype=['f8'],
                  masked=['mask']))
def reduction(env, fn, shape, dtype, masked):
    env.sources = {}
    s = env.data('A', shape, dtype, masked=masked)
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.int('limit', 1, n + 1))
    axis = env.small('axis', 0, len(shape) - 1)
    # NumPy has no minimum of nothing, and no mask for a sum of nothing.
    env.assume(shape[axis] > 0 or (masked is None and fn in ('sum', 'count')))
    given = axis - len(shape) if env.flag('negative axis') else axis
    r = env.do(lambda: getattr(env.B, fn)(a, axis=given), 'building')
    want = reduced(s, fn, axis, masked is not None)
    env.same_shape(r.shape, want.shape, 'reported shape')
    compare(env, r, want, masked is not None, fn)


def dims3(env):
    return lambda name, lo=0: {'n': 2, 'm': 2, 'p': 1, 'l': 2}.get(name, 2)


KINDS = ['sliced', 'stack', 'stack2', 'mosaic0', 'mosaic1', 'transpose',
         'newaxis', 'broadcast', 'leading', 'cast', 'negative', 'add',
         'bcadd', 'ortho', 'cube']


@scenario('C10', quick=product(kind=KINDS, fn=['sum', 'min'],
                               masked=[None]) +
          product(kind=['stack', 'mosaic0', 'transpose', 'broadcast', 'add',
                        'bcadd'], fn=['sum', 'count', 'max'],
                  masked=['mask']),
          thorough=product(kind=KINDS, fn=['max', 'count'], masked=[None]) +
          product(kind=[k for k in KINDS if k != 'cube'], fn=FNS,
                  masked=['mask']))
def sources(env, kind, fn, masked):
    """Reductions of arrays of every kind."""
    a, s = make(env, kind, dims3(env), 'i4', masked=masked)
    env.set_chunk(env.int('limit', 1, 9))
    axis = env.small('axis', 0, len(s.shape) - 1)
    if fn in ('min', 'max'):
        env.assume(s.shape[axis] > 0)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    want = reduced(s, fn, axis, masked is not None)
    compare(env, r, want, masked is not None, fn)


@scenario('C10', quick=product(pair=[('sum', 'max'), ('min', 'sum'),
                                     ('max', 'min'), ('count', 'max')],
                               masked=[None, 'mask']) +
          product(pair=[('sum', 'max'), ('max', 'sum')], masked=[None],
                  shape=[(2, 2, 2)]) +
          product(pair=[('min', 'sum')], masked=['mask'],
                  shape=[(2, 1, 2), (2, 2, 2)]),
          thorough=product(pair=[(x, y) for x in FNS for y in FNS],
                           masked=[None, 'mask'], shape=[(2, 2, 2)]))
def nested(env, pair, masked, shape=(2, 3)):
    """Reductions of reductions."""
    env.sources = {}
    s = env.data('A', shape, 'i4', masked=masked)
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.int('limit', 1, n + 1))
    x = env.small('x', 0, len(shape) - 1)
    y = env.small('y', 0, len(shape) - 2)
    r = env.do(lambda: getattr(env.B, pair[1])(
        getattr(env.B, pair[0])(a, axis=x), axis=y), 'building')
    m = masked is not None
    want = reduced(reduced(s, pair[0], x, m), pair[1], y, m)
    compare(env, r, want, m, '%s of %s' % pair[::-1])


@scenario('C10', quick=product(fn=['sum', 'min', 'count'],
                               masked=[None, 'mask']),
          thorough=product(fn=['max'], masked=[None, 'mask']))
def selections(env, fn, masked):
    """Any selection of the result."""
    env.sources = {}
    shape = (2, 2, 2)
    s = env.data('A', shape, 'i4', masked=masked, generic=True)
    a = adapt(env, s, 'A')
    env.set_chunk(env.int('limit', 1, 9))
    axis = env.small('axis', 0, 2)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    want = reduced(s, fn, axis, masked is not None)
    kinds = env.choice('keys', [('int', 'full'), ('full', 'int'),
                                ('nslice:', 'int'), ('bool', 'full'),
                                ('full', 'seq1'), ('none', 'int', 'full')])
    key = take_keys(env, 'k', kinds, want.shape)
    compare(env, env.do(lambda: r[key], 'indexing'), want.index(key),
            masked is not None, 'selection')


@scenario('C10', quick=product(fn=['sum', 'min', 'max'], shape=[(3,), (2, 2)],
                               masked=[None]) +
          product(fn=['sum', 'min', 'max'], shape=[(3,)], masked=['mask']),
          thorough=product(fn=['sum', 'min', 'max'], shape=[(4,), (2, 3)],
                           masked=[None]) +
          product(fn=['sum', 'min', 'max'], shape=[(2, 2)], masked=['mask']))
def not_numbers(env, fn, shape, masked):
    """NaN wherever it likes: it is the result wherever it takes part."""
    env.sources = {}
    s = env.data('A', shape, 'f8', masked=masked)
    values = s.fn
    nans = set()
    for idx in itertools.product(*[range(n) for n in shape]):
        if env.flag('NaN at %s' % (idx,)):
            nans.add(idx)
    s.fn = lambda i: NAN if tuple(i) in nans else values(i)
    a = adapt(env, s, 'A')
    env.set_chunk(env.int('limit', 1, 5))
    axis = env.small('axis', 0, len(shape) - 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    dt = s.dtype

    def total(cells):
        if masked is None:
            nan = any(isnan(c) for c in cells)
            return NAN if nan else reference(fn, dt, False)(cells)
        # A masked NaN does not take part (the path decides which are).
        nan = [m for c, m in cells if isnan(c)]
        if any(not C.truth(m) for m in nan):
            return NAN, False
        return reference(fn, dt, True)(
            [(C.from_py(0, dt) if isnan(c) else c, m) for c, m in cells])
    want = s.reduce(axis, dt, total, masked=masked is not None)
    compare(env, r, want, masked is not None, fn)


@scenario('C10', quick=product(fn=['sum', 'min', 'max']))
def filled(env, fn):
    """Plain realisation of a masked source uses its fill value."""
    env.sources = {}
    s = env.data('A', (2, 2), 'i4', masked='mask', fill=-5)
    a = adapt(env, s, 'A')
    env.set_chunk(env.int('limit', 1, 5))
    axis = env.small('axis', 0, 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    compare(env, r, reduced(s.filled(), fn, axis, False), False, fn)


@scenario('C10', quick=product(kind=['sum']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
