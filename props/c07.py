"""C07: arrays of every kind, of symbolic dimensions, go through every further
operation (indexing by every kind of key, casts, transposition, new axes,
broadcasting, arithmetic with arrays and scalars, comparison, aggregation,
stacking, tiling, masking by value); at every step the shape, rank and type
reported are compared with those of the plain and the masked NumPy array the
array realises to, on its own and through the engine."""
import numpy as np
from sx.harness import scenario, product
from props.common import take_keys
from props.subjects import adapt, make, objects, KINDS

ASSUMPTIONS = [
    'One dimension up to 20, the others short (arrays which are aggregated: 3); one or two operations '
    'on arrays of 18 kinds; types int16, int32, uint8, float32, float64 and '
    'bool.',
]
HI = 20


OTHERS = {'m': 2, 'p': 1, 'l': 2}


def dim(env):
    """One symbolic dimension; short ones otherwise."""
    return lambda name, lo=0: OTHERS.get(name) or env.int(name, lo, HI)


def meta(env, arr, what, masked=True):
    shape, dtype, ndim = arr.shape, arr.dtype, arr.ndim
    env.check(isinstance(dtype, np.dtype), '%s: type is a %s' % (
        what, type(dtype).__name__))
    env.check(ndim == len(shape), '%s: rank %s of shape %s' % (
        what, ndim, shape))
    fns = [('plain', arr.ndarray),
           ('engine', lambda: env.B.ndarrays([arr])[0])]
    if masked:
        fns += [('masked', arr.masked_array),
                ('masked engine', lambda: env.B.masked_arrays([arr])[0])]
    for how, fn in fns:
        r = env.do(fn, '%s realising (%s)' % (what, how))
        w = '%s (%s)' % (what, how)
        env._kind(r, 'masked' in how, w)
        env.same_shape(r.shape, shape, w)
        env.check(r.dtype == dtype, '%s: reported type %s, realised %s' % (
            w, dtype, r.dtype))
    env.check(arr.dtype == dtype and len(arr.shape) == len(shape),
              '%s: changed by realising' % what)


INDEXING = ['int', 'last', 'slice:b', 'nslice:', 'seq2', 'none',
            'ell int', 'none int']
STRUCTURE = ['astype f4', 'astype i8', 'transpose', 'broadcast', 'stack',
             'mosaic', 'mask', 'constant']
ARITHMETIC = ['negative', 'add', 'times 2', 'plus 2.5', '1 - f4', 'less',
              'divide', 'mixed', 'sqrt']
REDUCE = ['sum', 'mean', 'std', 'var', 'min', 'max', 'count', 'mean1']
BOOL = ['less', 'add', 'times 2', 'mixed', 'min', 'count', 'sqrt']
OPS = INDEXING + STRUCTURE + ARITHMETIC + REDUCE


def apply(env, a, op, name):
    B = env.B
    rank = len(a.shape)
    if op in ('int', 'last', 'slice:b', 'nslice:', 'seq2',
              'ell int', 'none int'):
        env.assume(rank > 0)
        if op in ('int', 'ell int', 'none int', 'last'):
            d = 0 if op != 'ell int' else rank - 1
            env.assume(a.shape[d] > 0)
            k = -1 if op == 'last' else env.make_key(name, 'int', a.shape[d])
            return a[{'int': k, 'last': k, 'ell int': (Ellipsis, k),
                      'none int': (None, k)}[op]]
        return a[env.make_key(name, op, a.shape[0]),]
    if op == 'none':
        return a[..., None]
    if op.startswith('astype'):
        return a.astype(op[7:])
    if op == 'transpose':
        return a.transpose()
    if op == 'broadcast':
        return B.BroadcastArray(a, {}, (3,))
    if op == 'stack':
        return B.ArrayStack(objects([a, a], (2,)))
    if op == 'mosaic':
        env.assume(rank > 0)
        return B.LinearMosaic([a, a], rank - 1)
    if op == 'mask':
        return B.masked_equal(a, 1)
    if op == 'constant':
        return B.ConstantArray(a.shape, 1, a.dtype)
    if op == 'negative':
        return B.negative(a)
    if op == 'add':
        return a + a
    if op == 'times 2':
        return a * 2
    if op == 'plus 2.5':
        return a + 2.5
    if op == '1 - f4':
        return np.float32(1) - a if False else a - np.float32(1)
    if op == 'less':
        return B.less(a, 2)
    if op == 'divide':
        return a / a
    if op == 'mixed':
        return a * B.ConstantArray((1,), 2, np.dtype('i2'))
    if op == 'sqrt':
        return B.sqrt(a)
    for n in a.shape:
        env.assume(n <= (1 if op in ('std', 'var') and env.by_value else
                         3))
    stack = B.ArrayStack(objects([a, a], (2,)))
    if op == 'mean1':
        return B.mean(stack, axis=0, mdtol=0.5)
    return getattr(B, op)(stack, axis=0)


def ops_for(dtype):
    if dtype == '?':
        return INDEXING[:3] + STRUCTURE + BOOL
    return OPS


@scenario('C07', quick=product(kind=[k for k in KINDS if k != 'sum'],
                               dtype=['i2', 'f4']) +
          product(kind=['adapter', 'stack', 'mosaic0'], dtype=['?', 'u1']),
          thorough=product(kind=[k for k in KINDS if k not in (
              'sum', 'adapter', 'negative', 'add', 'bcadd')],
              dtype=['?']) + product(kind=KINDS, dtype=['u1', 'i8', 'f8']),
          max_loop=3)
def one_step(env, kind, dtype):
    env.by_value = kind == 'maskval'
    a, _ = make(env, kind, dim(env), dtype)
    op = env.choice('op', ['-'] + ops_for(dtype))
    if op != '-':
        a = env.do(lambda: apply(env, a, op, 'k'), op)
    meta(env, a, op)


NEXT = ['int', 'slice:b', 'none', 'astype f4', 'transpose', 'broadcast',
        'stack', 'mosaic', 'negative', 'plus 2.5', 'mixed', 'mean', 'count']


@scenario('C07', quick=product(kind=['vector'], dtype=['i2'], first=OPS),
          thorough=product(kind=['adapter'], dtype=['i2'], first=OPS) +
          product(kind=['vector'], dtype=['f4'], first=OPS) +
          product(kind=['mosaicv', 'stack'], dtype=['i2'], first=OPS),
          max_loop=3)
def two_steps(env, kind, dtype, first):
    env.by_value = first == 'mask'
    a, _ = make(env, kind, dim(env), dtype)
    a = env.do(lambda: apply(env, a, first, 'k'), first)
    op = env.choice('op', NEXT)
    if a.dtype == bool:
        env.assume(op != 'negative')
    a = env.do(lambda: apply(env, a, op, 'l'), op)
    meta(env, a, op)


SLICES = ['slice:be', 'slice:s', 'slice:bes', 'nslice:be']


@scenario('C07', quick=product(kind=['vector'], key=SLICES) +
          product(kind=['stack', 'mosaicv', 'constant', 'transpose',
                        'broadcast', 'add', 'bcadd'],
                  key=['slice:be', 'nslice:be']),
          thorough=product(kind=KINDS, key=SLICES), max_loop=3)
def slices(env, kind, key):
    """Slices with both bounds (which may be the wrong way round) and any
    step, then an aggregate or a stack of what they select."""
    env.by_value = False
    a, _ = make(env, kind, dim(env), 'i2')
    env.assume(len(a.shape) > 0)
    d = env.small('d', 0, len(a.shape) - 1)
    k = env.make_key('k', key, a.shape[d])
    a = env.do(lambda: a[(slice(None),) * d + (k,)], 'slicing')
    op = env.choice('op', ['-', 'int', 'stack', 'negative', 'sum'])
    if op != '-':
        a = env.do(lambda: apply(env, a, op, 'l'), op)
    meta(env, a, op)


@scenario('C07', quick=product(masked=['mask', 'nomask'],
                               kind=['vector', 'stack', 'mosaicv']),
          thorough=product(masked=['mask', 'nomask'], kind=KINDS[:-1]),
          max_loop=3)
def masked_sources(env, masked, kind):
    """Selections of masked sources, down to a single masked element."""
    env.by_value = True
    a, _ = make(env, kind, lambda name, lo=0: env.int(name, lo, 4), 'i4',
                masked=masked)
    op = env.choice('op', ['-', 'int', 'slice:b', 'none int', 'transpose',
                           'astype f4', 'stack', 'negative', 'add',
                           'min', 'sum', 'mean', 'count'])
    if op != '-':
        a = env.do(lambda: apply(env, a, op, 'k'), op)
    while len(a.shape) and env.flag('single%d' % len(a.shape)):
        env.assume(a.shape[0] > 0)
        a = a[0]
    meta(env, a, op)


@scenario('C07', quick=product(fn=['sum', 'min', 'mean', 'std', 'count'],
                               shape=[(2, 3), (3, 1), (1, 2, 2)],
                               dtype=['i2', 'f4']) +
          product(fn=['sum', 'max', 'mean', 'var'], shape=[(3, 2)],
                  dtype=['u1', 'f8']),
          thorough=product(fn=['sum', 'min', 'max', 'mean', 'std', 'var',
                               'count'], shape=[(2, 3), (4, 2), (2, 2, 2)],
                           dtype=['i2', 'f2', 'u1', 'i8']))
def chunked(env, fn, shape, dtype):
    """Under every chunk-size limit."""
    env.sources = {}
    s = env.data('A', shape, dtype, generic=True)
    a = adapt(env, s, 'A')
    n = 1
    for d in shape:
        n *= d
    env.set_chunk(env.int('limit', 1, n + 1))
    axis = env.small('axis', 0, len(shape) - 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), fn)
    meta(env, r, fn)
    r = env.do(lambda: env.B.negative(r[..., None] + a.dtype.type(1)),
               'negative')
    meta(env, r, fn + ' negated')
