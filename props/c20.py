"""C20: constant arrays with symbolic dimension lengths and a symbolic value are
built, selected from (any kinds of keys, in two steps) and realised by the real
code; shape, type and an arbitrary element are compared with the given value
converted to the given type. Arrays of every kind are cast - once, twice,
before and after a selection - and an arbitrary element is compared with the
source's element converted to the last type."""
import numpy as np

from sx import cells as C
from sx import spec as S
from props import subjects as SUB
from sx.harness import scenario, product
from props.common import take_keys
from props.subjects import adapt, make, KINDS

ASSUMPTIONS = [
    'Booleans, integers and floating point types of every size, without '
    'infinities and NaN; constants of rank 0 to 3; rounding to narrower '
    'floating point types as an unknown function of the value.',
]

TYPES = ['b1', 'i1', 'u1', 'i2', 'u4', 'i8', 'f4', 'f8']
INFERRED = {'bool': 'b1', 'int': 'i8', 'real': 'f8'}


def any_value(env, name, kind, dtype=None):
    if kind == 'bool':
        return env.bool(name)
    if kind == 'int':
        return env.int(name, -2 ** 40, 2 ** 40)
    v = env.real(name, -100, 100)
    return v if env.sym else float(v)


def expected(env, shape, value, kind, dtype):
    """The value converted from its own type to the given one."""
    own = np.dtype(INFERRED[kind])
    dtype = own if dtype is None else np.dtype(dtype)
    if not env.sym:
        value = C.from_py(value, own)
    c = C.cast(value, own, dtype)
    return S.Spec(shape, dtype, lambda i: c)


def judge(env, a, s, what):
    env.same_shape(a.shape, s.shape, what + ': shape')
    env.check(a.dtype == s.dtype, '%s: type %s instead of %s'
              % (what, a.dtype, s.dtype))
    if s.mask is None or getattr(s, 'nomask', False):
        got = env.do(a.ndarray, 'realising')
        env.same(got, s, what)
    got = env.do(a.masked_array, 'realising')
    if s.mask is None:
        s = S.Spec(s.shape, s.dtype, s.fn, lambda i: False)
    env.same_masked(got, s, what + ' (masked)')


@scenario('C20', quick=product(kind=['bool', 'int', 'real'],
                               dtype=[None] + TYPES, rank=[1]) +
          product(kind=['int'], dtype=[None, 'i2', 'f4'], rank=[0, 2, 3]))
def constants(env, kind, dtype, rank):
    """A constant of any value and type."""
    shape = tuple(env.int('n%d' % d, 0) for d in range(rank))
    value = any_value(env, 'value', kind)
    if dtype is None and not env.sym and kind == 'int':
        value = int(value)
    how = env.choice('shape as', ['tuple', 'list'] + ['int'] * (rank == 1))
    given = {'tuple': shape, 'list': list(shape),
             'int': shape[0] if shape else 0}[how]
    a = env.do(lambda: env.B.ConstantArray(given, value, dtype)
               if dtype is not None else env.B.ConstantArray(given, value),
               'building')
    judge(env, a, expected(env, shape, value, kind, dtype), 'constant')


# Values of types on which nothing is computed: only their places are symbolic.
OTHERS = {'S10': b'abc', 'S2': b'abc', 'U': 'abc', 'O': None, 'Oint': 2,
          'M8[D]': '2000-01-01', 'm8[s]': 7, 'c8': 1 + 2j, 'c16': 3,
          '>i4': 7, '>f8': 2.5, '>u2': 300, 'f2': 0.5, 'S': b'xy'}


@scenario('C20', quick=product(dtype=sorted(OTHERS), first=['int', 'seq2',
                                                            'slice:bes']) +
          product(dtype=['S10', 'O', 'M8[D]', '>i4'],
                  first=['bool', 'none', 'arr2']), max_loop=3)
def other_types(env, dtype, first):
    """Constants of any other type, and two selections of them."""
    n = env.small('n', 0, 2) if first == 'bool' else env.int('n', 0)
    m = env.int('m', 0)
    value = OTHERS[dtype]
    dtype = np.dtype(dtype[:1] if dtype == 'Oint' else dtype)
    given = env.choice('given as', ['type', 'spelt'] +
                       ['inferred'] * (np.asarray(value).dtype == dtype))
    a = env.do(lambda: env.B.ConstantArray((n, m), value) if given ==
               'inferred' else env.B.ConstantArray(
                   (n, m), value, dtype if given == 'type' else dtype.str),
               'building')
    if given == 'inferred' or not dtype.itemsize:
        dtype = np.array([value], None if given == 'inferred' else
                         dtype).dtype
    cell = C.from_py(np.array([value], dtype)[0], dtype)
    s = S.Spec((n, m), dtype, lambda i: cell)
    judge(env, a, s, 'constant')
    for step, kinds in enumerate([(first, 'int'), ('slice:b',)]):
        if s.ndim:
            keys = take_keys(env, 'key%d' % step, kinds, s.shape)
            a = env.do(lambda: a[keys], 'indexing')
            s = s.index(keys)
    judge(env, a, s, 'selection')


@scenario('C20', quick=product(fn=['zeros', 'ones'], dtype=[None] + TYPES))
def zeros_ones(env, fn, dtype):
    shape = tuple(env.int('n%d' % d, 0) for d in range(2))
    f = getattr(env.B, fn)
    if env.flag('positional') and dtype is not None:
        a = env.do(lambda: f(shape, dtype), 'building')
    else:
        a = env.do(lambda: f(shape) if dtype is None else
                   f(shape, dtype=dtype), 'building')
    value = 1 if fn == 'ones' else 0
    judge(env, a, S.constant(shape, value, dtype or 'f8'), fn)


@scenario('C20', quick=product(first=['int', 'slice:bes', 'seq2', 'none',
                                      'ell', 'full', 'bool', 'arr2'],
                               masked=[False]), max_loop=4)
def selections(env, first, masked):
    """Any two selections of a constant."""
    n = env.small('n', 0, 3) if first == 'bool' else env.int('n', 0)
    m = env.int('m', 0)
    shape = (n, m)
    value = any_value(env, 'value', 'int')
    a = env.do(lambda: env.B.ConstantArray(shape, value, 'i4'), 'building')
    s = expected(env, shape, value, 'int', 'i4')
    for step in (0, 1):
        if step == 0:
            kinds = (first, env.choice('k0', ['int', 'pslice:b', 'nslice:e',
                                              'seq1']))
            if first == 'ell' and env.flag('ell last'):
                kinds = kinds[::-1]
        else:
            if not s.ndim:
                break
            kinds = (env.choice('k1', ['int', 'nslice:bt', 'seq2', 'none']),)
        keys = take_keys(env, 'key%d' % step, kinds, s.shape)
        a = env.do(lambda: a[keys], 'indexing')
        s = s.index(keys)
    judge(env, a, s, 'selection')


@scenario('C20', quick=product(rank=[3]), max_loop=4)
def selections_rank3(env, rank):
    """Any selection of a constant of rank 3, rank 0."""
    shape = tuple(env.int('n%d' % d, 0) for d in range(rank))
    value = any_value(env, 'value', 'real')
    a = env.do(lambda: env.B.ConstantArray(shape, value), 'building')
    s = expected(env, shape, value, 'real', None)
    kinds = tuple(env.choice('k%d' % d, ['int', 'slice:bs', 'seq1'])
                  for d in range(rank))
    keys = take_keys(env, 'key', kinds, s.shape)
    if env.flag('one by one'):
        for k in keys[::-1]:
            # The last dimension first.
            key = (Ellipsis, k)
            drop = (slice(None),) * (s.ndim - 1)
            a = env.do(lambda: a[key], 'indexing')
            s = s.index(drop + (k,))
            if not s.ndim:
                break
            if not isinstance(k, (int,)):
                break
    else:
        a = env.do(lambda: a[keys], 'indexing')
        s = s.index(keys)
    judge(env, a, s, 'selection')


VALUES = [True, 3, -2 ** 40, 2.5, np.int8(-4), np.uint16(40000),
          np.float32(0.5), np.float64(1e300), np.bool_(False)]


@scenario('C20', quick=product(dtype=[None, 'i4', 'f8']))
def typed_values(env, dtype):
    """Values with types of their own."""
    value = env.choice('value', VALUES)
    shape = (env.int('n', 0),)
    own = np.array([value]).dtype
    if dtype == 'i4' and own.kind == 'f':
        return
    a = env.do(lambda: env.B.ConstantArray(shape, value, dtype), 'building')
    d = own if dtype is None else np.dtype(dtype)
    judge(env, a, S.constant(shape, np.array([value]).astype(d)[0], d),
          'constant')


# -------------------------------------------------------------------- casts

def tenths(env, s, idx):
    """Choose a value which narrower floating point types have to round."""
    k = env.int('tenths', 1, 4)
    env.assume(s.fn(idx) * 10 == k)


@scenario('C20', quick=product(src=TYPES, dst=TYPES, masked=[None]) +
          product(src=['i2', 'f8'], dst=TYPES, masked=['mask', 'nomask']))
def pairs(env, src, dst, masked):
    """Every pair of types."""
    n = env.int('n', 1, 3)
    s = env.data('A', (n,), src, masked=masked)
    a = adapt_plain(env, s)
    if src == 'f8' and dst == 'f4':
        tenths(env, s, (0,))
    elif src[0] == 'f':
        env.assume(env.all([s.fn((0,)) < 1000, s.fn((0,)) > -1000]))
        if dst[0] == 'u':
            env.assume(s.fn((0,)) >= 0)
    first = (slice(0, 1),)
    r = env.do(lambda: a[first].astype(dst), 'casting')
    judge(env, r, s.index(first).cast(dst), 'cast')


def adapt_plain(env, s):
    env.sources = {}
    return adapt(env, s, 'A')


@scenario('C20', quick=product(types=[
    ('i8', 'i2', 'i8'), ('i4', 'u1', 'i4'), ('f8', 'i4', 'f8'),
    ('i4', 'b1', 'i4'), ('f8', 'f4', 'f8'), ('i2', 'f8', 'i1'),
    ('i4', 'i4', 'u2'), ('u1', 'i1', 'i8')], masked=[None, 'mask']),
    thorough=product(types=[(a, b, c) for a in TYPES for b in TYPES
                            for c in TYPES], masked=[None]))
def twice(env, types, masked):
    """Casting twice is casting to the last type."""
    src, middle, dst = types
    n = env.int('n', 1, 3)
    s = env.data('A', (n,), src, masked=masked)
    a = adapt_plain(env, s)
    if src[0] == 'f' and middle == 'f4':
        tenths(env, s, (0,))
    elif src[0] == 'f':
        env.assume(env.all([s.fn((0,)) < 1000, s.fn((0,)) > -1000]))
        if dst[0] == 'u':
            env.assume(s.fn((0,)) >= 0)
    first = (slice(0, 1),)
    a = a[first]
    r = env.do(lambda: a.astype(middle), 'casting')
    if env.flag('realised'):
        env.do(r.ndarray, 'realising')
    if env.flag('again'):
        r = env.do(lambda: r[::-1], 'indexing')
    r = env.do(lambda: r.astype(dst), 'casting')
    judge(env, r, s.index(first).cast(dst), 'twice cast')


COMPUTED = ['negative', 'add', 'bcadd', 'sum']


@scenario('C20', quick=product(kind=KINDS + ['vector'], masked=['mask'],
                               dst=['f4']) +
          product(kind=['adapter', 'stack', 'mosaic0', 'negative', 'sum',
                        'constant', 'leading'], masked=[None], dst=['i2']),
          thorough=product(kind=KINDS, masked=[None, 'mask'],
                           dst=['i1', 'f8', 'b1']), max_loop=4)
def commuting(env, kind, masked, dst):
    """Selecting before and after the cast, of arrays of every kind."""
    dim = None
    if kind in COMPUTED:
        def dim(name, lo=0):
            return env.small(name, 1, 2)
    a, s = make(env, kind, dim, dtype='i4', masked=masked)
    if s.ndim == 0:
        return
    key = take_keys(env, 'k', (env.choice('kind', ['int', 'pslice:bt',
                                                   'nslice:e']),), s.shape)
    s = s.cast(dst).index(key)
    if env.flag('cast first'):
        r = env.do(lambda: a.astype(dst)[key], 'casting, indexing')
    else:
        r = env.do(lambda: a[key].astype(dst), 'indexing, casting')
    if env.flag('and again'):
        r = env.do(lambda: r.astype('i8').astype(dst), 'casting')
    judge(env, r, s, 'cast')


@scenario('C20', quick=product(kind=['constant', 'cast']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
