"""C06: every exported elementwise function, every operator (plain and
reflected, with arrays, NumPy arrays and scalars) and every way two shapes
broadcast are built on sources of symbolic length and contents, realised plain
and masked, and indexed; each element is compared with the NumPy (np.ma)
operation on the realised operands. Shapes which do not broadcast, for every
pair of lengths, must be refused when the expression is built. Small shapes
are evaluated under every chunk-size limit."""
import operator

import numpy as np
from props import subjects as SUB
from sx.harness import scenario, product
from sx import spec as S
from props.common import take_keys
from props.subjects import adapt

ASSUMPTIONS = [
    'Transcendental functions are uninterpreted functions of their operands '
    '(with the loop NumPy selects for the types); arithmetic, comparison, '
    'rounding, logical and square-root functions are exact, on reals.',
    'NumPy scalars and 0-dimensional operands count as arrays of their type; '
    'Python ints and floats adapt to the other operand as in NumPy.',
    'Types int16, int32, uint8, float32, float64 and bool; rank at most 3.',
]

# name -> NumPy name, where they differ
SYNONYM = {'sub': 'subtract', 'conj': 'conjugate'}
UNARY = ('negative absolute rint sign conj exp exp2 log log2 log10 expm1 sqrt '
         'square reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh '
         'arcsinh arccosh arctanh deg2rad rad2deg invert logical_not floor '
         'ceil trunc').split()
UNARY_PLAIN = 'isreal iscomplex isinf isnan signbit'.split()
BINARY = ('add sub subtract multiply floor_divide true_divide divide power '
          'arctan2 hypot bitwise_and bitwise_or bitwise_xor left_shift '
          'right_shift greater greater_equal less less_equal not_equal equal '
          'logical_and logical_or logical_xor maximum minimum fmax '
          'fmin').split()
BINARY_PLAIN = 'copysign nextafter ldexp fmod'.split()
NO_MASKED = ('rint sign exp2 expm1 square reciprocal deg2rad rad2deg invert '
             'trunc left_shift right_shift fmax fmin').split()
LENGTH = 4000
OPERATORS = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'pow']


def np_name(name):
    return SYNONYM.get(name, name)


def leaf(env, name, shape, dtype, masked=None):
    if not hasattr(env, 'sources'):
        env.sources = {}
    s = env.data(name, shape, dtype, masked=masked)
    return adapt(env, s, name, plain=masked is not None), s


def refused(fn, ones):
    """Whether NumPy has no such operation for the types."""
    with np.errstate(all='ignore'):
        try:
            fn(*ones)
        except TypeError:
            return True
        except ValueError:
            return False
    return False


def compare(env, arr, op, specs, what, masked=None, ma_op=None):
    """arr realises to op on the realised operands."""
    args = [env.array(s) for s in specs]
    if not masked:
        k, want = env.attempt(lambda: op(*args))
        if k == 'err':
            env.raises(type(want), arr.ndarray, what + ' fails in NumPy')
            return
        env.check(arr.dtype == want.dtype, '%s: reported type %s instead of '
                  '%s' % (what, arr.dtype, want.dtype))
        env.same_shape(arr.shape, want.shape, what + ' reported shape')
        env.expect(env.do(arr.ndarray, what), want, what)
    else:
        want = ma_op(*args)
        if not arr.shape:
            want = env.xp.ma.array(want, dtype=arr.dtype)
        env.expect(env.do(arr.masked_array, what + ' masked'), want,
                   what + ' masked')
    return want


def elementwise(env, name, types, masked):
    """One function on sources of these types, then indexed."""
    real = getattr(np, np_name(name))
    op = getattr(env.xp, np_name(name))
    fn = getattr(env.B, name)
    n = env.int('n', 0, LENGTH)
    kind = 'mask' if masked else None
    both = [leaf(env, c, (n,), t, kind) for c, t in zip('AB', types)]
    arrs = [a for a, _ in both]
    specs = [s for _, s in both]
    if refused(real, [np.ones(1, d) for d in types]):
        env.raises(TypeError, lambda: fn(*arrs), 'unsupported types')
        return
    r = env.do(lambda: fn(*arrs), 'building')
    ma = getattr(env.xp.ma, np_name(name), None) if masked else None
    if masked:
        k, v = env.attempt(r.masked_array)
        if ma is None:
            env.check(k == 'err', 'no masked operation: no error')
            return
        if k == 'err' and isinstance(v, TypeError) and \
                name in UNARY_PLAIN + BINARY_PLAIN:
            return
    compare(env, r, op, specs, 'elementwise', masked, ma)
    key = take_keys(env, 'k', [env.choice('kind', ['int', 'slice:b'])], (n,))
    compare(env, env.do(lambda: r[key], 'indexing'), op,
            [s.index(key) for s in specs], 'selection', masked, ma)


def _both(names, types):
    return [dict(names=' '.join(names[i:i + 4]), types=types)
            for i in range(0, len(names), 4)]


FLOAT1 = [x for x in UNARY + UNARY_PLAIN if x != 'invert']
INT1 = ('negative absolute sign conj sqrt square reciprocal sin invert '
        'logical_not floor rint isreal isnan signbit').split()
BOOL1 = 'absolute square invert logical_not sqrt isreal'.split()
BITS = 'bitwise_and bitwise_or bitwise_xor left_shift right_shift'.split()
FLOAT2 = [x for x in BINARY + BINARY_PLAIN if x not in BITS + ['ldexp']]
INT2 = ('add sub subtract multiply floor_divide true_divide divide power '
        'arctan2 greater less_equal equal logical_xor maximum minimum fmod '
        'copysign').split() + BITS
MIXED = ('add sub multiply floor_divide true_divide power less maximum '
         'ldexp hypot').split()
BOOL2 = 'add multiply bitwise_and bitwise_xor less maximum'.split()


@scenario('C06', quick=_both(FLOAT1, 'f8') + _both(INT1, 'i4') +
          _both(BOOL1, '?') + _both(FLOAT2, 'f8 f8') +
          _both(INT2, 'i4 i2') + _both(MIXED, 'f4 i2') +
          _both(BOOL2, '? ?') + _both(['invert'], 'f8') +
          _both(BITS[:2], 'f8 i4'),
          thorough=_both(FLOAT1, 'f4') + _both(FLOAT1, 'u1') +
          _both(FLOAT2, 'f4 f8') + _both(FLOAT2 + BITS, 'u1 i2') +
          _both(FLOAT2 + BITS, 'i8 i4') + _both(BOOL2, 'i4 ?'),
          max_loop=3, witnesses=6)
def plain_functions(env, names, types):
    elementwise(env, env.choice('fn', names.split()), types.split(), False)


@scenario('C06', quick=_both(UNARY, 'f8') + _both(UNARY_PLAIN, 'f8') +
          _both([x for x in BINARY + BINARY_PLAIN if x not in BITS +
                 ['ldexp']], 'f8 f8') +
          _both(BITS[:3] + ['add', 'floor_divide', 'equal'], 'i4 i4'),
          thorough=_both(['negative', 'absolute', 'logical_not', 'sqrt'],
                         'i4') + _both(MIXED, 'f4 i2') +
          _both(INT2[:-2], 'i4 i2'),
          max_loop=3, witnesses=6)
def masked_functions(env, names, types):
    elementwise(env, env.choice('fn', names.split()), types.split(), True)


@scenario('C06', quick=product(name=OPERATORS, masked=[False, True]),
          max_loop=3)
def operators(env, name, masked):
    """Array with array, NumPy array and Python or NumPy scalar."""
    op = getattr(operator, name)
    n = env.int('n', 0, LENGTH)
    kind = 'mask' if masked else None
    a, s = leaf(env, 'A', (n,), 'f8', kind)
    t = env.data('B', (n,), 'f8', masked=kind)
    other = env.choice('other', ['array', 'ndarray', 'int', 'float',
                                 'npscalar'])
    left = env.flag('reflected')
    if other == 'array':
        b = adapt(env, t, 'B', plain=masked)
    elif other == 'ndarray':
        # An ndarray on the left makes its own elementwise loop.
        env.assume(not left)
        b = env.array(t)
    else:
        b = {'int': 3, 'float': 2.5, 'npscalar': np.float32(1.5)}[other]
        env.assume(not (left and other == 'npscalar'))
    r = env.do((lambda: op(b, a)) if left else (lambda: op(a, b)),
               'building')
    x = env.array(s)
    y = env.array(t) if other in ('array', 'ndarray') else b
    if other == 'npscalar':
        y = env.array(S.constant((n,), 1.5, 'f4'))
        if masked:
            y = env.xp.ma.array(y)
    names = {'mul': 'multiply', 'sub': 'subtract', 'floordiv':
             'floor_divide', 'truediv': 'true_divide', 'pow': 'power'}
    f = getattr(env.xp.ma if masked else env.xp, names.get(name, name))
    want = f(y, x) if left else f(x, y)
    got = env.do(r.masked_array if masked else r.ndarray, 'realising')
    env.expect(got, want, 'operator')
    if not masked:
        env.check(r.dtype == want.dtype, 'type of the operation')
    got = env.do(lambda: (r[1:].masked_array() if masked else
                          r[1:].ndarray()), 'realising')
    env.expect(got, want[1:], 'selection')


@scenario('C06', quick=product(name=['add', 'sub', 'truediv', 'floordiv'],
                               dtype=['i2', 'f4', 'u1'],
                               scalar=[2, -3, 0.5, 70000]), max_loop=3)
def scalars(env, name, dtype, scalar):
    """Python scalars take on the type NumPy gives them."""
    op = getattr(operator, name)
    n = env.int('n', 0, LENGTH)
    a, s = leaf(env, 'A', (n,), dtype)
    left = env.flag('reflected')
    f = (lambda x: op(scalar, x)) if left else (lambda x: op(x, scalar))
    want = f(env.array(s))
    r = env.do(lambda: f(a), 'building')
    kinds = (np.dtype(want.dtype).kind, r.dtype.kind)
    if set(kinds) != set('ui'):
        env.check(r.dtype == want.dtype, 'reported type: %s instead of %s'
                  % (r.dtype, want.dtype))
    sp = env.checksum(want)
    got = env.do(r.ndarray, 'realising')
    env.check(got.dtype == r.dtype, 'realised type')
    env.same(got, sp, 'scalar operand', dtype=False)
    env.same(env.do(r[1:].ndarray, 'realising'),
             sp.index((slice(1, None),)), 'selection', dtype=False)


SHAPES = ['n n', 'n 1', '1 n', 'nm m', 'm nm', 'nm n1', 'n1 1m', '1m n1',
          'nm 1m', ' n', 'n ', ' ', '1 1', 'nm ', 'l1m n1', '1n m11']
SHAPES3 = ['lnm m', 'lnm n1', 'nm lnm']


@scenario('C06', quick=product(shapes=SHAPES) +
          product(shapes=SHAPES3, fixed=[True]),
          thorough=product(shapes=SHAPES3), max_loop=3)
def broadcasting(env, shapes, fixed=False):
    x, y = shapes.split(' ')
    size = {c: env.int(c, 0, 20) for c in 'lnm'}
    if fixed:
        size['l'], size['n'] = 2, 3
    size['1'] = 1
    sx = tuple(size[c] for c in x)
    sy = tuple(size[c] for c in y)
    rank = max(len(x), len(y))
    px, py = x.rjust(rank, '1'), y.rjust(rank, '1')
    full = tuple(size[a if a != '1' else b] for a, b in zip(px, py))
    a, s = leaf(env, 'A', sx, 'f8')
    b, t = leaf(env, 'B', sy, 'f8')
    r = env.do(lambda: a - b, 'building')
    want = S.elementwise(np.subtract, [s.broadcast(full),
                                       t.broadcast(full)], full)
    env.same_shape(r.shape, full, 'reported shape')
    env.same(env.do(r.ndarray, 'realising'), want, 'broadcast')
    if rank:
        kinds = ['full'] * rank
        kinds[env.small('d', 0, rank - 1)] = env.choice(
            'kind', ['int', 'slice:b', 'nslice:'])
        key = take_keys(env, 'k', kinds, full)
        env.same(env.do(lambda: r[key].ndarray(), 'indexing'),
                 want.index(key), 'selection')


@scenario('C06', quick=product(shapes=['n m', 'kn m', 'kn km', 'kn jn',
                                       'n km', 'kn 1m']), max_loop=3)
def mismatch(env, shapes):
    x, y = shapes.split(' ')
    size = {c: env.int(c, 0, 20) for c in 'knmj'}
    size['1'] = 1
    a, s = leaf(env, 'A', tuple(size[c] for c in x), 'f8')
    b, t = leaf(env, 'B', tuple(size[c] for c in y), 'f8')
    rank = max(len(x), len(y))
    px, py = x.rjust(rank, '1'), y.rjust(rank, '1')
    bad = False
    for c, d in zip(px, py):
        u, v = size[c], size[d]
        bad = env.any([bad, env.all([env.not_(u == v), env.not_(u == 1),
                                     env.not_(v == 1)])])
    env.assume(bad)
    k, v = env.attempt(lambda: env.B.add(a, b))
    env.check(k == 'err' and isinstance(v, (TypeError, ValueError)),
              'shapes which do not broadcast: %s' % (
                  'accepted' if k == 'ok' else type(v).__name__))
    k, v = env.attempt(lambda: a + b)
    env.check(k == 'err', 'operator on shapes which do not broadcast: '
              'accepted')


EXPRS = {
    'sub': ('f8', lambda B, a, b, c: a - b, lambda x, a, b, c: a - b),
    'nested': ('i4', lambda B, a, b, c: B.maximum(a - b, c) - a,
               lambda x, a, b, c: x.maximum(a - b, c) - a),
    'deep': ('i4', lambda B, a, b, c: B.negative(B.absolute(a)) - (b + c),
             lambda x, a, b, c: x.negative(x.absolute(a)) - (b + c)),
    'bcast': ('i4', lambda B, a, b, c: (a - b[0]) - c[:, :1],
              lambda x, a, b, c: (a - b[0]) - c[:, :1]),
    'square': ('f8', lambda B, a, b, c: a * a - a,
               lambda x, a, b, c: a * a - a),
    'reduced': ('i8', lambda B, a, b, c: B.sum(a, 1) - B.max(b, 1),
                lambda x, a, b, c: a.sum(1) - b.max(1)),
    'layouts': ('i8', lambda B, a, b, c: B.sum(a, 1) - b[:, 0],
                lambda x, a, b, c: a.sum(1) - b[:, 0]),
    'layouts2': ('i8', lambda B, a, b, c: b[0] - B.sum(a, 0),
                 lambda x, a, b, c: b[0] - a.sum(0)),
}


@scenario('C06', quick=product(expr=sorted(EXPRS), shape=[(2, 3)],
                               masked=[False, True]) +
          product(expr=['nested', 'bcast'], shape=[(3, 2), (1, 4), (3, 1)],
                  masked=[False]),
          thorough=product(expr=sorted(EXPRS), shape=[(3, 2), (2, 4),
                                                      (3, 3)],
                           masked=[False, True]))
def chunked(env, expr, shape, masked):
    """Whatever the chunk-size limit."""
    dtype, f, g = EXPRS[expr]
    env.sources = {}
    size = shape[0] * shape[1]
    arrs, specs = [], []
    for name in 'ABC':
        s = env.data(name, shape, dtype, generic=True,
                     masked='mask' if masked else None)
        specs.append(s)
        arrs.append(adapt(env, s, name))
    env.set_chunk(env.int('limit', 1, size + 1))
    r = env.do(lambda: f(env.B, *arrs), 'building')
    mod = env.xp.ma if masked else env.xp
    want = g(mod, *[env.array(s) for s in specs])
    got = env.do(r.masked_array if masked else r.ndarray, 'realising')
    env.expect(got, want, 'chunked', exact=False)
    want = want[1:]
    r = env.do(lambda: r[1:], 'indexing')
    got = env.do(r.masked_array if masked else r.ndarray, 'realising')
    env.expect(got, want, 'chunked selection', exact=False)


@scenario('C06', quick=product(kind=['negative', 'add', 'bcadd']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
