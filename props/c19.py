"""C19: structural operations are applied, one or two after another, to sources
with arbitrary data, masks and fill values and dimensions of symbolic length;
mask and data of an arbitrary element of the masked realisation, and the value
of an arbitrary element of the plain one, are compared with those of the source
element which the operations lead to. Fill values themselves (given symbolic
values) are compared for stacks and mosaics, also nested ones."""
import numpy as np

from sx import spec as S
from props import subjects as SUB
from sx.harness import scenario, product
from props.common import take_keys
from props.subjects import adapt, objects

ASSUMPTIONS = [
    'Sources of rank 1 and 2 and any lengths; chains of up to two structural '
    'operations (three in the thorough tier); stacks and mosaics of two or '
    'three parts. Fill values of stacks and mosaics: any integer or finite '
    'real, NaN and the defaults.',
]


class Item(object):
    """An array with what it ought to realise to, masked and plain."""
    def __init__(self, arr, masked, plain):
        self.arr = arr
        self.masked = masked
        self.plain = plain      # None: not specified

    @property
    def ndim(self):
        return self.masked.ndim

    def by(self, arr, f):
        return Item(arr, f(self.masked),
                    None if self.plain is None else f(self.plain))


def leaf(env, name, shape, dtype, masked, fill, ortho=False):
    s = env.data(name, shape, dtype, masked=masked, fill=fill)
    if not hasattr(env, 'sources'):
        env.sources = {}
    return Item(adapt(env, s, name, ortho), s, s.filled())


def combine(items, arr, f):
    plain = [i.plain for i in items]
    return Item(arr, f([i.masked for i in items]),
                None if any(p is None for p in plain) else f(plain))


def twin(env, item, name, dtype, masked, fill):
    """A second source of the same shape, as it is or transformed."""
    return leaf(env, name, item.masked.shape, item.masked.dtype, masked, fill)


OPS = ['int', 'slice', 'reverse', 'sequence', 'none', 'transpose', 'newaxis',
       'broadcast', 'leading', 'cast', 'maskval', 'stack', 'tiles', 'tiles-1']


def apply(env, op, item, tag, other):
    B = env.B
    a = item.arr
    shape = item.masked.shape
    if op in ('int', 'slice', 'reverse', 'sequence', 'none'):
        kinds = {'int': ('int',), 'slice': ('pslice:bs' if tag == '0' else 'pslice:bt',),
                 'reverse': ('nslice:b',), 'sequence': ('seq2',),
                 'none': ('none', 'pslice:b')}[op]
        keys = take_keys(env, 'k' + tag, kinds, shape)
        return item.by(env.do(lambda: a[keys], op), lambda s: s.index(keys))
    if op == 'transpose':
        return item.by(env.do(a.transpose, op), lambda s: s.transpose())
    if op == 'newaxis':
        keys = (slice(None),) * item.ndim + (None,)
        return item.by(env.do(lambda: a[keys], op), lambda s: s.index(keys))
    if op == 'broadcast':
        # (Only dimensions which are made of length one.)
        keys = (None,)
        m = env.int('m' + tag, 0)
        return item.by(
            env.do(lambda: B.BroadcastArray(a[keys], {0: m}), op),
            lambda s: s.index(keys).broadcast((m,) + tuple(shape)))
    if op == 'leading':
        m = env.int('l' + tag, 1)
        return item.by(env.do(lambda: B.BroadcastArray(a, {}, (m,)), op),
                       lambda s: s.broadcast((m,) + tuple(shape)))
    if op == 'cast':
        return item.by(env.do(lambda: a.astype('f8'), op),
                       lambda s: s.cast('f8'))
    if op == 'maskval':
        v = env.int('v' + tag, -100, 100)
        return Item(env.do(lambda: B.masked_equal(a, v), op),
                    item.masked.mask_equal(v), None)
    b = other(item, tag)
    if op == 'stack':
        return combine([item, b], env.do(lambda: B.ArrayStack(
            objects([a, b.arr], (2,))), op), lambda ss: S.stack(
                {(0,): ss[0], (1,): ss[1]}, (2,)))
    axis = 0 if op == 'tiles' else item.ndim - 1
    return combine([b, item], env.do(lambda: B.LinearMosaic(
        [b.arr, a], axis), op), lambda ss: S.concat(ss, axis))


def judge(env, item, what):
    got = env.do(item.arr.masked_array, 'realising')
    if item.masked.mask is None:
        item.masked.mask = lambda i: False
    env.same_masked(got, item.masked, what)
    if item.plain is not None:
        got = env.do(item.arr.ndarray, 'realising')
        env.same(got, item.plain, what + ' (plain)')


def chain(env, ops, masked, rank, fill, ortho=False, dtype='i4'):
    shape = [env.int('n%d' % d, 0) for d in range(rank)]
    item = leaf(env, 'A', tuple(shape), dtype, masked, fill, ortho)
    second = env.choice('second', [fill, None] if fill else [fill])

    def other(item, tag):
        return leaf(env, 'B' + tag, item.masked.shape, item.masked.dtype,
                    masked, second)
    for j, op in enumerate(ops):
        if op == 'sequence' and j and ops[j - 1] in ('broadcast', 'leading',
                                                     'none'):
            return      # (Refused: not implemented.)
        if op in ('int', 'slice', 'reverse', 'sequence', 'none', 'tiles',
                  'tiles-1') and not item.ndim:
            return
        item = apply(env, op, item, str(j), other)
    judge(env, item, ' '.join(ops))


@scenario('C19', quick=product(op=OPS, masked=['mask', 'nomask'],
                               ortho=[False, True]) +
          product(op=OPS, masked=[None], ortho=[False]), max_loop=4)
def one_step(env, op, masked, ortho):
    """Any operation on a source."""
    chain(env, [op], masked, 2, -7, ortho)


@scenario('C19', quick=product(dtype=['f8', 'f4'], value=['real'],
                               masked=[None, 'mask', 'nomask']) +
          product(dtype=['i4', 'u1'], value=['int', 'half'],
                  masked=[None, 'mask']) +
          product(dtype=['?'], value=['bool'], masked=[None, 'mask']),
          max_loop=4)
def by_value(env, dtype, value, masked):
    """Views which mask one value or two, and a selection of them."""
    item = leaf(env, 'A', (env.int('n', 0),), dtype, masked, None)
    for j in range(env.small('times', 1, 2)):
        v = {'real': lambda: env.real('v%d' % j, -100, 100),
             'int': lambda: env.int('v%d' % j, 0, 100),
             'half': lambda: env.int('v%d' % j, 0, 100) * 0.5,
             'bool': lambda: env.bool('v%d' % j)}[value]()
        if not env.sym and value == 'real':
            v = float(v)
        arr = item.arr
        item = Item(env.do(lambda: env.B.masked_equal(arr, v), 'masking'),
                    item.masked.mask_equal(v), None)
    if env.flag('select'):
        item = apply(env, 'slice', item, '0', None)
    judge(env, item, 'masked by value')


@scenario('C19', quick=product(first=[o for o in OPS if o not in ('none',
                                                                  'tiles-1')],
                               masked=['mask']), max_loop=3)
def two_steps(env, first, masked):
    """Any two operations, one after the other."""
    chain(env, [first, env.choice('then', OPS)], masked, 1, -7)


@scenario('C19', thorough=product(first=OPS, second=OPS, masked=['mask']),
          max_loop=3)
def three_steps(env, first, second, masked):
    """Any three operations."""
    chain(env, [first, second, env.choice('then', OPS)], masked, 1, -7)


# -------------------------------------------------------------- fill values

class Concrete(object):
    """A source with a fill value of its own (never read here)."""
    def __init__(self, shape, dtype, fill):
        self.shape = shape
        self.ndim = len(shape)
        self.dtype = np.dtype(dtype)
        if fill is not None:
            self.fill_value = fill


NAN = float('nan')


def any_fill(env, name, dtype):
    """None (no fill value of its own), or any value (NaN included)."""
    kind = np.dtype(dtype).kind
    how = env.choice(name + ' is', ['any', None] + ['nan'] * (kind == 'f'))
    if how is None:
        return None
    if how == 'nan':
        return NAN
    if kind == 'f':
        v = env.real(name)
        return v if env.sym else float(v)
    info = np.iinfo(dtype)
    return env.int(name, int(info.min), int(info.max))


def isnan(v):
    return isinstance(v, float) and v != v


def agree(env, a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return env.all([a == b])


def common(env, fills, default):
    """The value all of these have in common, or else the default."""
    for f in fills[1:]:
        if not bool(agree(env, fills[0], f)):
            return default
    return fills[0]


def default_fill(dtype):
    v = S.default_fill(dtype)
    return float(v) if np.dtype(dtype).kind == 'f' else int(v)


def assemble(env, kind, parts):
    if kind == 'stack':
        return env.do(lambda: env.B.ArrayStack(
            objects(parts, (len(parts),))), kind)
    if kind == 'grid':
        return env.do(lambda: env.B.ArrayStack(
            objects(parts, (len(parts) // 2, 2))), kind)
    return env.do(lambda: env.B.LinearMosaic(parts, 0), kind)


@scenario('C19', quick=product(kind=['stack', 'tiles'], dtype=['f8', 'i4'],
                               count=[2, 3]) +
          product(kind=['grid'], dtype=['f4', 'i2'], count=[4]),
          thorough=product(kind=['stack', 'tiles'],
                           dtype=['f4', 'i8', 'u1', 'i2'], count=[1, 4]))
def common_fill(env, kind, dtype, count):
    """The fill value of a stack or mosaic."""
    default = default_fill(dtype)
    fills = [any_fill(env, 'f%d' % j, dtype) for j in range(count)]
    parts = [env.B.NumpyArrayAdapter(Concrete((2,), dtype, f)) for f in fills]
    fills = [default if f is None else f for f in fills]
    for p, f in zip(parts, fills):
        env.check(agree(env, p.fill_value, f), 'fill value of a source')
    arr = assemble(env, kind, parts)
    env.check(agree(env, arr.fill_value, common(env, fills, default)),
              'fill value of a %s' % kind)
    # Parts of it have the fill value which is common to their own parts.
    if kind == 'stack' and count > 1:
        sub = env.do(lambda: arr[1:], 'indexing')
        env.check(agree(env, sub.fill_value,
                        common(env, fills[1:], default)),
                  'fill value of a part of a stack')
        sub = env.do(lambda: arr[0], 'indexing')
        env.check(agree(env, sub.fill_value, fills[0]),
                  'fill value of an item of a stack')
    if kind == 'tiles' and count > 1:
        sub = env.do(lambda: arr[2:], 'indexing')
        env.check(agree(env, sub.fill_value,
                        common(env, fills[1:], default)),
                  'fill value of a part of a mosaic')


@scenario('C19', quick=product(inner=['stack', 'tiles'],
                               outer=['stack', 'tiles'], dtype=['f8']))
def nested_fill(env, inner, outer, dtype):
    """Stacks and mosaics of stacks and mosaics."""
    default = default_fill(dtype)
    fills = [any_fill(env, 'f%d' % j, dtype) for j in range(3)]
    parts = [env.B.NumpyArrayAdapter(Concrete((2,), dtype, f)) for f in fills]
    fills = [default if f is None else f for f in fills]
    a = assemble(env, inner, parts[:2])
    b = assemble(env, inner, [parts[2], parts[2]])
    arr = assemble(env, outer, [a, b])
    env.check(agree(env, arr.fill_value, common(
        env, [common(env, fills[:2], default), fills[2]], default)),
        'fill value of a nested %s' % outer)


@scenario('C19', quick=product(kind=['stack', 'tiles', 'grid', 'adapter'],
                               dtype=['f8', 'i4'], masked=['mask']) +
          product(kind=['stack', 'tiles', 'adapter'], dtype=['f8'],
                  masked=['nomask', None, 'mixed']),
          thorough=product(kind=['stack', 'tiles', 'grid', 'adapter'],
                           dtype=['f4', 'i2'],
                           masked=['mask', 'nomask', None, 'mixed']),
          max_loop=4)
def realised_fill(env, kind, dtype, masked):
    """Fill values in what stacks and mosaics are realised to."""
    count = {'grid': 4, 'adapter': 1}.get(kind, 2)
    n = env.int('n', 0)
    items = []
    for j in range(count):
        m = 'mask' if masked == 'mixed' and j else masked
        if masked == 'mixed' and not j:
            m = None
        fill = env.choice('fill%d' % j, [None, -7, 5] + [NAN] * (
            dtype[0] == 'f' and j > 0)) if m and j < 2 else None
        items.append(leaf(env, 'A%d' % j, (n,), dtype, m, fill))
    if kind == 'adapter':
        item = items[0]
    else:
        arr = assemble(env, kind, [i.arr for i in items])

        def f(ss):
            if kind == 'tiles':
                return S.concat(ss, 0)
            shape = (2,) if kind == 'stack' else (2, 2)
            return S.stack(dict(zip(np.ndindex(*shape), ss)), shape)
        item = combine(items, arr, f)
    if any(isnan(i.masked.fill) for i in items):
        item.plain = None
    default = default_fill(dtype)
    fill = common(env, [default if i.masked.fill is None else i.masked.fill
                        for i in items], default)
    judge(env, item, kind)
    got = env.do(item.arr.masked_array, 'realising')
    env.check(agree(env, item.arr.fill_value, fill), 'fill value')
    env.check(agree(env, got.fill_value, fill),
              'fill value of the masked array')
    sub = env.do(lambda: item.arr[1:], 'indexing')
    env.check(agree(env, env.do(sub.masked_array, 'realising').fill_value,
                    sub.fill_value), 'fill value of the masked part')


@scenario('C19', quick=product(kind=['maskval'], masked=['mask']), max_loop=3)
def numpy_integers(env, kind, masked):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind, masked)
