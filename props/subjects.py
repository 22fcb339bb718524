"""
Virtual arrays of every kind, each with the specification of its contents.
"""
import numpy as np

from sx import cells as C
from sx import spec as S


def adapt(env, spec, name='A', ortho=False, plain=False):
    if plain:
        return env.B.NumpyArrayAdapter(env.array(spec))
    src = env.source(spec, name, ortho=ortho)
    env.sources[name] = src
    if ortho:
        return env.B.OrthoArrayAdapter(src)
    return env.B.NumpyArrayAdapter(src)


def objects(items, shape):
    """An object array of the given shape."""
    a = np.empty(shape, dtype=object)
    for pos, x in zip(np.ndindex(*shape), items):
        a[pos] = x
    return a


def dims(env, rank, name='n', lo=0):
    return tuple(env.int('%s%d' % (name, d), lo) for d in range(rank))


KINDS = ['adapter', 'ortho', 'sliced', 'stack', 'stack2', 'mosaic0',
         'mosaic1', 'transpose', 'newaxis', 'broadcast', 'leading',
         'constant', 'cast', 'maskval', 'negative', 'add', 'bcadd', 'sum']


def make(env, kind, dim=None, dtype='f8', masked=None, fill=None,
         plain=False):
    """
    (array, spec) of the given kind.  dim(name, lo) gives a dimension length
    (symbolic by default).
    """
    if not hasattr(env, 'sources'):
        env.sources = {}
    B = env.B
    dim = dim or (lambda name, lo=0: env.int(name, lo))

    def leaf(name, shape, ortho=False, dt=dtype):
        s = env.data(name, shape, dt, masked=masked, fill=fill)
        return adapt(env, s, name, ortho, plain), s

    n = dim('n', 0)
    if kind in ('adapter', 'ortho'):
        return leaf('A', (n, dim('m', 0)), kind == 'ortho')
    if kind == 'vector':
        return leaf('A', (n,))
    if kind == 'cube':
        return leaf('A', (n, dim('m', 0), dim('l', 0)))
    if kind == 'sliced':
        a, s = leaf('A', (n, dim('m', 0)))
        key = (env.make_slice('s0', 'b', (1, None)), slice(None, None, -1))
        return a[key], s.index(key)
    if kind in ('stack', 'stack2', 'stack0'):
        shape = {'stack': (2,), 'stack2': (2, 2), 'stack0': (1,)}[kind]
        parts = []
        specs = {}
        for j, pos in enumerate(np.ndindex(*shape)):
            a, s = leaf('A%d' % j, (n,))
            parts.append(a)
            specs[pos] = s
        return B.ArrayStack(objects(parts, shape)), S.stack(specs, shape)
    if kind in ('mosaic0', 'mosaic1', 'mosaicv'):
        m = dim('m', 0)
        p = dim('p', 0)
        if kind == 'mosaic0':
            shapes, axis = [(n, m), (p, m)], 0
        elif kind == 'mosaicv':
            shapes, axis = [(n,), (p,)], 0
        else:
            shapes, axis = [(m, n), (m, p)], 1
        both = [leaf('A%d' % j, sh) for j, sh in enumerate(shapes)]
        return (B.LinearMosaic([a for a, _ in both], axis),
                S.concat([s for _, s in both], axis))
    if kind == 'transpose':
        a, s = leaf('A', (n, dim('m', 0)))
        return a.transpose(), s.transpose()
    if kind == 'newaxis':
        a, s = leaf('A', (n,))
        return a[:, None], s.index((slice(None), None))
    if kind == 'broadcast':
        a, s = leaf('A', (n, 1))
        m = dim('m', 0)
        return B.BroadcastArray(a, {1: m}), s.broadcast((n, m))
    if kind == 'leading':
        a, s = leaf('A', (n,))
        m = dim('m', 1)
        return B.BroadcastArray(a, {}, (m,)), s.broadcast((m, n))
    if kind == 'constant':
        v = 3 if np.dtype(dtype).kind != 'b' else True
        shape = (n, dim('m', 0))
        c = S.constant(shape, v, dtype)
        if masked:
            c.mask = None
        return B.ConstantArray(shape, v, dtype), c
    if kind == 'cast':
        a, s = leaf('A', (n, dim('m', 0)), dt='i2')
        return a.astype(dtype), s.cast(dtype)
    if kind == 'maskval':
        a, s = leaf('A', (n, dim('m', 0)))
        return B.masked_equal(a, 2), s.mask_equal(2)
    if kind == 'negative':
        a, s = leaf('A', (n, dim('m', 0)))
        return B.negative(a), S.elementwise(np.negative, [s], s.shape)
    if kind == 'add':
        m = dim('m', 0)
        a, s = leaf('A', (n, m))
        b, t = leaf('B', (n, m))
        return a + b, S.elementwise(np.add, [s, t], s.shape)
    if kind == 'bcadd':
        a, s = leaf('A', (n, 1))
        b, t = leaf('B', (2,))
        shape = (n, 2)
        return a + b, S.elementwise(np.add, [s.broadcast(shape),
                                             t.broadcast(shape)], shape)
    if kind == 'scalaradd':
        a, s = leaf('A', (n,))
        k = S.constant((), 2, np.dtype(int))
        return a + 2, S.elementwise(np.add, [s, k.broadcast((n,))], (n,),
                                    dtype=s.dtype)
    if kind == 'sum':
        a, s = leaf('A', (2, n, dim('m', 0)))

        def wrap(v):
            return C.wrap_int(v, s.dtype) if s.dtype.kind in 'iu' else v
        if s.mask is not None:
            def total(pairs):
                (x, p), (y, q) = pairs
                zero = C.from_py(0, s.dtype)
                return (wrap(C.select(p, zero, x) + C.select(q, zero, y)),
                        C.b_and(p, q))
            return B.sum(a, axis=0), s.reduce(0, dtype, total, masked=True)
        return B.sum(a, axis=0), s.reduce(
            0, dtype, lambda c: wrap(c[0] + c[1]))
    raise ValueError(kind)


def numpy_integers(env, kind, masked=None):
    """Index an array by NumPy integers, twice."""
    if kind == 'sum':
        arr, spec = make(env, kind, masked=masked, dim=lambda name, lo=0:
                         env.small(name, 1, 2))
    else:
        arr, spec = make(env, kind, masked=masked)
    heavy = kind in ('stack2', 'mosaic0', 'mosaic1', 'sum', 'add',
                     'bcadd')
    options = ['npint', 'npslice', 'npuint']
    if kind not in ('broadcast', 'leading', 'bcadd', 'newaxis'):
        options += ['nps1', 'npus1'] if heavy else ['nps2', 'npus2']
    for j in range(1 if heavy else 2):
        if not spec.ndim:
            break
        d = env.small('dim%d' % j, 0, spec.ndim - 1)
        keys = [slice(None)] * spec.ndim
        keys[d] = env.make_key('k%d' % j, env.choice(
            'how%d' % j, options if not j else ['npint']), spec.shape[d])
        keys = tuple(keys[:d + 1]) if heavy or env.flag('trim') else tuple(keys)
        prev = arr
        arr = env.do(lambda: prev[keys], 'indexing')
        spec = spec.index(keys)
        env.same_shape(arr.shape, spec.shape, 'lazy shape')
    if masked:
        env.same_masked(env.do(arr.masked_array, 'realising'), spec,
                        'selection')
    else:
        env.same(env.do(arr.ndarray, 'realising'), spec, 'selection')
