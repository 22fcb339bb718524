"""C17: the reads which the data sources record. While arrays of every kind
are built, indexed, combined and asked for their shape, type, size and text,
there must be none; realising a selection of a stack, mosaic or transposed
view, an arbitrary element which is read must be one of the selection (or of
the part of it); and under any chunk-size limit no piece is larger."""
import numpy as np

from sx import spec as S
from sx.harness import scenario, product
from sx.seq import slice_indices, range_len
from props.c12 import Pool
from props.common import take_keys
from props.subjects import adapt, make, objects, KINDS

ASSUMPTIONS = [
    'Building: sources with dimensions of any length, one selection by any '
    'key. Selections: integers and slices of any bounds and steps, stacks of '
    '2, 3 and 2x2, 2 or 3 tiles, transposed views of rank 2 and 3. Pieces: '
    'the limits up to one more than the size of sources of at most 6 '
    'elements, and every limit for vectors of any length (up to 4 pieces).',
]


def reads(env):
    return sum(len(s.reads) for s in env.sources.values())


def unread(env, what):
    env.check(reads(env) == 0, '%s reads a source' % what)


def ask(env, a):
    n = 1
    for x in a.shape:
        n = n * x
    a.ndim, a.dtype, a.nbytes
    unread(env, 'asking for the shape, type or size')
    repr(a)
    str(a)
    env.B.size(a)
    unread(env, 'a textual representation')


@scenario('C17', quick=product(kind=KINDS + ['vector', 'cube'],
                               masked=[None, 'mask']),
          max_loop=3)
def asking(env, kind, masked):
    """Building and describing an array of any kind."""
    def dim(name, lo=0):
        return env.small(name, lo, 3)
    a, s = env.do(lambda: make(env, kind, dim, 'f8', masked=masked),
                  'building')
    unread(env, 'building')
    env.do(lambda: ask(env, a), 'asking')


def combinations(B):
    return {
        'sum': lambda a: B.sum(a, axis=0),
        'mean': lambda a: B.mean(a, axis=-1),
        'std': lambda a: B.std(a, axis=0),
        'count': lambda a: B.count(a, axis=0),
        'max': lambda a: B.max(a, axis=0),
        'negative': lambda a: B.negative(a),
        'double': lambda a: a + a,
        'power': lambda a: a ** 2,
        'scalar': lambda a: 3 - a,
        'cast': lambda a: a.astype('i4'),
        'stack': lambda a: B.ArrayStack(objects([a, a], (2,))),
        'tiles': lambda a: B.LinearMosaic([a, a], 0),
        'transpose': lambda a: a.transpose(),
        'newaxis': lambda a: a[None],
        'masked': lambda a: B.masked_equal(a, 1),
        'broadcast': lambda a: B.BroadcastArray(a, {}, (2,)),
        'slice': lambda a: a[::-2],
        'int': lambda a: a[-1],
        'mask': lambda a: a[np.array([True, False])],
        'sequence': lambda a: a[((1, 0),)],
    }


COMBINATIONS = ['sum', 'mean', 'std', 'count', 'max', 'negative', 'double',
                'power', 'scalar', 'cast', 'stack', 'tiles', 'transpose',
                'newaxis', 'masked', 'broadcast', 'slice', 'int', 'mask',
                'sequence']


@scenario('C17', quick=product(kind=['adapter', 'ortho', 'sliced', 'stack',
                                     'mosaic0', 'transpose', 'newaxis',
                                     'broadcast', 'leading', 'cast',
                                     'maskval', 'add', 'sum'],
                               masked=[None]),
          thorough=product(kind=['adapter', 'stack', 'mosaic0', 'sum',
                                 'add', 'mosaic1', 'stack2', 'cube'],
                           masked=['mask']))
def combining(env, kind, masked):
    """Any two combinations, one after the other."""
    def dim(name, lo=0):
        return 2
    a, s = env.do(lambda: make(env, kind, dim, 'f8', masked=masked),
                  'building')
    unread(env, 'building')
    how = combinations(env.B)
    for step in ('first', 'second'):
        name = env.choice(step, COMBINATIONS)
        k, b = env.attempt(lambda: how[name](a))
        unread(env, 'combining (%s)' % name)
        if k == 'err':
            # (Not every kind takes every key; see C01 to C06.)
            break
        a = b
        env.do(lambda: ask(env, a), 'asking')


# ------------------------------------------------------------- selections

def selected(env, key, n, q):
    """Whether an int or slice key of a dimension selects position q."""
    if isinstance(key, (tuple, list)):
        return env.any([selected(env, k, n, q) for k in key])
    if not isinstance(key, slice):
        return q == (key + n if bool(key < 0) else key)
    start, stop, step = slice_indices(key, n)
    if bool(step < 0):
        return env.all([q <= start, q > stop, (start - q) % (-step) == 0])
    return env.all([start <= q, q < stop, (q - start) % step == 0])


def expand(keys, rank):
    keys = keys if isinstance(keys, tuple) else (keys,)
    out = []
    for k in keys:
        if k is Ellipsis:
            out += [slice(None)] * (rank - len(keys) + 1)
        else:
            out.append(k)
    return out + [slice(None)] * (rank - len(out))


def check_reads(env, parts, what):
    """
    parts: (source, wanted), with wanted(q) whether an element is needed.
    """
    for j, (src, wanted) in enumerate(parts):
        q = [env.int('q%d.%d' % (j, d), 0) for d in range(src.ndim)]
        inside = env.all([x < n for x, n in zip(q, src.shape)])
        need = wanted(q)
        for keys, _ in src.reads:
            keys = expand(keys, src.ndim)
            got = env.all([selected(env, k, n, x)
                           for k, n, x in zip(keys, src.shape, q)])
            env.check(env.any([env.not_(inside), env.not_(got), need]),
                      '%s: reads an element which is not part of it' % what)


def realise(env, a, masked, engine):
    B = env.B
    if engine:
        f = B.masked_arrays if masked else B.ndarrays
        env.do(lambda: f([a]), 'realising')
    else:
        env.do(a.masked_array if masked else a.ndarray, 'realising')


KEYS = ['int', 'slice:bes', 'full']


@scenario('C17', quick=product(shape=[(2,), (3,)], kind=['int', 'slice:bes'],
                               item=['int', 'slice:bes', 'full'],
                               masked=[None]) +
          product(shape=[(2, 2)], kind=['int', 'slice:s'],
                  item=['int', 'pslice:be'], masked=['mask']),
          thorough=product(shape=[(2, 2), (3, 1), (4,)],
                           kind=['int', 'slice:bes'],
                           item=['int', 'slice:bes', 'full'],
                           masked=[None, 'mask']), max_loop=4)
def stacks(env, shape, kind, item, masked):
    env.sources = {}
    n = env.int('n', 0)
    parts, specs, sources = [], {}, []
    for j, pos in enumerate(np.ndindex(*shape)):
        s = env.data('A%d' % j, (n,), 'f8', masked=masked, generic=True)
        specs[pos] = s
        parts.append(adapt(env, s, 'A%d' % j))
        sources.append((pos, env.sources['A%d' % j]))
    arr = env.B.ArrayStack(objects(parts, shape))
    kinds = [kind] + [env.choice('s%d' % d, ['int', 'full', 'nslice:'])
                      for d in range(1, len(shape))] + [item]
    keys = take_keys(env, 'k', kinds, shape + (n,))
    a = env.do(lambda: arr[keys], 'indexing')
    unread(env, 'indexing')
    realise(env, a, masked, False)
    check_reads(env, [(src, lambda q, pos=pos: env.all(
        [selected(env, k, m, p) for k, m, p in zip(keys, shape + (n,),
                                                   list(pos) + q)]))
        for pos, src in sources], 'a part of a stack')
    for pos, src in sources:
        sel = env.all([selected(env, k, m, p)
                       for k, m, p in zip(keys, shape, pos)])
        env.check(env.any([sel, len(src.reads) == 0]),
                  'an item which is not part of the selection is read')


@scenario('C17', quick=product(axis=[0, 1], kind=['int', 'slice:e'],
                               masked=[None], count=[2]) +
          product(axis=[0], kind=['slice:bes'], masked=[None], count=[2]) +
          product(axis=[0], kind=['int', 'slice:be'], masked=['mask'],
                  count=[2]) +
          product(axis=[0], kind=['int', 'pslice:be', 'nslice:b'],
                  masked=[None], count=[3]),
          thorough=product(axis=[0, 1], kind=['int', 'slice:bes'],
                           masked=[None, 'mask'], count=[3]), max_loop=4)
def mosaics(env, axis, kind, masked, count):
    env.sources = {}
    m = env.int('m', 0)
    lengths = [env.int('n%d' % j, 0) for j in range(count)]
    tiles, sources = [], []
    at = 0
    for j, n in enumerate(lengths):
        shape = (n, m) if axis == 0 else (m, n)
        s = env.data('A%d' % j, shape, 'f8', masked=masked, generic=True)
        tiles.append(adapt(env, s, 'A%d' % j))
        sources.append((at, env.sources['A%d' % j]))
        at = at + n
    arr = env.B.LinearMosaic(tiles, axis)
    other = env.choice('other', ['int', 'full', 'pslice:b'])
    kinds = [kind, other] if axis == 0 else [other, kind]
    shape = (at, m) if axis == 0 else (m, at)
    keys = take_keys(env, 'k', kinds, shape)
    a = env.do(lambda: arr[keys], 'indexing')
    unread(env, 'indexing')
    realise(env, a, masked, False)

    def wanted(q, start):
        q = list(q)
        q[axis] = q[axis] + start
        return env.all([selected(env, k, n, x)
                        for k, n, x in zip(keys, shape, q)])
    check_reads(env, [(src, lambda q, start=start: wanted(q, start))
                      for start, src in sources], 'a part of a mosaic')


@scenario('C17', quick=product(axes=[(1, 0), (2, 0, 1)], kind=['int',
                                                               'slice:bes'],
                               masked=[None, 'mask']),
          thorough=product(axes=[(1, 2, 0), (0, 2, 1), (2, 1, 0)],
                           kind=['int', 'slice:bes'],
                           masked=[None, 'mask']), max_loop=4)
def transposed(env, axes, kind, masked):
    env.sources = {}
    shape = tuple(env.int('n%d' % d, 0) for d in range(len(axes)))
    s = env.data('A', shape, 'f8', masked=masked, generic=True)
    a = adapt(env, s, 'A')
    src = env.sources['A']
    view = a.transpose(axes)
    kinds = [kind] + [env.choice('k%d' % d, ['int', 'full', 'nslice:b'])
                      for d in range(1, len(axes))]
    keys = take_keys(env, 'k', kinds, [shape[d] for d in axes])
    a = env.do(lambda: view[keys], 'indexing')
    unread(env, 'indexing')
    realise(env, a, masked, False)
    check_reads(env, [(src, lambda q: env.all(
        [selected(env, k, shape[d], q[d]) for k, d in zip(keys, axes)]))],
        'a part of a transposed view')


# ------------------------------------------------------------------ pieces

def check_pieces(env, limit, what):
    for name, src in sorted(env.sources.items()):
        for keys, _ in src.reads:
            n = 1
            for key, m in zip(expand(keys, src.ndim), src.shape):
                if isinstance(key, (tuple, list, np.ndarray)):
                    n = n * len(key)
                elif isinstance(key, slice):
                    n = n * range_len(*slice_indices(key, m))
            env.check(n <= limit, '%s: reads a piece of %s which is larger '
                      'than the limit' % (what, name))


EXPRESSIONS = [('-A',), ('A+B',), ('A+V',), ('A.sum.0',), ('A.sum.1',),
               ('A.max.0',), ('A.count.1',), ('A.mean.0',), ('A.std.1',),
               ('A+B.sum.1',), ('-A.sum.0',), ('max1-sum1',), ('sum0+V',),
               ('A-sum0',), ('sum1+W',), ('A.sum.0', 'A.sum.1'),
               ('A+B', 'A.max.0')]


@scenario('C17', quick=product(arrays=EXPRESSIONS, masked=[None],
                               shape=[(2, 3)]) +
          product(arrays=EXPRESSIONS, masked=['mask'], shape=[(2, 2)]),
          thorough=product(arrays=EXPRESSIONS, masked=[None],
                           shape=[(3, 2), (3, 3), (2, 4)]))
def pieces(env, arrays, masked, shape):
    """Elementwise operations and reductions."""
    pool = Pool(env, masked, shape, 'f8' if masked else 'i4',
                fixed=any(f in n for n in arrays for f in ('mean', 'std')))
    both = [pool.get(n) for n in arrays]
    limit = env.small('limit', 1, shape[0] * shape[1] + 1)
    env.set_chunk(limit)
    f = env.B.masked_arrays if masked else env.B.ndarrays
    env.do(lambda: f([a for a, _ in both]), 'realising')
    env.check(reads(env) > 0, 'nothing is read')
    check_pieces(env, limit, ' '.join(arrays))


ALONE = ['-A', 'A+B', 'A+V', 'A.sum.0', 'A.max.1', 'A.mean.0', 'A+B.sum.1',
         'max1-sum1', 'A-sum0']


@scenario('C17', quick=product(name=ALONE, masked=[None]) +
          product(name=ALONE[:4], masked=['mask']),
          thorough=product(name=ALONE, masked=[None, 'mask'],
                           shape=[(3, 2)]))
def alone(env, name, masked, shape=(2, 3)):
    """An array realised by its own methods, and selections of it."""
    pool = Pool(env, masked, shape, 'f8' if masked else 'i4',
                fixed=any(f in name for f in ('mean', 'std')))
    a, _ = pool.get(name)
    limit = env.small('limit', 1, shape[0] * shape[1] + 1)
    env.set_chunk(limit)
    if env.flag('part'):
        a = a[1:]
    env.do(a.masked_array if env.flag('as masked') else a.ndarray,
           'realising')
    env.check(reads(env) > 0, 'nothing is read')
    check_pieces(env, limit, name)


class Target(object):
    def __setitem__(self, keys, value):
        pass


@scenario('C17', quick=product(expr=['-A', 'A+A'], save=[False, True]) +
          product(expr=['A'], save=[True]) +
          product(expr=['sum'], save=[False], _opts=[dict(max_loop=2)]),
          thorough=product(expr=['sum'], save=[True],
                           _opts=[dict(max_loop=2)]), max_loop=4)
def vectors(env, expr, save):
    """Vectors of any length, any limit."""
    env.sources = {}
    n = env.int('n', 0)
    s = env.data('A', (n, 2) if expr == 'sum' else (n,), 'f8', generic=True)
    a = adapt(env, s, 'A')
    limit = env.int('limit', 1)
    env.set_chunk(limit)
    B = env.B
    r = {'A': lambda: a, '-A': lambda: B.negative(a), 'A+A': lambda: a + a,
         'sum': lambda: B.sum(a, axis=1)}[expr]()
    if save:
        env.do(lambda: B.save([r], [Target()]), 'saving')
        if expr != 'sum':
            check_pieces(env, limit, expr)
    else:
        env.do(lambda: B.ndarrays([r]), 'realising')
        check_pieces(env, limit, expr)


@scenario('C17', quick=product(kind=['adapter', 'stack', 'stack2', 'mosaic0',
                                     'mosaic1', 'transpose', 'newaxis',
                                     'leading', 'cast', 'negative', 'add'],
                               masked=[None, 'mask']) +
          product(kind=['picked-seq2', 'picked-full-seq3', 'picked-int-seq2',
                        'picked-seq2-int',
                        'picked-pslice:b-pslice:b'],
                  masked=[None]))
def saving(env, kind, masked):
    """Arrays of every kind."""
    picked = kind.startswith('picked')
    def dim(name, lo=0):
        return env.small(name, lo, 3) if name == 'n' else 2
    a, s = make(env, 'adapter' if picked else kind, dim, 'f8', masked=masked)
    if picked:
        keys = take_keys(env, 'k', kind.split('-')[1:], s.shape)
        a = env.do(lambda: a[keys], 'indexing')
    limit = env.small('limit', 1, 7)
    env.set_chunk(limit)
    env.do(lambda: env.B.save([a], [Target()], masked=masked is not None),
           'saving')
    check_pieces(env, limit, kind)
