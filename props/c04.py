"""C04: mosaics of one to three tiles (thorough: four) of symbolic lengths,
zero included, along either axis of arrays of rank one and two, are realised
and indexed with arbitrary in-range keys, once and twice; every element of
the result is compared with the concatenation's."""
import numpy as np
import sx.harness as H
from props import subjects as SUB
from sx.harness import scenario, product
from sx import spec as S
from props.common import take_keys
from props.subjects import adapt

ASSUMPTIONS = [
    'One to three tiles (thorough: four) of arbitrary lengths; ranks 1 and '
    '2 (3 for realising); when the tiling dimension is sliced or masked the '
    'mosaic has at most max_loop elements along it; sequences have at most 2 '
    '(thorough: 3) members; at most two indexing operations.',
]


def make(env, tiles, rank, axis, size=None, kinds=None):
    """`size`: the tiles' lengths are 0..size, decided one by one."""
    env.sources = {}
    other = [env.int('m%d' % d, 0) for d in range(rank - 1)]
    parts, specs = [], []
    for j in range(tiles):
        n = env.int('n%d' % j, 0) if size is None else \
            env.small('n%d' % j, 0, size)
        shape = other[:axis] + [n] + other[axis:]
        s = env.data('A%d' % j, shape, 'f8', generic=True)
        specs.append(s)
        parts.append(adapt(env, s, 'A%d' % j, ortho=bool(j % 2)))
    arr = env.do(lambda: env.B.LinearMosaic(parts, axis), 'tiling')
    return arr, S.concat(specs, axis)


def bare(keys):
    """A single key that is not a tuple needs no tuple around it."""
    if len(keys) == 1 and not isinstance(keys[0], tuple):
        return keys[0]
    return keys


def compare(env, arr, spec, what):
    env.same_shape(arr.shape, spec.shape, what + ' lazy shape')
    env.same(env.do(arr.ndarray, what), spec, what)


@scenario('C04', quick=product(tiles=[1, 2, 3], where=[
    (1, 0), (2, 0), (2, 1), (3, 1)]), thorough=product(
        tiles=[4, 5], where=[(1, 0), (2, 1), (3, 2)]), max_loop=4)
def realise(env, tiles, where):
    arr, spec = make(env, tiles, *where)
    compare(env, arr, spec, 'realising')


@scenario('C04', quick=product(tiles=[1, 2, 3], where=[(1, 0), (2, 0),
                                                       (2, 1)],
                               kind=['int', 'seq1', 'seq0']) +
          product(tiles=[1, 2], where=[(1, 0), (2, 1)],
                  kind=['seq2']) +
          product(tiles=[3], where=[(1, 0)], kind=['seq2', 'arr2']),
          thorough=product(tiles=[2, 3, 4], where=[(1, 0), (2, 1)],
                           kind=['seq2', 'arr2', 'seq3']), max_loop=4)
def picked(env, tiles, where, kind):
    """Integers and sequences on the tiling dimension."""
    arr, spec = make(env, tiles, *where)
    rank, axis = where
    kinds = [kind]
    if rank > 1:
        kinds.insert(1 - axis, env.choice('other', [
            'full', 'int', 'slice:b', 'seq2']))
        if env.flag('newaxis'):
            kinds.insert(1, 'none')
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[bare(keys)], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C04', quick=product(tiles=[1, 2, 3], where=[(1, 0), (2, 1)],
                               kind=['pslice:bes', 'nslice:bes'],
                               _opts=[dict(max_loop=4)]) +
          product(tiles=[2], where=[(2, 0)], kind=['slice:bes']),
          thorough=product(tiles=[3], where=[(1, 0), (2, 0)],
                           kind=['slice:bes'], _opts=[dict(max_loop=6)]),
          max_loop=4)
def sliced(env, tiles, where, kind):
    """Slices of the tiling dimension."""
    arr, spec = make(env, tiles, *where)
    rank, axis = where
    kinds = [kind]
    if rank > 1:
        kinds.insert(1 - axis, env.choice('other', ['full', 'int',
                                                    'nslice:e']))
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[bare(keys)], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C04', quick=product(tiles=[1, 2, 3], where=[(1, 0), (2, 1)]),
          max_loop=5)
def masked_out(env, tiles, where):
    """A boolean mask on the tiling dimension."""
    arr, spec = make(env, tiles, where[0], where[1],
                     size=2 if tiles < 3 else 1)
    rank, axis = where
    kinds = ['bool']
    if rank > 1:
        kinds.insert(1 - axis, env.choice('other', ['full', 'int', 'seq1']))
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C04', quick=product(kind=['pslice:s', 'nslice:', 'seq2', 'other',
                                     'bool'],
                               then=['int', 'seq1', 'nslice:s', 'other']),
          thorough=product(kind=['slice:bes', 'seq3'],
                           then=['seq2', 'slice:bes']), max_loop=3)
def twice(env, kind, then):
    arr, spec = make(env, 2, 2, 0, size=2 if kind == 'bool' else None)
    kinds = ['full', env.choice('other', ['seq2', 'pslice:b', 'none'])] \
        if kind == 'other' else [kind, 'full']
    if 'none' in kinds:
        kinds.append('full')
    keys = take_keys(env, 'k', kinds, spec.shape)
    arr = env.do(lambda: arr[keys], 'indexing')
    spec = spec.index(keys)
    kinds = ['full'] * spec.ndim
    if then == 'other':
        kinds[-1] = 'int'
    else:
        kinds[0] = then
    keys = take_keys(env, 'l', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing again')
    compare(env, got, spec.index(keys), 'selection of a selection')


@scenario('C04', quick=product(inner=['mosaic', 'stack', 'transposed']),
          max_loop=3)
def nested(env, inner):
    """A mosaic of mosaics, stacks or transposed views."""
    env.sources = {}
    n, p, m = env.int('n', 0), env.int('p', 0), env.int('m', 0)
    axis = env.choice('axis', [0, 1])
    if inner == 'stack':
        n, p = 2, 1
        axis = 0
    parts, specs = [], []
    for j, k in enumerate((n, p)):
        shape = (k, m) if axis == 0 else (m, k)
        if inner == 'transposed':
            s = env.data('A%d' % j, shape[::-1], 'f8', generic=True)
            parts.append(adapt(env, s, 'A%d' % j).transpose())
            specs.append(s.transpose())
        elif inner == 'mosaic':
            ss = [env.data('A%d%d' % (j, i), shape, 'f8', generic=True)
                  for i in range(2)]
            parts.append(env.B.LinearMosaic([adapt(env, s, 'A%d%d' % (j, i))
                                             for i, s in enumerate(ss)],
                                            axis))
            specs.append(S.concat(ss, axis))
        else:
            ss = [env.data('A%d%d' % (j, i), (m,), 'f8', generic=True)
                  for i in range(k)]
            a = np.empty(k, dtype=object)
            for i, s in enumerate(ss):
                a[i] = adapt(env, s, 'A%d%d' % (j, i))
            parts.append(env.B.ArrayStack(a))
            specs.append(S.stack({(i,): s for i, s in enumerate(ss)}, (k,)))
    arr = env.do(lambda: env.B.LinearMosaic(parts, axis), 'tiling')
    spec = S.concat(specs, axis)
    compare(env, arr, spec, 'realising')
    kinds = ['full', 'full']
    kinds[axis] = env.choice('kind', ['int', 'seq1', 'nslice:'])
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C04', quick=product(kind=['mosaic0', 'mosaic1']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
