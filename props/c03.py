"""C03: stacks of every small stack shape, of parts of symbolic shape and
contents, are realised, indexed with arbitrary in-range keys on their stack
and item dimensions (once and twice), rebuilt from flat sequences in C and F
order, and copied; every element of the result is compared with the element
of the part that belongs there."""
import numpy as np
import sx.harness as H
from props import subjects as SUB
from sx.harness import scenario, product
from sx import spec as S
from props.common import take_keys
from props.subjects import adapt, objects

ASSUMPTIONS = [
    'Stack shapes: (1,), (2,), (3,), (4,), (1,2), (2,1), (2,2), (3,2), '
    '(2,1,2), (0 items only through selection); parts of rank 0 to 2 with '
    'arbitrary lengths; at most two indexing operations; sequences of at '
    'most 2 (thorough: 3) members; masks on stack dimensions and on item '
    'dimensions of length up to 2.',
]


def build(env, shape, item, masked=None):
    env.sources = {}
    parts, specs = [], {}
    for j, pos in enumerate(np.ndindex(*shape)):
        s = env.data('A%d' % j, item, 'f8', masked=masked, generic=True)
        specs[pos] = s
        parts.append(adapt(env, s, 'A%d' % j))
    return parts, specs


def make(env, shape, rank):
    item = tuple(env.int('n%d' % d, 0) for d in range(rank))
    parts, specs = build(env, shape, item)
    arr = env.do(lambda: env.B.ArrayStack(objects(parts, shape)),
                 'stacking')
    return arr, S.stack(specs, shape)


def compare(env, arr, spec, what):
    env.same_shape(arr.shape, spec.shape, what + ' lazy shape')
    env.same(env.do(arr.ndarray, what), spec, what)


def nonempty(env, spec):
    pass


SHAPES = [(1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (3, 2)]


@scenario('C03', quick=product(shape=SHAPES + [(2, 1, 2)],
                               rank=[0, 1, 2]), max_loop=4)
def realise(env, shape, rank):
    arr, spec = make(env, shape, rank)
    compare(env, arr, spec, 'realising')


@scenario('C03', quick=product(shape=[(3,)], kind=[
    'int', 'slice:bes', 'seq2', 'bool', 'seq0', 'arr2']) +
    product(shape=[(2, 2)], kind=['int', 'pslice:be', 'nslice:b', 'seq2',
                                  'bool', 'arr1']),
    thorough=product(shape=[(4,), (3, 2), (2, 1, 2)], kind=[
        'int', 'slice:bes', 'seq3', 'bool', 'arr2'], wide=[
            ['full', 'int', 'seq2', 'slice:s', 'bool']]), max_loop=4)
def stack_key(env, shape, kind, wide=None):
    """A key on the first stack dimension, others on the rest."""
    arr, spec = make(env, shape, 1)
    kinds = [kind]
    for j in range(1, len(shape)):
        kinds.append(env.choice('s%d' % j, wide or ['full', 'int', 'seq2',
                                                    'nslice:', 'bool']))
    kinds.append(env.choice('i', ['full', 'int', 'none'] if len(shape) > 1
                            else ['full', 'int', 'pslice:b', 'seq1',
                                  'none']))
    if kinds[-1] == 'none':
        kinds = kinds[:-1] + ['none', 'full']
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C03', quick=product(kind=['int', 'slice:bes', 'seq2', 'none']),
          thorough=product(kind=['seq3', 'arr2', 'ell']), max_loop=4)
def item_key(env, kind):
    """A key on an item dimension."""
    arr, spec = make(env, (2,), 2)
    first = env.choice('stack', ['full', 'int', 'seq2', 'nslice:'])
    other = env.choice('other', ['full', 'int', 'slice:b'])
    kinds = [first, kind, other]
    if env.flag('swap'):
        kinds = [first, other, kind]
    if kind == 'none':
        kinds.insert(2, 'full')
        if env.flag('front'):
            kinds = ['none'] + [k for k in kinds if k != 'none']
    elif kind == 'ell':
        kinds = env.choice('where', [['ell', other], [first, 'ell', other]])
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C03', quick=product(shape=[(2,), (2, 1)], kind=[
    'pslice:b', 'nslice:', 'seq2', 'bool', 'none'],
    then=['int/seq1/nslice:']),
    thorough=product(shape=[(3,), (2, 2)], kind=[
        'slice:bs', 'seq2', 'bool', 'none'],
        then=['int', 'seq2/nslice:', 'pslice:b']), max_loop=4)
def twice(env, shape, kind, then):
    """Two successive selections."""
    arr, spec = make(env, shape, 1)
    kinds = [kind] + ['full'] * len(shape)
    if kind == 'none':
        kinds = ['none', 'full'] + ['full'] * len(shape)
    else:
        kinds[1] = env.choice('first1', ['full', 'nslice:'] + (
            ['seq2'] if len(shape) == 1 else []))
    keys = take_keys(env, 'k', kinds, spec.shape)
    arr = env.do(lambda: arr[keys], 'indexing')
    spec = spec.index(keys)
    kinds = ['full'] * spec.ndim
    kinds[env.small('where', 0, spec.ndim - 1)] = env.choice(
        'then', then.split('/'))
    keys = take_keys(env, 'l', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing again')
    compare(env, got, spec.index(keys), 'selection of a selection')


@scenario('C03', quick=product(shape=[(1,), (4,), (2, 2), (2, 3), (3, 2),
                                      (1, 3), (3, 1), (2, 1, 2),
                                      (2, 2, 2)],
                               order=['C', 'F']),
          thorough=product(shape=[(2, 3, 2), (3, 2, 2), (2, 2, 3),
                                  (4, 3)], order=['C', 'F']), max_loop=3)
def multidim(env, shape, order):
    """A stack built from a flat sequence."""
    item = (env.int('n', 0),)
    parts, _ = build(env, (int(np.prod(shape)),), item)
    arr = env.do(lambda: env.B.ArrayStack.multidim_array_stack(
        parts if env.flag('list') else objects(parts, (len(parts),)), shape,
        order=order), 'building')
    where = np.arange(len(parts)).reshape(shape, order=order)
    specs = {}
    for pos in np.ndindex(*shape):
        specs[pos] = env.data('A%d' % where[pos], item, 'f8', generic=True)
    spec = S.stack(specs, shape)
    compare(env, arr, spec, 'realising')
    kinds = []
    for j in range(len(shape)):
        kinds.append(env.choice('s%d' % j, ['full', 'int', 'seq1', 'nslice:']
                                if j < 1 else ['full', 'int']))
    keys = take_keys(env, 'k', kinds, spec.shape)
    got = env.do(lambda: arr[keys], 'indexing')
    compare(env, got, spec.index(keys), 'selection')


@scenario('C03', quick=product(shape=[(2,), (2, 2), (3, 2), (2, 1, 2)],
                               view=['plain', 'F', 'transposed',
                                     'sliced', 'reversed']), max_loop=3)
def copied(env, shape, view):
    """Copying a stack, whatever the memory order of its object array."""
    import copy
    item = (env.int('n', 0),)
    parts, specs = build(env, shape, item)
    cells = objects(parts, shape)
    spec = S.stack(specs, shape)
    if view == 'F':
        cells = np.asfortranarray(cells)
    elif view == 'transposed':
        cells = cells.transpose()
        spec = spec.transpose(tuple(range(len(shape)))[::-1] +
                              (len(shape),))
    elif view == 'reversed':
        cells = cells[::-1]
        spec = spec.index(slice(None, None, -1))
    arr = env.B.ArrayStack(cells)
    if view == 'sliced':
        key = env.make_key('k', 'seq2', shape[0])
        arr = arr[(key,)]
        spec = spec.index((key,))
    deep = env.flag('deep')
    got = env.do(lambda: copy.deepcopy(arr) if deep else copy.copy(arr),
                 'copying')
    compare(env, got, spec, 'copy')
    compare(env, arr, spec, 'original')


@scenario('C03', quick=product(kind=['stack', 'stack2']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
