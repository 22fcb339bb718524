"""C01: indexing a wrapped data source selects exactly what was asked."""
from props import subjects as SUB
from sx.harness import scenario, product
from props.common import take_keys

ASSUMPTIONS = [
    'Dimension lengths are arbitrary non-negative integers and keys arbitrary'
    ' in-range values, except: boolean masks are for lengths up to 3; a '
    'selection made by re-indexing a slice has at most max_loop elements per '
    'dimension; integer sequences have at most 2 (thorough: 3) members; '
    'chains are at most 3 steps long, ranks at most 3.',
    'Source contents are an unknown function of the position (rank <= 3).',
]


def adapter(env, spec, ortho):
    if ortho:
        return env.B.OrthoArrayAdapter(env.source(spec, 'A', ortho=True))
    return env.B.NumpyArrayAdapter(env.array(spec))


def run_chain(env, shape, steps, ortho, masked=None, bare=False,
              dtype='f8'):
    spec = env.data('A', shape, dtype, masked=masked, generic=True)
    arr = adapter(env, spec, ortho)
    for j, kinds in enumerate(steps):
        keys = take_keys(env, 'k%d' % j, kinds, spec.shape)
        use = keys[0] if bare and len(keys) == 1 else keys
        prev = arr
        arr = env.do(lambda: prev[use], 'indexing')
        spec = spec.index(keys)
        env.same_shape(arr.shape, spec.shape, 'lazy shape')
    env.same(env.do(arr.ndarray, 'realising'), spec, 'selection')


def dims(env, rank):
    return tuple(env.int('n%d' % d, 0) for d in range(rank))


@scenario('C01', quick=product(
    ortho=[False, True],
    first=['int', 'slice:bes', 'seq2'],
    second=['int', 'slice:bes', 'seq2'], bare=[False]) + product(
    ortho=[False, True], first=['lst0', 'lst2', 'arr2'],
    second=['slice:be'], bare=[True]), max_loop=5)
def chain_rank1(env, first, second, ortho, bare):
    steps = [(first,)]
    if first != 'int':
        steps.append((second,))
    run_chain(env, dims(env, 1), steps, ortho, bare=bare)


@scenario('C01', quick=product(
    ortho=[False, True], first=['int', 'slice:bes', 'seq2', 'seq0']),
    max_loop=4)
def single_rank2(env, first, ortho):
    second = env.choice('kind', ['int', 'slice:bes', 'seq2', 'lst1', 'none',
                                 'full', 'ell'])
    kinds = (first, second)
    if second == 'none':
        kinds = env.choice('where_none', [(None, 0, 1), (0, None, 1),
                                     (0, 1, None), (0, None), (None, 0)])
        kinds = tuple('none' if k is None else (first, 'slice:b')[k]
                      for k in kinds)
    elif second == 'ell':
        kinds = env.choice('where_ell', [('ell', first), (first, 'ell'),
                                     ('slice:b', 'ell', first), ('ell',)])
    run_chain(env, dims(env, 2), [kinds], ortho)


@scenario('C01', quick=product(
    ortho=[False, True], first=['int', 'pslice:bs', 'seq2'],
    second=['int', 'nslice:es', 'seq2']), thorough=product(
    ortho=[False, True], first=['int', 'slice:bes', 'seq3'],
    second=['int', 'slice:bes', 'seq3']), max_loop=2)
def chain_rank2(env, first, second, ortho):
    """Two steps on two dimensions."""
    shape = dims(env, 2)
    kinds = (first, second)
    left = 2 - kinds.count('int')
    then = tuple(env.choice('then%d' % j, ['int', 'pslice:bt', 'seq1'])
                 for j in range(left))
    if env.flag('partial') and left:
        then = then[:-1]
    run_chain(env, shape, [kinds, then] if then else [kinds], ortho)


@scenario('C01', quick=product(ortho=[False, True],
                               first=['int', 'slice:bes', 'seq2']),
          max_loop=3)
def mixed_rank3(env, first, ortho):
    kinds = (first,
             env.choice('kind1', ['int', 'pslice:b', 'seq2', 'full']),
             env.choice('kind2', ['int', 'nslice:e', 'seq2', 'full']))
    run_chain(env, dims(env, 3), [kinds], ortho)


@scenario('C01', quick=product(ortho=[False, True]), max_loop=4)
def chain3_rank1(env, ortho):
    kinds = [env.choice('kind%d' % j, ['pslice:b', 'nslice:', 'seq2'])
             for j in range(2)]
    run_chain(env, dims(env, 1), [(k,) for k in kinds] + [
        (env.choice('last', ['int', 'slice:e', 'seq1']),)], ortho)


@scenario('C01', quick=product(ortho=[False, True], size=[2], then=[
    'int', 'slice:bs', 'seq2', 'bool', 'none']), thorough=product(
        ortho=[False, True], size=[3], then=[
            'int', 'slice:bes', 'seq3', 'bool', 'none']), max_loop=4)
def bool_masks(env, ortho, then, size):
    """Boolean masks on a short dimension, re-indexed."""
    n = env.small('n', 0, size)
    m = env.int('m', 0)
    other = env.choice('other', ['full', 'int', 'pslice:b', 'seq2'])
    first = ('bool', other)
    shape = (n, m)
    if env.flag('swap'):
        first = (other, 'bool')
        shape = (m, n)
    left = 2 - first.count('int')
    if then == 'bool':
        # The masked dimension has a plain length.
        pos = 0 if shape[0] is n or left == 1 else 1
        second = tuple('bool' if d == pos else 'full' for d in range(left))
    elif then == 'none':
        run_chain(env, shape, [first], ortho)
        return
    else:
        second = tuple(then if d == 0 else env.choice(
            'o2', ['full', 'int']) for d in range(left))
    run_chain(env, shape, [first, second], ortho)


@scenario('C01', quick=product(ortho=[False, True]), max_loop=4)
def two_masks(env, ortho):
    n = env.small('n', 0, 3)
    m = env.small('m', 0, 2)
    run_chain(env, (n, m), [('bool', 'bool')], ortho)


@scenario('C01', quick=product(kind=['int', 'slice:bes', 'seq2']),
          max_loop=4)
def adapter_keys(env, kind):
    """Keys given to the adapter's constructor."""
    n, m = dims(env, 2)
    spec = env.data('A', (n, m), 'f8', generic=True)
    key = env.make_key('k', kind, n)
    arr = env.do(lambda: env.B.NumpyArrayAdapter(env.array(spec), (key,)),
                 'adapting')
    spec = spec.index((key,))
    env.same_shape(arr.shape, spec.shape, 'lazy shape')
    keys = take_keys(env, 'k2', ('pslice:b',) * spec.ndim, spec.shape)
    arr = env.do(lambda: arr[keys], 'indexing')
    env.same(env.do(arr.ndarray, 'realising'), spec.index(keys),
             'selection')


@scenario('C01', quick=product(kind=['adapter', 'ortho', 'sliced']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
