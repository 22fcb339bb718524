"""C18: sources are real (model) ndarrays and masked arrays, whose views alias
them as NumPy's do.  After a first realisation of an expression and of another
one built from the same parts, one or two further operations, chosen from a
catalogue by the solver, are carried out - under a symbolic chunk-size limit
and on symbolic data and masks - and then: the data (also below the mask), mask
and fill value of every source, the earlier results, and the shape, type and
new realisations of both expressions are what they were."""
import numpy as np

from sx.harness import scenario, product
from props.subjects import make, objects, KINDS

ASSUMPTIONS = [
    'Sources of shape (2, 2) or (2, 3) for any data and mask, and of any '
    'shape for expressions of a single chunk; histories of two operations '
    'after the first realisations; one thread schedule (see C14).',
]


EXPRESSIONS = {
    'adapter': lambda B, a, b: a,
    'view': lambda B, a, b: a[::-1],
    'row': lambda B, a, b: a[0],
    'picked': lambda B, a, b: a[:, (1, 0)],
    'stack': lambda B, a, b: B.ArrayStack(objects([a, b], (2,))),
    'tiles': lambda B, a, b: B.LinearMosaic([a, b], 1),
    'transpose': lambda B, a, b: a.transpose(),
    'newaxis': lambda B, a, b: a[:, None],
    'broadcast': lambda B, a, b: B.BroadcastArray(a, {}, (2,)),
    'cast': lambda B, a, b: a.astype('f4'),
    'recast': lambda B, a, b: a.astype(a.dtype),
    'maskval': lambda B, a, b: B.masked_equal(a, 1),
    'negative': lambda B, a, b: B.negative(a),
    'add': lambda B, a, b: a + b,
    'double': lambda B, a, b: a + a,
    'scalar': lambda B, a, b: 3 - a,
    'addrow': lambda B, a, b: a + b[0],
    'nested': lambda B, a, b: B.absolute(a - b),
    'sum0': lambda B, a, b: B.sum(a, axis=0),
    'sum1': lambda B, a, b: B.sum(a, axis=1),
    'count0': lambda B, a, b: B.count(a, axis=0),
    'min0': lambda B, a, b: B.min(a, axis=0),
    'max1': lambda B, a, b: B.max(a, axis=1),
    'mean0': lambda B, a, b: B.mean(a, axis=0),
    'mean1': lambda B, a, b: B.mean(a, axis=1),
    'var0': lambda B, a, b: B.var(a, axis=0),
    'std0': lambda B, a, b: B.std(a, axis=0),
    'std1': lambda B, a, b: B.std(a, axis=1),
    'sumadd': lambda B, a, b: B.sum(a + b, axis=0),
    'anomaly': lambda B, a, b: a - B.sum(a, axis=0),
}


class Target(object):
    def __init__(self):
        self.writes = []

    def __setitem__(self, keys, value):
        self.writes.append((keys, value))


def operations(env, x, y, a):
    B = env.B
    return {
        'ndarray': lambda: x.ndarray(),
        'masked': lambda: x.masked_array(),
        'y': lambda: (y.ndarray(), y.masked_array()),
        'both': lambda: B.ndarrays([x, y]),
        'both masked': lambda: B.masked_arrays([y, x]),
        'part': lambda: (x[0].ndarray(), x[-1].masked_array(), x[1:].ndarray(),
                         x[::-1].masked_array()),
        'text': lambda: (repr(x), str(x), x.nbytes, x.fill_value),
        'negative': lambda: B.negative(x).ndarray(),
        'inplace': lambda: inplace(x),
        'double': lambda: (x + x).masked_array(),
        'max': lambda: B.max(x, axis=0).masked_array(),
        'mean': lambda: B.mean(x, axis=-1).masked_array(),
        'std': lambda: B.std(x, axis=0).ndarray(),
        'masked std': lambda: B.std(x, axis=0).masked_array(),
        'sum': lambda: B.sum(x, axis=0).masked_array(),
        'cast': lambda: x.astype('i8').masked_array(),
        'transpose': lambda: x.transpose().ndarray(),
        'new': lambda: x[None].masked_array(),
        'equal': lambda: B.masked_equal(x, 0).masked_array(),
        'stack': lambda: B.ArrayStack(objects([x, x], (2,))).masked_array(),
        'save': lambda: B.save([x, y], [Target(), Target()]),
        'save masked': lambda: B.save([x], [Target()], masked=True),
        'source': lambda: (a.ndarray(), a.masked_array()),
    }


def inplace(x):
    y = x
    y += 1
    y -= x
    y *= 2
    y.ndarray()


class World(object):
    def __init__(self, env):
        self.env = env
        self.masked = False
        self.arrays = []

    def add(self, name, array):
        """Watch a concrete array."""
        env = self.env
        masked = hasattr(array, 'mask')
        self.masked = self.masked or masked
        data = array.data if masked else array
        self.arrays.append((
            name, array, masked, env.checksum(data),
            env.checksum(array.mask) if masked and
            array.mask is not env.xp.ma.nomask else None,
            array.fill_value if masked else None))

    def check(self, when):
        env = self.env
        for name, array, masked, data, mask, fill in self.arrays:
            what = '%s: %s' % (when, name)
            env.same(array.data if masked else array, data, what + ' (data)')
            if masked:
                none = array.mask is env.xp.ma.nomask
                if mask is None:
                    env.check(none, what + ' has got a mask')
                else:
                    env.check(not none, what + ' has lost its mask')
                    env.same(array.mask, mask, what + ' (mask)')
                env.check(fill_same(array.fill_value, fill),
                          what + ' (fill value)')


def fill_same(a, b):
    return a == b or (a != a and b != b)


def realise(env, x, masked):
    return env.do(x.masked_array if masked else x.ndarray, 'realising')


def history(env, x, y, a, world, steps, names, first=None):
    """Operations on x, which leave everything as it was."""
    if first is None:
        first = env.flag('masked_first') if world.masked else False
    shape, dtype, nbytes = x.shape, x.dtype, x.nbytes
    before = {}
    for name, z, masked in (('x', x, first), ('y', y, not first),
                            ('x again', x, not first)):
        r = realise(env, z, masked)
        before[name] = (z, masked, env.checksum(r))
        world.add('result (%s)' % name, r)
    world.check('realising')
    ops = operations(env, x, y, a)
    for step in range(steps):
        chosen = env.choice('op%d' % step, names)
        for name in GROUPS.get(chosen, [chosen]):
            env.attempt(ops[name])
            # (Which of these are possible is not the question here.)
        world.check(chosen)
        env.same_shape(x.shape, shape, 'shape')
        env.check(x.dtype == dtype, 'type')
        env.check(env.all([x.nbytes == nbytes]), 'size')
    for name, (z, masked, spec) in sorted(before.items()):
        r = realise(env, z, masked)
        if masked:
            env.same_masked(r, spec, 'realising %s once more' % name)
        else:
            env.same(r, spec, 'realising %s once more' % name)


NAMES = ['ndarray', 'masked', 'y', 'both', 'both masked', 'part', 'text',
         'negative', 'inplace', 'double', 'max', 'mean', 'std', 'masked std',
         'sum', 'cast', 'transpose', 'new', 'equal', 'stack', 'save',
         'save masked', 'source']


def leaves(env, world, masked, shape=(2, 2), dtype='f8'):
    out = []
    for name in ('A', 'B'):
        s = env.data(name, shape, dtype, masked=masked)
        array = env.array(s)
        world.add('source ' + name, array)
        out.append(env.B.NumpyArrayAdapter(array))
    return out


GROUPS = {
    'realisation': ['ndarray', 'masked', 'y', 'both', 'both masked'],
    'parts': ['part', 'text', 'source'],
    'elementwise': ['negative', 'inplace', 'double'],
    'reductions': ['max', 'mean', 'std', 'masked std', 'sum'],
    'structure': ['cast', 'transpose', 'new', 'equal', 'stack'],
    'saving': ['save', 'save masked'],
}


COMPUTED = ['negative', 'add', 'addrow', 'nested', 'sum0', 'min0', 'mean0',
            'mean1', 'var0', 'std0', 'std1', 'sumadd', 'anomaly']


@scenario('C18', quick=product(expr=COMPUTED, masked=[None], shape=[(2, 2)],
                               dtype=['f8']) +
          product(expr=sorted(EXPRESSIONS), masked=['mask'], shape=[(1, 2)],
                  dtype=['f8']) +
          product(expr=['mean0', 'std1', 'sum0', 'add', 'cast'],
                  masked=['nomask'], shape=[(2, 2)], dtype=['f8']),
          thorough=product(expr=sorted(EXPRESSIONS), masked=[None, 'nomask'],
                           shape=[(2, 3)], dtype=['f8', 'i4']) +
          product(expr=sorted(EXPRESSIONS), masked=['mask'],
                  shape=[(2, 1), (1, 3)], dtype=['f4', 'i4']))
def groups(env, expr, masked, shape, dtype):
    """Any group of operations, after the first realisations."""
    world = World(env)
    a, b = leaves(env, world, masked, shape, dtype)
    x = env.do(lambda: EXPRESSIONS[expr](env.B, a, b), 'building')
    y = env.B.negative(a)
    env.set_chunk(env.choice('limit', [100, 1]))
    history(env, x, y, a, world, 1, sorted(GROUPS))


@scenario('C18', quick=product(expr=['std0', 'add', 'stack'], masked=['mask'],
                               shape=[(1, 2)], first=['std', 'save']),
          thorough=product(expr=sorted(EXPRESSIONS), masked=['mask'],
                           shape=[(1, 2)], first=NAMES))
def histories(env, expr, masked, shape, first):
    """Any two operations, one after the other."""
    world = World(env)
    a, b = leaves(env, world, masked, shape)
    x = env.do(lambda: EXPRESSIONS[expr](env.B, a, b), 'building')
    y = env.B.negative(a)
    env.set_chunk(env.choice('limit', [100, 1]))
    env.attempt(operations(env, x, y, a)[first])
    world.check(first)
    history(env, x, y, a, world, 1, NAMES, False)


@scenario('C18', quick=product(expr=[
    'adapter', 'view', 'row', 'stack', 'tiles', 'transpose', 'newaxis',
    'broadcast', 'cast', 'recast', 'maskval', 'negative', 'add', 'scalar',
    'nested'], masked=['mask']),
          thorough=product(expr=['adapter', 'stack', 'tiles', 'cast', 'add',
                                 'scalar', 'nested'],
                           masked=[None, 'nomask']))
def any_shape(env, expr, masked):
    """Sources of any shape."""
    world = World(env)
    n = env.int('n', 1)
    m = env.int('m', 0)
    a, b = leaves(env, world, masked, (n, m))
    x = env.do(lambda: EXPRESSIONS[expr](env.B, a, b), 'building')
    y = env.B.negative(a)
    env.set_chunk(n * m + 1)
    history(env, x, y, a, world, 1, ['both', 'part', 'double', 'cast',
                                     'equal', 'source'])
