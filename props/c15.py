"""C15: the graphs which the dask engine makes of expressions over symbolic
data, masks and chunk-size limits are evaluated, and the results compared with
the values of the expressions (which C06, C10, C11 and C12 compare the default
engine with). An error is no violation."""
import numpy as np

from sx.harness import scenario, product
from props.c10 import reduced
from props.c11 import stat_spec
from props.c12 import Pool, inexact

ASSUMPTIONS = [
    'Sources of shape (2, 2), (2, 3), (3, 2), (4,) and (2, 2, 2), 1 to 3 '
    'arrays per call, every chunk-size limit.',
    'The graph is evaluated by a simple evaluator, in two different orders; '
    'the concrete runs also use dask itself.',
    'Expressions which the engine refuses are within the property (it may '
    'raise); the number of paths with a result is in the evidence.',
]


def getter(env, reverse):
    """What `dask.get` does, for graphs of tasks and keys."""
    def get(graph, keys):
        done = {}

        def value(x):
            if isinstance(x, str) and x in graph:
                if x not in done:
                    done[x] = value(graph[x])
                return done[x]
            if isinstance(x, list):
                return [value(y) for y in x]
            if type(x) is tuple and x and callable(x[0]):
                args = list(x[1:])
                out = [None] * len(args)
                order = list(range(len(args)))
                for i in reversed(order) if reverse else order:
                    out[i] = value(args[i])
                return x[0](*out)
            return x
        names = list(graph)
        for name in reversed(names) if reverse else names:
            value(name)
        return tuple(value(k) for k in keys)
    return get


def engines(env):
    Engine = env.module('biggus.experimental.dask_engine').DaskEngine
    yield Engine(getter(env, bool(env.flag('reverse'))))
    if not env.sym:
        yield Engine()


def evaluate(env, both, masked, exact, what):
    arrays = [a for a, _ in both]
    for engine in engines(env):
        how, got = env.attempt(lambda: (
            engine.masked_arrays if masked else engine.ndarrays)(*arrays))
        if how == 'hang':
            env.fail('%s: does not terminate' % what, 'hang')
        if how == 'err':
            env.note('raised')
            return
        env.note('a result')
        env.check(len(got) == len(both), '%s: number of results' % what)
        for k, (g, (_, s)) in enumerate(zip(got, both)):
            (env.same_masked if masked else env.same)(
                g, s, '%s: array %d' % (what, k), exact=exact)


SINGLES = ['A', '-A', 'A+B', 'A+A', 'A+B-A', 'A+V', 'A.T', 'A[::-1]',
           'A.sum.0', 'A.sum.1', 'A.min.1', 'A.max.0', 'A.count.0',
           '-A.sum.0', 'A+B.sum.1', 'A-sum0', 'sum0+V', 'max1-sum1',
           'A.sum.0[1]', 'stack', 'tiles', 'A.mean.0', 'A.mean.1',
           'A.std.0', 'A.var.1', 'A.sum.0.sum.0', 'A.sum.1.max.0',
           'sum1+W']
GROUPS = [('A', 'A.sum.0'), ('A.sum.0', 'A.sum.1'), ('A', 'A'),
          ('A+B', 'A+B.sum.0'), ('A.sum.1', 'A', '-A'),
          ('A.mean.0', 'A.max.0'), ('A+V', 'A.sum.1'), ('A-sum0', 'A')]
ALL = [(n,) for n in SINGLES] + GROUPS


@scenario('C15', quick=product(arrays=ALL, masked=[None]) +
          product(arrays=ALL, masked=['mask']) +
          product(arrays=[(n,) for n in SINGLES[8:15]], masked=[None],
                  shape=[(2, 3), (3, 2)]) +
          product(arrays=[('sum1+W',), ('A-sum0',)], masked=[None, 'mask'],
                  shape=[(3, 2), (2, 3)]) +
          product(arrays=[('sum1+W',)], masked=[None], shape=[(4, 2)]),
          thorough=product(arrays=ALL, masked=[None, 'mask'],
                           shape=[(2, 3), (3, 2)]) +
          product(arrays=ALL, masked=['nomask']))
def values(env, arrays, masked, shape=(2, 2)):
    rough = any(inexact(n) for n in arrays)
    dtype = 'f8' if masked and rough else 'i4'
    pool = Pool(env, masked, shape, dtype, fixed=rough)
    both = [pool.get(n) for n in arrays]
    if pool.fixed:
        # Gives the lemmas about their sums of squares.
        for _, s in both:
            for i in np.ndindex(*s.shape):
                s.fn(i)
    env.set_chunk(env.small('limit', 1, shape[0] * shape[1] + 1))
    evaluate(env, both, masked is not None, not rough, ' '.join(arrays))


@scenario('C15', quick=product(fn=['sum', 'max', 'count'],
                               masked=[None, 'mask']) +
          product(fn=['mean'], masked=[None]),
          thorough=product(fn=['min'], masked=[None, 'mask']) +
          product(fn=['std', 'var'], masked=[None]))
def cubes(env, fn, masked):
    """Reductions of arrays of 3 dimensions, and of reductions."""
    axis = env.small('axis', -3, 2)
    rough = inexact(fn)
    pool = Pool(env, masked, (2, 2, 2), 'f8' if masked and rough else 'i4',
                fixed=rough)
    a, s = pool.get('A')
    m = masked is not None
    if rough:
        t = stat_spec(env, s, fn, axis % 3, m)
        for i in np.ndindex(*t.shape):
            t.fn(i)
    else:
        t = reduced(s, fn, axis % 3, m)
    r = getattr(env.B, fn)(a, axis=axis)
    env.set_chunk(env.small('limit', 1, 5))
    evaluate(env, [(r, t)], m, not rough, fn)


@scenario('C15', quick=product(expr=['A', '-A', 'A+B', 'sum'],
                               masked=[None, 'mask']), max_loop=4)
def vectors(env, expr, masked):
    """Vectors of any length (up to 4 chunks)."""
    n = env.small('n', 1, 4)
    pool = Pool(env, masked, (n,))
    env.set_chunk(env.small('limit', 1, 5))
    name = {'sum': 'A.sum.0'}.get(expr, expr)
    evaluate(env, [pool.get(name)], masked is not None, True, expr)
