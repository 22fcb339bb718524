"""C12: collections of expressions over shared sources and shared
sub-expressions are realised by one call of the real engine, with symbolic
data, masks and chunk-size limit, and each result is compared with the value
of its own expression (which is also what realising it alone is compared
with)."""
import numpy as np

from sx import spec as S
from sx.harness import scenario, product
from props.c10 import reduced
from props.c11 import stat_spec, fixed_mask
from props.subjects import adapt

ASSUMPTIONS = [
    'Sources of shape (2, 2) or (2, 3) and (3, 2), 1 to 4 arrays per call, '
    'every chunk-size limit, one (deterministic) thread schedule (see C14 '
    'for the schedules).',
]


class Pool(object):
    """Expressions by name, built once, so that they share their parts."""
    def __init__(self, env, masked, shape=(2, 2), dtype='i4', fixed=False):
        self.env = env
        self.fixed = fixed
        self.masked = masked
        self.shape = shape
        self.dtype = dtype
        self.memo = {}
        env.sources = {}

    def leaf(self, name, shape):
        s = self.env.data(name, shape, self.dtype, masked=self.masked)
        if self.fixed and s.mask is not None:
            self.env.assume(self.env.not_(s.m((0,) * len(shape))))
            s = fixed_mask(self.env, s)
        return adapt(self.env, s, name), s

    def get(self, name):
        if name not in self.memo:
            self.memo[name] = self.build(name)
        return self.memo[name]

    def ew(self, f, *names):
        parts = [self.get(n) for n in names]
        a = getattr(self.env.B, f)(*[p[0] for p in parts])
        shape = parts[0][1].shape
        return a, S.elementwise(getattr(np, f), [p[1] for p in parts], shape)

    def red(self, fn, name, axis):
        a, s = self.get(name)
        r = getattr(self.env.B, fn)(a, axis=axis)
        m = self.masked is not None
        if fn in ('mean', 'std', 'var'):
            return r, stat_spec(self.env, s, fn, axis, m)
        return r, reduced(s, fn, axis, m)

    def build(self, name):
        B = self.env.B
        if name in ('A', 'B'):
            return self.leaf(name, self.shape)
        if name == 'V':
            return self.leaf('V', self.shape[1:])
        if name == 'W':
            return self.leaf('W', self.shape[:1])
        if name == '-A':
            return self.ew('negative', 'A')
        if name == '|A|':
            return self.ew('absolute', 'A')
        if name in ('A+B', 'B-A', 'A+A', 'A-B', '-A+B', 'A+B-A'):
            parts = name.replace('-A+B', 'N+B').replace('A+B-A', 'S-A')
            x, op, y = parts
            f = {'+': 'add', '-': 'subtract'}[op]
            names = {'N': '-A', 'S': 'A+B'}
            return self.ew(f, names.get(x, x), names.get(y, y))
        if name == 'A[1]':
            a, s = self.get('A')
            return a[1], s.index((1,))
        if name == 'A[::-1]':
            a, s = self.get('A')
            key = (slice(None, None, -1),)
            return a[key], s.index(key)
        if name == 'A.T':
            a, s = self.get('A')
            return a.transpose(), s.transpose()
        if name == 'A+V':
            a, s = self.get('A')
            v, t = self.get('V')
            return a + v, S.elementwise(np.add, [s, t.broadcast(s.shape)],
                                        s.shape)
        if name == 'stack':
            (a, s), (b, t) = self.get('A'), self.get('B')
            arr = np.empty((2,), dtype=object)
            arr[0], arr[1] = a, b
            return B.ArrayStack(arr), S.stack({(0,): s, (1,): t}, (2,))
        if name == 'tiles':
            (a, s), (b, t) = self.get('A+B'), self.get('A')
            return B.LinearMosaic([a, b], 1), S.concat([s, t], 1)
        if name == 'const':
            return (B.ConstantArray((2,), 7, np.dtype('i4')),
                    S.constant((2,), 7, 'i4'))
        if '.' in name:
            # source.function.axis
            source, fn, axis = name.rsplit('.', 2)
            if '[' in axis:
                axis, _, k = axis[:-1].partition('[')
                a, s = self.get('%s.%s.%s' % (source, fn, axis))
                return a[int(k)], s.index((int(k),))
            return self.red(fn, source, int(axis))
        if name == 'sum0+V':
            a, s = self.get('A.sum.0')
            v, t = self.get('V')
            return a + v, S.elementwise(np.add, [s, t], s.shape)
        if name == 'sum1+W':
            a, s = self.get('A.sum.1')
            w, t = self.get('W')
            return a + w, S.elementwise(np.add, [s, t], s.shape)
        if name == 'max1-sum1':
            a, s = self.get('A.max.1')
            b, t = self.get('A.sum.1')
            return a - b, S.elementwise(np.subtract, [s, t], s.shape)
        if name == 'A-sum0':
            a, s = self.get('A')
            b, t = self.get('A.sum.0')
            return a - b, S.elementwise(
                np.subtract, [s, t.broadcast(s.shape)], s.shape)
        raise ValueError(name)


PAIRS = [
    ('A', 'A'), ('A', 'B'), ('A', '-A'), ('A+B', 'B-A'), ('A+B', 'A+B'),
    ('A.sum.0', 'A.sum.1'), ('A.sum.0', 'A.max.0'), ('A', 'A.sum.0'),
    ('A.sum.1', 'A'), ('A.T', 'A'), ('A[1]', 'A'), ('A[::-1]', 'A.sum.1'),
    ('A+B', 'A+B.sum.0'), ('A+B.sum.1', 'A+B.sum.0'), ('A+V', 'V'),
    ('A-sum0', 'A'), ('A-sum0', 'A.sum.0'), ('max1-sum1', 'A.sum.1'),
    ('stack', 'A'), ('tiles', 'A+B'), ('const', 'A'), ('A.count.0', 'A'),
    ('A.mean.0', 'A.sum.0'), ('A.mean.1', 'A.mean.0'), ('A.min.0', '-A'),
    ('-A.sum.0', '-A'), ('A.sum.0[1]', 'A.sum.0'), ('A+V', 'A.sum.0'),
]
TRIPLES = [
    ('A', 'A.sum.0', 'A.sum.1'), ('A+B', 'A.sum.1', 'B-A'),
    ('-A', '|A|', '-A+B'), ('A.sum.1', 'A', 'A.sum.1'),
    ('A.sum.0', 'A+B.sum.1', 'A+A'), ('A+B-A', 'A+B', 'A'),
    ('max1-sum1', 'A-sum0', 'A.max.0'), ('sum0+V', 'A.sum.0', 'V'),
    ('A', 'B', 'A', 'A+B'), ('A.min.1', 'A.max.1', 'A.sum.1', 'A.sum.0'),
    ('A',), (), ('A.std.0', 'A.var.0'), ('A.var.1', 'A.mean.1', 'A'),
    ('sum1+W', 'W'),
]


def inexact(name):
    return any(fn in name for fn in ('mean', 'std', 'var'))


@scenario('C12', quick=product(arrays=PAIRS, masked=[None]) +
          product(arrays=PAIRS, masked=['mask']) +
          product(arrays=TRIPLES, masked=[None, 'mask']) +
          product(arrays=PAIRS + TRIPLES, masked=[None], shape=[(2, 3)]),
          thorough=product(arrays=PAIRS + TRIPLES, masked=[None, 'mask'],
                           shape=[(2, 3), (3, 2)]) +
          product(arrays=TRIPLES, masked=['nomask']))
def together(env, arrays, masked, shape=(2, 2)):
    if masked and any(inexact(n) for n in arrays):
        dtype = 'f8'
    else:
        dtype = 'i4'
    pool = Pool(env, masked, shape, dtype,
                fixed=any(inexact(n) for n in arrays))
    both = [pool.get(n) for n in arrays]
    if pool.fixed:
        # Gives the lemmas about their sums of squares.
        for _, s in both:
            for i in np.ndindex(*s.shape):
                s.fn(i)
    n = shape[0] * shape[1]
    env.set_chunk(env.int('limit', 1, 2 * n + 1)
                  if not any(inexact(n) for n in arrays) else
                  env.small('limit', 1, 2 * n + 1))
    got = env.do(lambda: (env.B.masked_arrays if masked else
                          env.B.ndarrays)([a for a, _ in both]),
                 'realising')
    env.check(len(got) == len(both), 'number of results')
    for name, g, (_, s) in zip(arrays, got, both):
        if masked:
            env.same_masked(g, s, name, exact=not inexact(name))
        else:
            env.same(g, s, name, exact=not inexact(name))


@scenario('C12', quick=product(arrays=[
    ('A', '-A'), ('A+B', 'A'), ('-A', 'A+B', 'A-B'), ('A[::-1]', 'A'),
    ('A', 'A.max.0', '|A|')], masked=[None, 'mask']), max_loop=3)
def vectors(env, arrays, masked):
    """Vectors of any length (up to 3 chunks)."""
    n = env.int('n', 1)
    if any('.' in name for name in arrays):
        env.assume(n <= 3)
        n = int(n)
    pool = Pool(env, masked, (n,))
    both = [pool.get(name) for name in arrays]
    env.set_chunk(env.int('limit', 1))
    got = env.do(lambda: (env.B.masked_arrays if masked else
                          env.B.ndarrays)([a for a, _ in both]),
                 'realising')
    for name, g, (_, s) in zip(arrays, got, both):
        (env.same_masked if masked else env.same)(g, s, name)


@scenario('C12', quick=product(arrays=[
    ('A', 'M'), ('M', 'A.sum.0', 'M'), ('A+M', 'A', 'M')],
    masked=[False, True]))
def kinds(env, arrays, masked):
    """Plain and masked sources in one call."""
    env.sources = {}
    s = env.data('A', (2, 2), 'i4')
    t = env.data('M', (2, 2), 'i4', masked='mask', fill=-3)
    a, m = adapt(env, s, 'A'), adapt(env, t, 'M')
    if not masked:
        t = t.filled()
    both = {'A': (a, s), 'M': (m, t),
            'A+M': (a + m, S.elementwise(np.add, [s, t], s.shape)),
            'A.sum.0': (env.B.sum(a, axis=0), reduced(s, 'sum', 0, masked))}
    env.set_chunk(env.int('limit', 1, 9))
    got = env.do(lambda: (env.B.masked_arrays if masked else
                          env.B.ndarrays)([both[n][0] for n in arrays]),
                 'realising')
    for name, g in zip(arrays, got):
        (env.same_masked if masked else env.same)(g, both[name][1], name)


@scenario('C12', quick=product(first=['A', 'A.sum.0', 'A+B', 'A.mean.1'],
                               masked=[None]),
          thorough=product(first=['A', 'A.sum.0', 'A+B', 'stack', '-A'],
                           masked=['mask']))
def alone_and_together(env, first, masked):
    """One is realised on its own before and after the collection is."""
    pool = Pool(env, masked)
    rest = ['A.sum.1', '-A', first]
    both = [pool.get(n) for n in rest]
    env.set_chunk(env.small('limit', 1, 5))
    a, s = pool.get(first)
    m = masked is not None
    same = env.same_masked if m else env.same
    exact = not inexact(first)
    same(env.do(a.masked_array if m else a.ndarray, 'alone'), s, first,
         exact=exact)
    got = env.do(lambda: (env.B.masked_arrays if m else env.B.ndarrays)(
        [x for x, _ in both]), 'together')
    for name, g, (_, t) in zip(rest, got, both):
        same(g, t, name, exact=exact)
    same(env.do(a.masked_array if m else a.ndarray, 'again'), s, first,
         exact=exact)
