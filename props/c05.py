"""C05: transposed views (every permutation of ranks 1 to 3, negative axes),
new-axis views and broadcast views (inside and leading dimensions) of arrays
of symbolic shape and contents, alone and stacked two deep in every
combination, are realised and indexed with arbitrary in-range keys; every
element of the result is compared with the same selection of the
specification's view."""
import itertools

import numpy as np
import sx.harness as H
from props import subjects as SUB
from sx.harness import scenario, product
from sx import spec as S
from props.common import take_keys
from props.subjects import adapt

ASSUMPTIONS = [
    'Arrays of rank 1 to 3 before new axes and broadcasting; at most two new '
    'axes, one broadcast dimension and two leading dimensions per view; at '
    'most two views and two indexing operations; sequences of at most 2 '
    'members. Sequences are not used on broadcast or new dimensions (refused '
    'with NotImplementedError, as documented) and masks not at all.',
]


def leaf(env, shape):
    env.sources = {}
    s = env.data('A', shape, 'f8', generic=True)
    return adapt(env, s, 'A'), s


def dims(env, rank):
    return tuple(env.int('n%d' % d, 0) for d in range(rank))


def compare(env, arr, spec, what):
    env.same_shape(arr.shape, spec.shape, what + ' lazy shape')
    env.check(arr.ndim == len(spec.shape), what + ' lazy rank')
    env.same(env.do(arr.ndarray, what), spec, what)


class View(object):
    """An array with its specification and, per dimension, whether
    sequences may index it."""
    def __init__(self, arr, spec, real):
        self.arr, self.spec, self.real = arr, spec, real

    def transpose(self, env, axes, what='transposing'):
        arr = env.do(lambda: self.arr.transpose(axes)
                     if axes != 'default' else self.arr.transpose(), what)
        if axes in (None, 'default'):
            axes = tuple(range(self.spec.ndim))[::-1]
        return View(arr, self.spec.transpose(axes),
                    [self.real[a] for a in axes])

    def newaxes(self, env, places, what='new axes'):
        """places: positions (in the result) of the new axes."""
        n = self.spec.ndim + len(places)
        keys = tuple(None if d in places else slice(None) for d in range(n))
        arr = env.do(lambda: self.arr[keys], what)
        it = iter(self.real)
        return View(arr, self.spec.index(keys),
                    [False if d in places else next(it) for d in range(n)])

    def broadcast(self, env, shape, what='broadcasting'):
        """Broadcasts to `shape`, by an operation with another array."""
        B = env.B
        other = B.ConstantArray(shape)
        arr = env.do(lambda: B.BroadcastArray.broadcast_arrays(
            self.arr, other)[0], what)
        lead = len(shape) - self.spec.ndim
        real = [False] * lead + [
            r and not (isinstance(a, int) and a == 1)
            for r, a in zip(self.real, self.spec.shape)]
        return View(arr, self.spec.broadcast(shape), real)

    def index(self, env, name, kinds, what):
        keys = take_keys(env, name, kinds, self.spec.shape)
        arr = env.do(lambda: self.arr[keys], what)
        real = []
        it = iter(self.real)
        for k in kinds:
            if k == 'none':
                real.append(False)
            else:
                r = next(it)
                if k != 'int':
                    real.append(r)
        return View(arr, self.spec.index(keys), real)

    def some(self, env, name, what='indexing', options=(
            'int', 'slice:b', 'seq2'), extra=True):
        """Index one dimension, and perhaps another, arbitrarily."""
        n = self.spec.ndim
        if not n:
            return self
        d = env.small(name + 'dim', 0, n - 1)
        kinds = ['full'] * n
        kinds[d] = env.choice(name + 'kind', [
            k for k in options if self.real[d] or k[:3] != 'seq'])
        if n > 1 and extra:
            o = (d + 1) % n
            kinds[o] = env.choice(name + 'other', ['full', 'int'])
        if extra == 'none' and env.flag(name + 'new'):
            kinds.insert(d, 'none')
        return self.index(env, name, kinds, what)

    def compare(self, env, what):
        compare(env, self.arr, self.spec, what)


PERMS = [list(p) for r in (1, 2, 3) for p in itertools.permutations(
    range(r))] + [[1, -2], [0, -1, 1], [-1, -2, -3], [2, -3, 1],
                  'default', None]


@scenario('C05', quick=product(axes=PERMS), max_loop=3)
def transposed(env, axes):
    rank = len(axes) if isinstance(axes, list) else 3
    v = View(*leaf(env, dims(env, rank)), real=[True] * rank)
    v = v.transpose(env, axes)
    v.compare(env, 'realising')
    v = v.some(env, 'k', extra='none')
    v.compare(env, 'selection')
    if rank == 2:
        v.some(env, 'l', options=('nslice:',), extra=False).compare(
            env, 'selection of a selection')


@scenario('C05', quick=product(axes=[[1, 0], [2, 0, 1], [1, 2, 0]],
                               again=['same', 'default']), max_loop=3)
def transposed_twice(env, axes, again):
    v = View(*leaf(env, dims(env, len(axes))), real=[True] * len(axes))
    when = env.choice('when', ['never', 'before', 'between'])
    if when == 'before':
        v = v.index(env, 'k', ['nslice:'] + ['full'] * (len(axes) - 1),
                    'indexing')
    v = v.transpose(env, axes)
    if when == 'between':
        v = v.index(env, 'm', ['full'] * (len(axes) - 1) + ['pslice:'],
                    'indexing')
    v = v.transpose(env, axes if again == 'same' else again)
    v.compare(env, 'realising')
    v.some(env, 'l', options=('int', 'seq1'),
           extra=when == 'never').compare(env, 'selection')


PLACES = [(2, p) for p in [(0,), (1,), (2,), (0, 1), (1, 2), (0, 2),
                           (2, 3), (0, 3), (1, 3)]] + \
    [(1, p) for p in [(0,), (1,), (0, 1), (0, 2), (1, 2)]] + \
    [(0, (0,)), (0, (0, 1))]


@scenario('C05', quick=product(where=PLACES),
          thorough=product(where=[(3, (1,)), (3, (2, 4)), (3, (0,))]),
          max_loop=3)
def new_axes(env, where):
    rank, places = where
    v = View(*leaf(env, dims(env, rank)), real=[True] * rank)
    v = v.newaxes(env, places)
    v.compare(env, 'realising')
    v = v.some(env, 'k', extra='none', options=(
        'int', 'slice:b', 'seq2') if rank < 2 else ('int', 'slice:b',
                                                    'seq1'))
    v.compare(env, 'selection')
    if rank < 2 and len(places) == 1:
        v.some(env, 'l', options=('int', 'slice:b'), extra=False).compare(
            env, 'selection of a selection')


@scenario('C05', quick=product(case=['1', 'n1', '1n', '1n1', '+', '++',
                                     '+1', '+n', '+1n', '++n']), max_loop=3)
def broadcasts(env, case):
    """n: an arbitrary dimension; 1: a broadcast one; +: a leading one."""
    inner, full = [], []
    for j, c in enumerate(case):
        size = env.int('s%d' % j, 0)
        if c != '+':
            inner.append(1 if c == '1' else size)
        full.append(size)
    v = View(*leaf(env, tuple(inner)), real=[True] * len(inner))
    v = v.broadcast(env, tuple(full))
    v.compare(env, 'realising')
    v = v.some(env, 'k', extra='none', options=('int', 'slice:b', 'seq1'))
    v.compare(env, 'selection')
    if len(case) < 3:
        v.some(env, 'l', options=('int', 'slice:b'), extra=False).compare(
        env, 'selection of a selection')


@scenario('C05', quick=product(case=['1', 'n1', '1n', '1n1', '+', '+1',
                                     '+n', '+1n']), max_loop=3)
def constructed(env, case):
    """Broadcast views made by their constructor."""
    inner, full, lead, bc = [], [], [], {}
    for j, c in enumerate(case):
        size = env.int('s%d' % j, 0)
        full.append(size)
        if c == '+':
            lead.append(size)
        else:
            if c == '1':
                bc[len(inner)] = size
            inner.append(1 if c == '1' else size)
    arr, spec = leaf(env, tuple(inner))
    arr = env.do(lambda: env.B.BroadcastArray(arr, bc, tuple(lead)),
                 'broadcasting')
    v = View(arr, spec.broadcast(tuple(full)),
             [c == 'n' for c in case])
    v.compare(env, 'realising')
    kinds = [env.choice('kind%d' % j, ['int', 'slice:bs'])
             for j in range(len(case))]
    v.index(env, 'k', kinds, 'indexing').compare(env, 'selection')


VIEWS = ['T', 'N', 'B', 'L']


def apply_view(env, v, kind, j):
    name = 'v%d' % j
    n = v.spec.ndim
    if kind == 'T':
        perms = list(itertools.permutations(range(n)))[1:]
        if not perms:
            return v
        return v.transpose(env, list(env.choice(name + 'axes', perms[:3])))
    if kind == 'N':
        return v.newaxes(env, (env.small(name + 'place', 0, n if j == 0 or
                                         n < 3 else 1),))
    if kind == 'L':
        return v.broadcast(env, (env.int(name + 'lead', 0),) + v.spec.shape)
    ones = [d for d, k in enumerate(v.spec.shape)
            if isinstance(k, int) and k == 1]
    if not ones:
        return v
    d = env.choice(name + 'which', ones)
    shape = list(v.spec.shape)
    shape[d] = env.int(name + 'size', 0)
    return v.broadcast(env, tuple(shape))


@scenario('C05', quick=product(first=VIEWS, second=VIEWS, rank=[1, 2]),
          thorough=product(first=VIEWS, second=VIEWS, rank=[3],
                           third=[None] + VIEWS), max_loop=3)
def nested(env, first, second, rank, third=None):
    """Views of views, indexed before, between and after."""
    shape = (env.int('n0', 0), 1, env.int('n2', 0))[3 - rank:]
    if rank == 1:
        shape = (1,) if 'B' in (first, second) else (env.int('n0', 0),)
    elif rank == 2:
        shape = (1, env.int('n1', 0))
    v = View(*leaf(env, shape), real=[True] * rank)
    v = apply_view(env, v, first, 0)
    if env.flag('between'):
        v = v.some(env, 'm', options=('nslice:',) if rank > 1 and
                   first == 'N' else ('int', 'nslice:'), extra=False)
    v = apply_view(env, v, second, 1)
    if third:
        v = apply_view(env, v, third, 2)
    v.compare(env, 'realising')
    v = v.some(env, 'k', options=('int', 'pslice:', 'seq1')
               if 'N' == first and rank == 2 else
               ('int', 'slice:b', 'seq1'), extra=False)
    v.compare(env, 'selection')


@scenario('C05', quick=product(kind=['transpose', 'newaxis', 'broadcast', 'leading']), max_loop=3)
def numpy_integers(env, kind):
    """Keys made of NumPy integers."""
    SUB.numpy_integers(env, kind)
