"""C08: plain and masked realisation of elementwise expressions, reductions
(over every axis, nested) and saving are executed with a symbolic chunk-size
limit on sources with one dimension of symbolic length (in every position,
ranks 1 to 3); the pieces in which the source is read - and, for saving,
written - are compared for an arbitrary position: exactly one piece holds it;
each piece holds no more elements than the limit; and pieces contributing to
the same part of a reduction come one after the other."""
import itertools

import numpy as np
from sx.harness import scenario, product
from sx.seq import slice_indices
from props.subjects import adapt

ASSUMPTIONS = [
    'One dimension of any length (up to 4 pieces along it), the others of '
    'length 0 to 3; rank at most 3; every limit from 1.',
]


def bounds(key, n):
    """(first, last + 1) of the unit-step key of a dimension."""
    if isinstance(key, slice):
        start, stop, step = slice_indices(key, n)
        return start, stop, step
    return key, key + 1, 1


def full(keys, shape):
    if not isinstance(keys, tuple):
        keys = (keys,)
    out = []
    for k in keys:
        if k is Ellipsis:
            out += [slice(None)] * (len(shape) - len(keys) + 1)
        else:
            out.append(k)
    out += [slice(None)] * (len(shape) - len(out))
    return [bounds(k, n) for k, n in zip(out, shape)]


def holds(env, box, q):
    return env.all([env.all([lo <= x, x < hi])
                    for (lo, hi, _), x in zip(box, q)])


def pieces(env, keys, shape, limit, what):
    boxes = [full(k, shape) for k in keys]
    for box in boxes:
        n = 1
        for lo, hi, step in box:
            env.check(step == 1, '%s: step of a piece' % what)
            n = n * (hi - lo)
            env.check(hi >= lo, '%s: bounds of a piece' % what)
        env.check(n <= limit, '%s: piece larger than the limit' % what)
    q = [env.int('q%d@%s' % (d, what), 0) for d in range(len(shape))]
    inside = env.all([x < n for x, n in zip(q, shape)])
    held = [holds(env, box, q) for box in boxes]
    env.check(env.any([env.not_(inside)] + held),
              '%s: an element is left out' % what)
    for i, j in itertools.combinations(range(len(held)), 2):
        env.check(env.not_(env.all([inside, held[i], held[j]])),
                  '%s: an element is in two pieces' % what)
    return boxes


def consecutive(env, boxes, axes, what):
    """Pieces equal but for these axes come one after the other."""
    def part(box):
        return [b[:2] for d, b in enumerate(box) if d not in axes]

    def same(a, b):
        return env.all([env.all([x[0] == y[0], x[1] == y[1]])
                        for x, y in zip(part(a), part(b))])
    for i in range(len(boxes)):
        for j in range(i + 2, len(boxes)):
            env.check(env.any([env.not_(same(boxes[i], boxes[j])),
                               same(boxes[i], boxes[i + 1])]),
                      '%s: parts of a reduction are interleaved' % what)


def subject(env, rank, pos, lo=0, lens=3):
    env.sources = {}
    shape = [env.small('d%d' % d, lo, lens) if d != pos else
             env.int('n', lo) for d in range(rank)]
    s = env.data('A', tuple(shape), 'f8')
    a = adapt(env, s, 'A')
    limit = env.int('limit', 1)
    env.set_chunk(limit)
    return a, tuple(shape), limit


POSITIONS = [(1, 0), (2, 0), (2, 1)]
DEEP = [(3, 0), (3, 1), (3, 2)]


def reads(env, name='A'):
    return [k for k, _ in env.sources[name].reads]


@scenario('C08', quick=product(where=POSITIONS, masked=[False, True]) +
          product(where=DEEP, masked=[False], lens=[2]),
          thorough=product(where=POSITIONS, masked=[False], lens=[5]) +
          product(where=DEEP, masked=[False, True], lens=[3]), max_loop=4)
def elementwise(env, where, masked, lens=3):
    a, shape, limit = subject(env, *where, lens=lens)
    r = env.do(lambda: env.B.negative(a), 'building')
    fn = env.B.masked_arrays if masked else env.B.ndarrays
    env.do(lambda: fn([r]), 'realising')
    pieces(env, reads(env), shape, limit, 'reading')


@scenario('C08', quick=product(where=POSITIONS, masked=[False, True]) +
          product(where=DEEP, masked=[False], lens=[2]),
          thorough=product(where=DEEP, masked=[False, True], lens=[3]),
          max_loop=4)
def saving(env, where, masked, lens=3):
    a, shape, limit = subject(env, *where, lens=lens)
    target = Target(env)
    env.do(lambda: env.B.save([a], [target], masked=masked), 'saving')
    pieces(env, reads(env), shape, limit, 'reading')
    pieces(env, target.keys, shape, limit, 'writing')


class Target(object):
    def __init__(self, env):
        self.keys = []

    def __setitem__(self, keys, value):
        self.keys.append(keys)


@scenario('C08', quick=product(where=POSITIONS + DEEP, lens=[2]),
          thorough=product(where=POSITIONS[1:] + DEEP, lens=[3]),
          max_loop=4)
def reduction(env, where, lens):
    a, shape, limit = subject(env, *where, lo=1, lens=lens)
    axis = env.small('axis', 0, where[0] - 1)
    r = env.do(lambda: env.B.count(a, axis=axis), 'building')
    env.do(r.ndarray, 'realising')
    boxes = pieces(env, reads(env), shape, limit, 'reading')
    consecutive(env, boxes, [axis], 'reduction')


@scenario('C08', quick=product(where=POSITIONS[1:] + DEEP[:1], lens=[2]),
          thorough=product(where=DEEP[1:], lens=[2]) +
          product(where=POSITIONS[1:], lens=[4]), max_loop=4)
def nested(env, where, lens):
    """A reduction of (an elementwise operation on) a reduction."""
    a, shape, limit = subject(env, *where, lo=1, lens=lens)
    x = env.small('x', 0, where[0] - 1)
    y = env.small('y', 0, where[0] - 2)
    mid = env.choice('between', ['', 'negative'])

    def build():
        r = env.B.count(a, axis=x)
        if mid:
            r = env.B.negative(r)
        return env.B.count(r, axis=y)
    r = env.do(build, 'building')
    env.do(r.ndarray, 'realising')
    boxes = pieces(env, reads(env), shape, limit, 'reading')
    consecutive(env, boxes, [x], 'inner reduction')
    consecutive(env, boxes, [x, y if y < x else y + 1], 'outer reduction')


@scenario('C08', quick=product(shape=[(2, 2, 2), (3, 1, 2), (1, 4), (4, 1)],
                               fn=['sum', 'min', 'mean', 'std']),
          thorough=product(shape=[(2, 3, 2), (2, 2, 3), (3, 3), (2, 2, 2,
                                                                 2)],
                           fn=['sum', 'max', 'mean', 'var']))
def concrete(env, shape, fn):
    """Every limit, axis and kind of reduction on concrete shapes."""
    env.sources = {}
    s = env.data('A', shape, 'f8', generic=True)
    a = adapt(env, s, 'A')
    n = int(np.prod(shape))
    limit = env.int('limit', 1, n + 1)
    env.set_chunk(limit)
    axis = env.small('axis', 0, len(shape) - 1)
    r = env.do(lambda: getattr(env.B, fn)(a, axis=axis), 'building')
    env.do(r.ndarray, 'realising')
    boxes = pieces(env, reads(env), shape, limit, 'reading')
    consecutive(env, boxes, [axis], 'reduction')
