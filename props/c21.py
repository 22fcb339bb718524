"""C21: arrays of every kind, of ranks 0 to 4, with unbounded symbolic
dimension lengths and item sizes from 1 to 64 bytes are built by the real
code and their byte count is compared with the exact product. The size text
is produced by the real code for a symbolic byte count below 2**1000: the
formatted number and its format are recorded in place of its digits, the unit
is read from the text, and the solver decides that it is the largest one that
does not exceed the count and that the number, rounded to the nearest with its
two decimals, is within half a hundredth of the count in that unit."""
from fractions import Fraction
import re

import numpy as np

from sx.harness import scenario, product
from props.subjects import make, KINDS, adapt, objects

ASSUMPTIONS = [
    'Byte counts below 2**1000 in the size text (Python itself refuses to '
    'divide integers above about 2**1024); from 2**53 on the number shown is '
    'only checked to the precision of floating point.',
    'Dimension lengths below 2**62, the most that Python can index.',
    'Division in floating point is taken as exact when the text is decided; '
    'each counterexample is confirmed with the real one.',
]

UNITS = ['B', 'KiB', 'MiB', 'GiB', 'TiB']


class Virtual(object):
    """Has a shape and a type, and no values."""

    def __init__(self, shape, dtype):
        self.shape = shape
        self.dtype = np.dtype(dtype)
        self.ndim = len(shape)

    def __getitem__(self, keys):
        raise AssertionError('the values are not needed')


class Counted(object):
    def __init__(self, nbytes):
        self.nbytes = nbytes


def judge_bytes(env, a, shape, itemsize, what='nbytes'):
    want = itemsize
    for n in shape:
        want = want * n
    got = env.do(lambda: a.nbytes, what)
    env.check(got == want, '%s: not the number of elements times the size of '
              'each' % what)


def judge_text(env, text, n):
    """text describes n bytes."""
    m = re.match(r'^(\S+) (B|KiB|MiB|GiB|TiB)$', text)
    env.check(m is not None, 'text: not a number and a unit: %r' % text)
    k = UNITS.index(m.group(2))
    unit = 1024 ** k
    if k:
        env.check(n >= unit, 'unit: %s exceeds the count' % UNITS[k])
    if k < 4:
        env.check(n < 1024 * unit, 'unit: %s is not the largest'
                  % UNITS[k])
    stated = env.number_text(m.group(1))
    env.check(stated is not None, 'text: not a number: %r' % m.group(1))
    x, decimals = stated
    if decimals is not None and decimals > 2:
        env.fail('number: %d decimals' % decimals)
    if k == 0:
        # A whole number of bytes: any rounding that keeps it is right.
        env.check(x == n, 'number: is not the count')
        return
    if not env.sym:
        slack = Fraction(1, 200) + Fraction(n, unit) / 10 ** 15
        env.check(abs(x - Fraction(n, unit)) <= slack and
                  (x * 100).denominator == 1, 'number: %s for %s of %s bytes'
                  % (m.group(1), UNITS[k], n))
        return
    if decimals is None:
        env.check((x * 100) % 1 == 0, 'number: more than two decimals')
        shown = x
    else:
        ten = 10 ** decimals
        # The nearest; of two, the upper one. The other one differs from
        # it by 1 / ten and is as near.
        shown = (x * ten + Fraction(1, 2)) // 1 / ten
    diff = shown - n / Fraction(unit)
    env.check(env.all([diff <= Fraction(1, 200), -diff <= Fraction(1, 200)]),
              'number: not the count in %s to two decimals' % UNITS[k])


@scenario('C21', quick=[{}], formats=True)
def text(env):
    """size() of anything that has a byte count."""
    n = env.int('bytes', 0, 2 ** 1000)
    judge_text(env, env.do(lambda: env.B.size(Counted(n)), 'size'), n)


@scenario('C21', quick=product(itemsize=[1, 8, 24], rank=[0, 1, 2, 3]),
          formats=True)
def described(env, itemsize, rank):
    """str() of an array states its size."""
    shape = tuple(env.int('n%d' % d, 0, 2 ** 62) for d in range(rank))
    a = env.B.NumpyArrayAdapter(Virtual(shape, 'V%d' % itemsize))
    n = itemsize
    for d in shape:
        n = n * d
    out = env.do(lambda: str(a), 'str')
    m = re.search(r'size=(.*)>$', out)
    env.check(m is not None, 'text: states no size')
    judge_text(env, m.group(1), n)


TYPES = ['V1', 'V2', 'V3', 'V7', 'V8', 'V13', 'V16', 'V64', 'b1', 'i2', 'f4',
         'c16', 'S5', 'M8[s]', 'O']


@scenario('C21', quick=product(rank=[0, 1, 2, 3, 4, 6]))
def counts(env, rank):
    """Arrays of any shape and type."""
    shape = tuple(env.int('n%d' % d, 0, 2 ** 62) for d in range(rank))
    dt = np.dtype(env.choice('type', TYPES))
    cls = env.choice('class', ['NumpyArrayAdapter', 'OrthoArrayAdapter'])
    a = getattr(env.B, cls)(Virtual(shape, dt))
    judge_bytes(env, a, shape, dt.itemsize)


@scenario('C21', quick=product(kind=KINDS, dtype=['i2', 'f8']) +
          product(kind=['add', 'cast', 'maskval', 'sum'], dtype=['f4', 'u1']))
def kinds(env, kind, dtype):
    """Arrays of every kind."""
    a, s = make(env, kind, dtype=dtype)
    judge_bytes(env, a, s.shape, np.dtype(dtype).itemsize)


def leaf(env, name, shape, dtype):
    return env.B.NumpyArrayAdapter(Virtual(shape, dtype))


@scenario('C21', quick=product(kind=['stack', 'mosaic', 'broadcast',
                                     'constant', 'mean', 'std',
                                     'var', 'count', 'min', 'ufunc', 'cast',
                                     'deep']))
def large(env, kind):
    """Arrays made of arrays of more dimensions, with other types."""
    B = env.B
    n = env.int('n', 1)
    m = env.int('m', 1)
    p = env.int('p', 1)
    dt = env.choice('type', ['u1', 'i4', 'f4', 'f8'])
    cube = leaf(env, 'A', (n, m, p), dt)
    size = np.dtype(dt).itemsize
    wide = max(size, 8) if np.dtype(dt).kind in 'iu' else size
    if kind == 'stack':
        parts = [leaf(env, 'A', (n, m, p), dt) for _ in range(6)]
        a = B.ArrayStack(objects(parts, (2, 3)))
        judge_bytes(env, a, (2, 3, n, m, p), size)
    elif kind == 'mosaic':
        q = env.int('q', 1)
        a = B.LinearMosaic([cube, leaf(env, 'B', (n, q, p), dt),
                            leaf(env, 'C', (n, 5, p), dt)], 1)
        judge_bytes(env, a, (n, m + q + 5, p), size)
    elif kind == 'broadcast':
        q = env.int('q', 1)
        a = B.BroadcastArray(leaf(env, 'A', (n, 1, p), dt), {1: m}, (q,))
        judge_bytes(env, a, (q, n, m, p), size)
    elif kind == 'constant':
        a = B.ConstantArray((n, m, p), 1, dt)
        judge_bytes(env, a, (n, m, p), size)
        judge_bytes(env, B.zeros((p, n), dt), (p, n), size)
    elif kind == 'mean':
        judge_bytes(env, B.mean(cube, axis=1), (n, p), wide)
    elif kind == 'std':
        judge_bytes(env, B.std(cube, axis=0), (m, p), wide)
    elif kind == 'var':
        judge_bytes(env, B.var(cube, axis=2), (n, m), wide)
    elif kind == 'count':
        a = B.count(cube, axis=0)
        judge_bytes(env, a, (m, p), a.dtype.itemsize)
    elif kind == 'min':
        judge_bytes(env, B.min(cube, axis=0), (m, p), size)
    elif kind == 'ufunc':
        judge_bytes(env, B.add(cube, leaf(env, 'B', (n, m, p), dt)),
                    (n, m, p), size)
    elif kind == 'cast':
        judge_bytes(env, cube.astype('c16'), (n, m, p), 16)
    elif kind == 'deep':
        a = cube.transpose((2, 0, 1))[:, None, 3:, ::-1]
        judge_bytes(env, a, a.shape, size)
        judge_bytes(env, (a * 2).astype('f4'), a.shape, 4)
