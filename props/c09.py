"""C09: biggus.save is executed with a symbolic chunk-size limit, on vectors of
symbolic length and on arrays of every kind, plain and masked, into a target
which records every assignment. For an arbitrary position: exactly one
assignment covers it, its value there (and masked-ness, when saving masked) is
that of the source, the assigned block has the shape of its region, and no
region leaves the target."""
import itertools

from sx import cells as C
from sx.harness import scenario, product
from props.c08 import full, holds
from props.subjects import adapt, make, KINDS

ASSUMPTIONS = [
    'Vectors of any length (up to 4 pieces), other arrays with dimensions up '
    'to 3; every limit from 1; one source and one target per call, as the '
    'code requires.',
]


class Target(object):
    """Assignable by integers and slices, as file variables are."""
    def __init__(self):
        self.writes = []

    def __setitem__(self, keys, value):
        self.writes.append((keys, value))


def at(env, box, keys, value, q):
    """Position within the assigned block of the target's position q."""
    idx = []
    for (lo, hi, step), k, x in zip(box, keys, q):
        if isinstance(k, slice):
            idx.append(x - lo)
    return tuple(idx)


def check_target(env, target, spec, masked, what):
    shape = spec.shape
    done = []
    for keys, value in target.writes:
        if not isinstance(keys, tuple):
            keys = (keys,)
        keys = keys + (slice(None),) * (len(shape) - len(keys))
        box = full(keys, shape)
        if all(isinstance(n, int) for n in shape):
            box = [(int(lo), int(hi), step) for lo, hi, step in box]
        for (lo, hi, step), n in zip(box, shape):
            env.check(env.all([0 <= lo, hi <= n, step == 1]),
                      '%s: region outside the target' % what)
        region = [hi - lo for (lo, hi, _), k in zip(box, keys)
                  if isinstance(k, slice)]
        env._kind(value, masked, what)
        env.check(value.dtype == spec.dtype, '%s: type of a block' % what)
        env.same_shape(value.shape, region, what + ' block')
        done.append((box, keys, value) + env.reader(value))
    q = [env.int('q%d' % d, 0) for d in range(len(shape))]
    symbolic = any(not isinstance(n, int) for n in shape)
    points = [q] if symbolic or not env.sym else \
        list(itertools.product(*[range(int(n)) for n in shape]))
    if not env.sym:
        points = list(itertools.product(*[range(int(n)) for n in shape]))
    for q in points:
        inside = env.all([x < n for x, n in zip(q, shape)])
        held = [holds(env, d[0], q) for d in done]
        env.check(env.any([env.not_(inside)] + held),
                  '%s: an element is not written' % what)
        for i, j in itertools.combinations(range(len(held)), 2):
            env.check(env.not_(env.all([inside, held[i], held[j]])),
                      '%s: an element is written twice' % what)
        for h, (box, keys, value, vf, mf) in zip(held, done):
            if h is False:
                continue
            idx = at(env, box, keys, value, q)
            if not env.sym and not h:
                continue
            ok = env.val_eq(vf(idx), spec.fn(tuple(q)))
            if masked:
                m = C.truth(spec.m(tuple(q)))
                same = env._one(vf, mf, _At(spec, tuple(q), idx),
                                lambda i: spec.m(tuple(q)), idx, True)
                del m
                ok = same
            env.check(env.any([env.not_(env.all([inside, h])), ok]),
                      '%s: an element has another value' % what)


class _At(object):
    """The spec seen from one position of a block."""
    def __init__(self, spec, q, idx):
        self.fn = lambda i: spec.fn(q)


@scenario('C09', quick=product(masked=[None, 'mask', 'nomask'],
                               dtype=['f8']) +
          product(masked=[None], dtype=['i2']), max_loop=4)
def vectors(env, masked, dtype):
    """Any length, any limit."""
    env.sources = {}
    s = env.data('A', (env.int('n', 0),), dtype, masked=masked, fill=7)
    a = adapt(env, s, 'A')
    env.set_chunk(env.int('limit', 1))
    t = Target()
    env.do(lambda: env.B.save([a], [t], masked=masked is not None),
           'saving')
    check_target(env, t, s, masked is not None, 'saved')


@scenario('C09', quick=product(pos=[0, 1], masked=[None, 'mask']),
          thorough=product(pos=[0, 1], masked=['nomask'], hi=[5]) +
          product(pos=[0, 1, 2], rank=[3], masked=[None]), max_loop=4)
def matrices(env, pos, masked, rank=2, hi=3):
    """One dimension of any length."""
    env.sources = {}
    shape = tuple(env.int('n', 0) if d == pos else env.small(
        'd%d' % d, 0, hi if rank == 2 else 2) for d in range(rank))
    s = env.data('A', shape, 'f8', masked=masked)
    a = adapt(env, s, 'A')
    env.set_chunk(env.int('limit', 1))
    t = Target()
    env.do(lambda: env.B.save([a], [t], masked=masked is not None),
           'saving')
    check_target(env, t, s, masked is not None, 'saved')


def small_dims(env, hi):
    def dim(name, lo=0):
        return env.small(name, lo, hi) if name in 'n' else \
            {'m': 2, 'p': 1}.get(name, 2)
    return dim


@scenario('C09', quick=product(kind=KINDS, masked=[None, 'mask'], hi=[2]),
          thorough=product(kind=KINDS, masked=[None, 'mask'], hi=[3]) +
          product(kind=['cube'], masked=[None, 'mask'], hi=[2]))
def kinds(env, kind, masked, hi):
    """Arrays of every kind, every limit."""
    a, s = make(env, kind, small_dims(env, hi), 'f8', masked=masked)
    n = 1
    for d in s.shape:
        n = n * d
    env.set_chunk(env.int('limit', 1, 2 * hi * 2 + 1))
    if masked:
        s.mask = s.mask or (lambda i: False)
    t = Target()
    env.do(lambda: env.B.save([a], [t], masked=masked is not None),
           'saving')
    check_target(env, t, s, masked is not None, 'saved')


@scenario('C09', quick=product(expr=['selected', 'mixed', 'mean'],
                               masked=[False, True], shape=[(2, 3)]),
          thorough=product(expr=['selected', 'mixed', 'mean'],
                           masked=[False, True], shape=[(3, 3)]))
def numpy_target(env, expr, masked, shape):
    """Expressions saved into a NumPy array."""
    env.sources = {}
    s = env.data('A', shape, 'f8', generic=True,
                 masked='mask' if masked else None)
    t = env.data('B', shape[1:], 'f8', generic=True,
                 masked='mask' if masked else None)
    a, b = adapt(env, s, 'A'), adapt(env, t, 'B')
    env.set_chunk(env.int('limit', 1, shape[0] * shape[1] + 1))
    x, y = env.array(s), env.array(t)
    if expr == 'selected':
        r, want = a[::-1, 1:], x[::-1, 1:]
    elif expr == 'mixed':
        r, want = a - b, x - y
    else:
        r, want = env.B.mean(a, axis=1), x.mean(axis=1)
    mod = env.xp.ma if masked else env.xp
    target = mod.zeros(tuple(int(n) for n in r.shape), dtype='f8')
    env.do(lambda: env.B.save([r], [target], masked=masked), 'saving')
    env.expect(target, want, 'saved', exact=False)
