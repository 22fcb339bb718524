"""C02: every kind of virtual array, of symbolic dimension lengths, is
indexed with an arbitrary out-of-range integer (alone or in a sequence),
directly or after an arbitrary in-range indexing, or with too many indices;
IndexError must come from the indexing itself on every path."""
import sx.harness as H
from sx.harness import scenario, product
from props.common import take_keys
from props import subjects as SUB

ASSUMPTIONS = [
    'Arrays of rank up to 3; integer sequences of at most 3 members; at most '
    'one earlier indexing operation; stacks of shape (2,) and (2, 2); '
    'mosaics of two tiles.',
    'Sequences as keys of broadcast or new dimensions may be refused with '
    'NotImplementedError, as documented.',
]

HEAVY = ('mosaic0', 'mosaic1')


def outside(env, name, n):
    k = env.int(name)
    env.assume(env.any([k >= n, k < -n]))
    return k


def refused(env, arr, spec, how, what):
    """One key is out of range, the others are arbitrary."""
    d = env.small('dim', 0, spec.ndim - 1)
    keys = []
    for j in range(spec.ndim):
        if j != d:
            keys.append(env.choice('o%d' % j, [slice(None), 0]))
            if keys[-1] == 0:
                env.assume(spec.shape[j] > 0)
    bad = outside(env, 'bad', spec.shape[d])
    ok = (IndexError,)
    if how == 'int':
        key = bad
    elif how == 'npint':
        key = env.np_int(bad)
    else:
        good = env.int('good')
        n = spec.shape[d]
        env.assume(env.all([good < n, good >= -n]))
        key = env.choice('order', [(bad, good), (good, bad), (bad,),
                                   (good, bad, good)])
        if how == 'arr':
            key = env.int_array(list(key))
        ok = (IndexError, NotImplementedError)
    keys.insert(d, key)
    keys = tuple(keys)
    if how != 'seq' and env.flag('trim') and d == 0:
        keys = key
    env.raises(ok, lambda: arr[keys], what)


@scenario('C02', quick=product(kind=SUB.KINDS, how=['int', 'seq', 'npint']),
          thorough=product(kind=SUB.KINDS + ['cube'], how=['arr']),
          max_loop=3)
def direct(env, kind, how):
    arr, spec = SUB.make(env, kind)
    refused(env, arr, spec, how, 'out of range')


@scenario('C02', quick=product(kind=SUB.KINDS, how=['int']),
          thorough=product(kind=SUB.KINDS, how=['seq']), max_loop=2)
def indexed(env, kind, how):
    """After an earlier, valid, indexing operation."""
    arr, spec = SUB.make(env, kind)
    first = env.choice('first', ['pslice:b', 'nslice:', 'int', 'seq1',
                                 'none'])
    if kind in ('broadcast', 'leading', 'bcadd') and first == 'seq1':
        return
    where = env.small('where', 0, 1)
    kinds = ['full', 'full']
    kinds[where] = first
    if first == 'none':
        kinds = [first, 'full', 'full']
    keys = take_keys(env, 'k', kinds, spec.shape)
    arr = env.do(lambda: arr[keys], 'indexing')
    spec = spec.index(keys)
    refused(env, arr, spec, how, 'out of range, indexed before')


@scenario('C02', quick=product(kind=SUB.KINDS), max_loop=3)
def too_many(env, kind):
    """More indices than dimensions."""
    arr, spec = SUB.make(env, kind)
    extra = env.small('extra', 1, 2)
    keys = []
    for j in range(spec.ndim + extra):
        keys.append(env.choice('kind%d' % j, [0, slice(None)]) if j < 3
                    else 0)
        if keys[-1] == 0 and j < spec.ndim:
            env.assume(spec.shape[j] > 0)
    if env.flag('ellipsis'):
        keys.insert(env.choice('where', [0, 1, len(keys)]), Ellipsis)
    elif env.flag('newaxis'):
        keys.insert(1, None)
    env.raises(IndexError, lambda: arr[tuple(keys)], 'too many indices')
