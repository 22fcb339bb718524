"""C13: evaluations of expressions in which one read of a source, or one call
of a computing stage, fails: which one is symbolic, and so is the schedule
(every choice of the thread which goes on, up to a bounded number of
deviations from the canonical schedule). The caller must get an exception; a
result or a deadlock is a violation. Realising again without the fault gives
the right result."""
import numpy as np

from sx import spec as S
from sx.harness import scenario, product
from props.c12 import Pool

ASSUMPTIONS = [
    'Sources of shape (2, 2) in up to 4 chunks, one failing read or '
    'computation per evaluation, up to 2 deviations from the canonical '
    'schedule in the quick tier (3 in the thorough tier), at queue '
    'operations, thread starts and reads.',
    'Failures are exceptions of several classes, including ones outside '
    'Exception.',
]


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


KINDS = {'error': Fault, 'memory': MemoryError, 'stop': StopIteration,
         'index': IndexError, 'base': Stop}


class Broken(object):
    """A stage of which one call fails."""
    def __init__(self, handler, fault, method):
        self.__dict__.update(_handler=handler, _fault=fault, _method=method)

    def __getattr__(self, name):
        real = getattr(self._handler, name)
        if name != self._method:
            return real

        def call(*args):
            self._fault()
            return real(*args)
        return call


class Faults(object):
    """Raises at one (symbolic) call."""
    def __init__(self, env, kind, most):
        self.env = env
        self.exc = KINDS[kind]
        self.k = env.int('failing', 0, most)
        self.n = 0
        self.armed = True
        self.hit = False

    def __call__(self, *args):
        if not self.armed:
            return False
        i = self.n
        self.n += 1
        if not self.hit and bool(self.k == i):
            self.hit = True
            raise self.exc('planted')
        return False


def build(env, arrays, masked, where, kind, most):
    """The arrays, with a fault at `where`."""
    pool = Pool(env, masked)
    both = [pool.get(n) for n in arrays]
    fault = Faults(env, kind, most)
    place, _, method = where.partition(':')
    if not method:
        env.sources[place]._fail = fault
    else:
        a, _ = pool.get(place)
        handler = a.streams_handler
        if method == 'create':
            def create(masked):
                fault()
                return handler(masked)
            a.streams_handler = create
        else:
            a.streams_handler = lambda masked: Broken(handler(masked), fault,
                                                      method)
    return both, fault


def evaluate(env, arrays, masked):
    f = env.B.masked_arrays if masked else env.B.ndarrays
    try:
        return env.attempt(lambda: f(arrays))
    except Stop as e:
        return 'err', e


def judge(env, outcome, both, masked, fault, what):
    how, got = outcome
    if how == 'hang':
        env.fail('%s: blocks for ever (%s)' % (what, got), 'hang')
    if fault.hit:
        env.check(how == 'err', '%s: a result in spite of the failure' % what)
        return
    if how == 'err':
        env.fail('%s: raised %s: %s' % (what, type(got).__name__, got),
                 'raised')
    for g, (_, s) in zip(got, both):
        (env.same_masked if masked else env.same)(g, s, what)


READS = [(('A',), 'A'), (('A', 'B'), 'A'), (('A', 'B'), 'B'),
         (('-A',), 'A'), (('A+B',), 'A'), (('A+B',), 'B'),
         (('A', '-A'), 'A'), (('A+B', 'B-A'), 'B'),
         (('A.sum.0',), 'A'), (('A.sum.1',), 'A'),
         (('A.sum.0', 'A.sum.1'), 'A'), (('A+B.sum.1', 'A'), 'B'),
         (('A-sum0',), 'A'), (('A+V',), 'V'), (('stack',), 'B'),
         (('tiles',), 'B'), (('B', 'A+B', 'A'), 'A')]
STAGES = [(('-A',), '-A:process_chunks'), (('A+B',), 'A+B:process_chunks'),
          (('A+B', 'A'), 'A+B:process_chunks'),
          (('A', 'A+B', 'B'), 'A+B:process_chunks'),
          (('A.sum.0',), 'A.sum.0:process_chunks'),
          (('A.sum.1',), 'A.sum.1:finalise'),
          (('A.sum.0', 'A.max.0'), 'A.max.0:finalise'),
          (('A.max.1', 'A.sum.1'), 'A.sum.1:process_chunks'),
          (('-A.sum.0',), '-A:process_chunks'),
          (('A+B.sum.1', 'A.sum.1'), 'A+B:process_chunks'),
          (('A-sum0', 'A'), 'A.sum.0:process_chunks'),
          (('A', '-A'), '-A:create'), (('A', '-A'), '-A:finalise')]


def cases(list_, **kw):
    return [dict(d, arrays=a, where=w) for a, w in list_
            for d in product(**kw)]


@scenario('C13', quick=cases(READS, masked=[None], kind=['error']) +
          cases(STAGES, masked=[None], kind=['error']) +
          cases(READS[:6] + STAGES[:4], masked=['mask'], kind=['error']) +
          cases([READS[3], READS[4], READS[9], STAGES[0], STAGES[6]],
                masked=[None], kind=['memory', 'stop', 'index', 'base']),
          thorough=cases(READS + STAGES, masked=['mask'], kind=['base']) +
          cases(READS + STAGES, masked=[None], kind=['stop']),
          controlled=True)
def failures(env, arrays, where, masked, kind):
    """Any failure, in the canonical schedule, for any chunk-size limit."""
    env.set_chunk(env.int('limit', 1, 9))
    both, fault = build(env, arrays, masked, where, kind, 4)
    env.schedule(0)
    judge(env, evaluate(env, [a for a, _ in both], masked), both, masked,
          fault, 'evaluating')
    # Nothing remains of the failure.
    fault.armed = False
    if fault.hit and env.flag('again'):
        fault.hit = False
        env.schedule(0)
        judge(env, evaluate(env, [a for a, _ in both], masked), both, masked,
              fault, 'evaluating again')


# The evaluations with few threads and chunks.
SMALL = [READS[i] for i in (0, 1, 3, 4, 6, 8, 9, 10)] + \
    [STAGES[i] for i in (0, 1, 4, 5, 6, 8, 11, 12)]


@scenario('C13', quick=cases(SMALL, limit=[2], bound=[1]) +
          cases([READS[0], READS[3], READS[9], STAGES[0]], limit=[1],
                bound=[1]),
          thorough=cases(READS + STAGES, limit=[1, 2], bound=[2]) +
          cases([READS[0], READS[3], READS[4], READS[6], STAGES[0],
                 STAGES[1]], limit=[2], bound=[3]),
          controlled=True)
def schedules(env, arrays, where, limit, bound):
    """Any failure, under any schedule."""
    env.set_chunk(limit)
    both, fault = build(env, arrays, None, where, 'error', 4)
    env.schedule(bound)
    judge(env, evaluate(env, [a for a, _ in both], None), both, None,
          fault, 'evaluating')


class Target(object):
    def __init__(self, fault=None):
        self.fault = fault
        self.writes = 0

    def __setitem__(self, keys, value):
        if self.fault:
            self.fault()
        self.writes += 1


@scenario('C13', quick=product(where=['A', 'target', '-A:process_chunks'],
                               masked=[None, 'mask']), controlled=True)
def saving(env, where, masked):
    """A failure while saving reaches the caller too."""
    env.set_chunk(env.int('limit', 1, 5))
    if where == 'target':
        pool = Pool(env, masked)
        both = [pool.get('-A')]
        fault = Faults(env, 'error', 4)
        target = Target(fault)
    else:
        both, fault = build(env, ('-A',), masked, where, 'error', 4)
        target = Target()
    env.schedule(0)
    how, got = env.attempt(lambda: env.B.save(
        [both[0][0]], [target], masked=masked is not None))
    if how == 'hang':
        env.fail('saving: blocks for ever (%s)' % got, 'hang')
    if fault.hit:
        env.check(how == 'err', 'saving: no error in spite of the failure')
    else:
        env.check(how == 'ok', 'saving: %s' % (got,))
