"""C14: expressions are evaluated under symbolic schedules. Which thread goes
on where one blocks, and where another one takes over (thread starts, queue
operations, reads of a source), is a variable of the solver, either with a
bounded number of deviations from the canonical schedule, or as a symbolic
order of priorities of all the threads. Under each one the evaluation must
end, with the values of the expression; and with many chunks, what one stage
is ahead of the next must stay far below their number."""
import itertools

import numpy as np

from sx import sched
from sx.harness import scenario, product
from props.c12 import Pool
from props.subjects import adapt

ASSUMPTIONS = [
    'Sources of shape (2, 2) or (2, 4), up to 8 chunks of each source, up '
    'to 9 threads; up to 2 deviations from the canonical schedule, or every '
    'order of fixed priorities.',
    'Threads are interleaved where they start, at queue operations and at '
    'reads of a source; what they do in between is taken as atomic.',
    'Bounded means here: never more than 24 of 72 chunks ahead.',
]

SINGLES = [('A',), ('-A',), ('A+B',), ('A+V',), ('A.sum.0',), ('A.sum.1',),
           ('A+B.sum.1',), ('A-sum0',), ('stack',), ('tiles',),
           ('A.std.0',)]
GROUPS = [('A', '-A'), ('A', 'A'), ('A+B', 'B-A'), ('A.sum.0', 'A.sum.1'),
          ('A.sum.1', 'A'), ('A+B.sum.1', 'A'), ('A.sum.0', 'A.max.0'),
          ('A-sum0', 'A'), ('A', 'B'), ('A+B', 'A', '-A'),
          ('A.mean.0', 'A.max.0')]


def evaluate(env, pool, arrays, masked, what):
    both = [pool.get(n) for n in arrays]
    f = env.B.masked_arrays if masked else env.B.ndarrays
    return both, (lambda: env.do(lambda: f([a for a, _ in both]), what))


def judge(env, got, both, masked, what):
    env.check(len(got) == len(both), '%s: number of results' % what)
    for g, (_, s) in zip(got, both):
        (env.same_masked if masked else env.same)(g, s, what)


def cases(list_, **kw):
    return [dict(d, arrays=a) for a in list_ for d in product(**kw)]


@scenario('C14', quick=cases(SINGLES[:7] + GROUPS[:5] + GROUPS[7:9],
                             limit=[2], bound=[1], masked=[None]) +
          cases([SINGLES[1], SINGLES[4], GROUPS[0]], limit=[1], bound=[1],
                masked=['mask']) +
          cases([SINGLES[0], SINGLES[1], SINGLES[5]], limit=[2], bound=[2],
                masked=[None]),
          thorough=cases(SINGLES + GROUPS, limit=[1], bound=[1],
                         masked=[None, 'mask']) +
          cases(SINGLES + GROUPS, limit=[2], bound=[2], masked=[None]) +
          cases(SINGLES[:3], limit=[2], bound=[3], masked=[None]),
          controlled=True)
def deviations(env, arrays, limit, bound, masked):
    """Any schedule close to the canonical one."""
    env.set_chunk(limit)
    pool = Pool(env, masked)
    both, run = evaluate(env, pool, arrays, masked, 'evaluating')
    env.schedule(bound)
    judge(env, run(), both, masked, 'the result')


FEW = [SINGLES[i] for i in (0, 1, 2, 3, 4, 5)] + \
    [GROUPS[i] for i in (0, 1, 4, 8)]
# (Not the one with a thread for each of its chunks' own evaluations.)
MANY = [x for x in SINGLES + GROUPS if x not in FEW and 'A-sum0' not in x]


@scenario('C14', quick=cases(FEW, masked=[None], limit=[1]) +
          cases([SINGLES[1]], masked=['mask'], limit=[1]) +
          cases([GROUPS[2], GROUPS[3], GROUPS[6]],
                masked=[None], limit=[2], ends=[True]),
          thorough=cases(FEW, masked=[None, 'mask'], limit=[1, 2, 3]) +
          cases(MANY, masked=[None, 'mask'], limit=[1, 2], ends=[True]) +
          cases([GROUPS[3], GROUPS[6], GROUPS[2]], masked=[None],
                limit=[1]), controlled=True)
def priorities(env, arrays, limit, masked, ends=False):
    """Any order of priorities, with more chunks than a queue holds."""
    env.set_chunk(limit)
    pool = Pool(env, masked, shape=(2, 4))
    both, run = evaluate(env, pool, arrays, masked, 'evaluating')
    env.priorities(ends)
    judge(env, run(), both, masked, 'the result')


class Meter(object):
    """How far one stage is ahead of another."""
    def __init__(self):
        self.done = {}
        self.pairs = []
        self.high = {}

    def link(self, first, second):
        self.pairs.append((first, second))

    def tick(self, stage):
        self.done[stage] = self.done.get(stage, 0) + 1
        for a, b in self.pairs:
            if a == stage:
                d = self.done[a] - self.done.get(b, 0)
                self.high[a, b] = max(self.high.get((a, b), 0), d)


class Counting(object):
    """A stage whose chunks are counted as they are processed."""
    def __init__(self, handler, meter, name):
        self.__dict__.update(_handler=handler, _meter=meter, _name=name)

    def __getattr__(self, name):
        real = getattr(self._handler, name)
        if name != 'process_chunks':
            return real

        def call(*args):
            self._meter.tick(self._name)
            return real(*args)
        return call


def count(a, meter, name):
    handler = a.streams_handler
    a.streams_handler = lambda masked: Counting(handler(masked), meter, name)


N = 72
MOST = 24


CHAINS = {'A': ['A'], '-A': ['A', 'neg'], '|A|': ['A', 'abs'],
          '--A': ['A', 'neg', 'pos'], 'A+B': ['A', 'add'],
          'sum': ['A', 'sum'], '-A sum': ['A', 'neg', 'nsum']}


@scenario('C14', quick=product(expr=['A', '-A', '--A', 'A+B', '-A,sum',
                                     'A,-A', '-A sum'], masked=[False]) +
          product(expr=['-A'], masked=[True]),
          thorough=product(expr=['A', '-A', '--A', 'A+B', 'sum', 'A,-A',
                                 '-A,sum', '-A,|A|', '-A sum,|A|'],
                           masked=[True, False]), controlled=True)
def in_flight(env, expr, masked):
    """Many chunks, any order of priorities."""
    env.set_chunk(1)
    env.sources = {}
    B = env.B
    meter = Meter()
    arrays = {}
    for n in 'AB':
        s = env.data(n, (N,), 'i4', masked='mask' if masked else None)
        src = env.source(s, n, hook=lambda src, keys, n=n: meter.tick(n))
        arrays[n] = B.NumpyArrayAdapter(src)
    a, b = arrays['A'], arrays['B']
    stages = {'A': a, 'neg': B.negative(a), 'abs': B.absolute(a),
              'add': B.add(a, b), 'sum': B.sum(a, axis=0)}
    stages['pos'] = B.negative(stages['neg'])
    stages['nsum'] = B.sum(stages['neg'], axis=0)
    for name, x in stages.items():
        if name != 'A':
            count(x, meter, name)
    chains = [CHAINS[e] for e in expr.split(',')]
    for chain in chains:
        for x, y in zip(chain, chain[1:]):
            if (x, y) not in meter.pairs:
                meter.link(x, y)
        if 'add' in chain:
            meter.link('B', 'add')
    s = env.priorities(ends=True)
    f = B.masked_arrays if masked else B.ndarrays
    env.do(lambda: f([stages[chain[-1]] for chain in chains]), 'evaluating')
    for (x, y), most in sorted(meter.high.items()):
        env.check(most <= MOST, '%s is %d of %d chunks ahead of %s' % (
            x, most, N, y), 'in flight')
    for q in s.queues if s else ():
        env.check(q.high <= MOST, 'a queue holds %d of %d chunks' % (
            q.high, N), 'in flight')
    for chain in chains:
        for name in chain:
            env.check(meter.done.get(name, 0) == N, '%s: %d of %d chunks' % (
                name, meter.done.get(name, 0), N))


@scenario('C14', quick=product(masked=[False, True]),
          thorough=product(masked=[False, True], shape=[(3, 3)]))
def any_number_of_chunks(env, masked, shape=(2, 3)):
    """Every chunk-size limit, one schedule, several stages."""
    env.set_chunk(env.int('limit', 1, 10))
    pool = Pool(env, 'mask' if masked else None, shape=shape)
    both, run = evaluate(env, pool, ('-A.sum.0', 'A+B', 'A.max.0'),
                         masked, 'evaluating')
    judge(env, run(), both, masked, 'the result')
