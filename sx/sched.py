"""
Cooperative threads, queues and locks.

They replace `threading` and `queue` for the code under test, so that the
order in which threads run is decided here: by default each thread runs until
it blocks; for the schedule properties every choice is a symbolic variable
(which runnable thread goes on when one blocks, and where a bounded number of
preemptions happen), and the executor explores all of them.
"""
import collections
import os
import traceback
import queue as _queue
import threading as _threading

from greenlet import greenlet, getcurrent

from . import engine as E
from . import term as T

DEBUG = os.environ.get('SX_DEBUG')


class Deadlock(BaseException):
    """No thread can go on, although the caller is still waiting."""


class _Canonical(object):
    """Run until blocked; then the one which has waited longest."""
    preempt = False

    def pick(self, what, n):
        return 0

    def preempted(self, what, n):
        return 0

    def timeout(self, what):
        return False


class Deviations(object):
    """
    The canonical schedule, except at a bounded number of places: where a
    thread blocks, any other one of those which can run may go on; where a
    thread reaches a scheduling point, any other one may take over.
    """

    def __init__(self, bound=1, points=(), max_points=400):
        self.left = bound
        self.points = points
        self.n = 0
        self.max_points = max_points
        self.taken = 0

    def choose(self, name, n):
        """0, or the number (below n) of the chosen alternative."""
        raise NotImplementedError

    @property
    def preempt(self):
        return self.left > 0

    def _at(self, kind, n):
        if self.left <= 0 or n <= 1:
            return 0
        self.n += 1
        if self.n > self.max_points:
            return 0
        k = self.choose('%s%d.%d' % (kind, self.n, n), n)
        if k:
            self.left -= 1
            self.taken += 1
        return k

    def pick(self, what, n):
        return self._at('switch', n)

    def preempted(self, what, n):
        """0, or 1 + the number of the thread which takes over."""
        if self.points and what not in self.points:
            return 0
        return self._at('preempt', n + 1)

    def timeout(self, what):
        return False


class SymbolicPolicy(Deviations):
    """Every choice is a fresh symbolic variable of the current path."""

    def choose(self, name, n):
        e = E.eng()
        v = e.new_var(name, 'I', 0, n - 1)
        b = T.eq(v, T.iconst(0))
        if e.fork(b):
            return 0
        return e.concretise(v)


class ModelPolicy(Deviations):
    """The choices recorded in a model."""

    def __init__(self, model, *args, **kw):
        Deviations.__init__(self, *args, **kw)
        self.model = model

    def choose(self, name, n):
        return int(self.model.get(name, 0))


class Priorities(object):
    """
    Always the thread of the highest priority which can run; the order of the
    priorities is chosen as the threads are started. With `ends`, each one
    is put at either end of the order of those which were started before.
    """
    preempt = True
    ends = False

    def __init__(self):
        self.order = []

    def choose(self, name, n):
        raise NotImplementedError

    def started(self, task):
        n = len(self.order) + 1
        m = min(n, 2) if self.ends else n
        k = self.choose('rank%d.%d' % (n, m), m) if n > 1 else 0
        if self.ends and k:
            k = len(self.order)
        self.order.insert(k, task)

    def best(self, tasks):
        return min(tasks, key=self.order.index)

    def timeout(self, what):
        return False


class SymbolicPriorities(Priorities):
    choose = SymbolicPolicy.choose


class ModelPriorities(Priorities):
    def __init__(self, model):
        Priorities.__init__(self)
        self.model = model

    choose = ModelPolicy.choose


class _Task(object):
    def __init__(self, name, g=None):
        self.name = name
        self.g = g
        self.pred = None
        self.timed = False
        self.done = False
        self.error = None
        self.fired = False
        self.stamp = 0


class Scheduler(object):
    def __init__(self, policy=None, max_steps=20000):
        self.policy = policy or _Canonical()
        self.main = _Task('main', getcurrent())
        self.tasks = [self.main]
        self.current = self.main
        self.steps = 0
        self.max_steps = max_steps
        self.clock = 0
        self.hub = greenlet(self._loop)
        self.dead = False
        self.errors = []
        self.switches = 0
        self.forced = None
        self.queues = []
        self.ranked = isinstance(self.policy, Priorities)
        if self.ranked:
            self.policy.started(self.main)

    # -------------------------------------------------------- internals
    def _pending(self):
        e = E.eng()
        if e is not None and e.pending is not None:
            raise e.pending

    def _loop(self):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise E.BoundCut('scheduler steps')
            ready = [t for t in self.tasks if not t.done and
                     (t.pred is None or t.pred())]
            if not ready:
                timed = [t for t in self.tasks if not t.done and t.timed]
                if not timed:
                    self.dead = True
                    waiting = [t.name for t in self.tasks if not t.done]
                    raise Deadlock('no thread can run; waiting: %s'
                                   % ', '.join(waiting))
                timed.sort(key=lambda t: t.stamp)
                t = timed[0]
                t.fired = True
            else:
                t = self.forced
                self.forced = None
                if t is None and self.ranked:
                    t = self.policy.best(ready)
                if t is None:
                    ready.sort(key=lambda t: t.stamp)
                    t = ready[self.policy.pick('switch', len(ready))]
            self.clock += 1
            t.stamp = self.clock
            t.pred = None
            t.timed = False
            self.current = t
            self.switches += 1
            t.g.switch()

    def _yield(self):
        if self.dead:
            self._pending()
            raise Deadlock('the scheduler has stopped')
        t = self.current
        self.clock += 1
        t.stamp = self.clock
        try:
            self.hub.switch()
        except E.PathControl:
            self.dead = True
            raise
        self.current = t

    # ---------------------------------------------------------- surface
    def spawn(self, name, fn):
        t = _Task(name)

        def body():
            try:
                fn()
            except E.PathControl:
                raise
            except Deadlock:
                raise
            except BaseException as e:      # the thread dies alone
                t.error = e
                if DEBUG:
                    traceback.print_exc()
                self.errors.append((t.name, e))
            t.done = True
            self._pending()
        t.g = greenlet(body, self.hub)
        self.clock += 1
        t.stamp = self.clock
        if self.ranked:
            self.policy.started(t)
        self.tasks.append(t)
        self.point('start')
        return t

    def point(self, what):
        """A place where another thread may take over."""
        self._pending()
        if self.dead:
            raise Deadlock('the scheduler has stopped')
        if not self.policy.preempt or len(self.tasks) == 1:
            return
        others = [t for t in self.tasks if t is not self.current and
                  not t.done and (t.pred is None or t.pred())]
        if not others:
            return
        if self.ranked:
            t = self.policy.best(others + [self.current])
            if t is not self.current:
                self.forced = t
                self._yield()
            return
        others.sort(key=lambda t: t.stamp)
        k = self.policy.preempted(what, len(others))
        if k:
            self.forced = others[k - 1]
            self._yield()

    def wait(self, pred, what, timeout=None):
        """Block until pred(); False when the timeout fired instead."""
        self._pending()
        if self.dead:
            raise Deadlock('the scheduler has stopped')
        if pred():
            return True
        t = self.current
        if timeout is not None and timeout <= 0:
            return False
        while True:
            t.pred = pred
            t.timed = timeout is not None
            t.fired = False
            self._yield()
            if t.fired:
                return False
            if pred():
                return True


SCHED = [None]


def sched():
    s = SCHED[0]
    if s is None:
        s = SCHED[0] = Scheduler()
    return s


def start(policy=None, **kw):
    SCHED[0] = Scheduler(policy, **kw)
    return SCHED[0]


def stop():
    SCHED[0] = None


# ---------------------------------------------------------------- threading

_count = [0]


class Thread(object):
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        _count[0] += 1
        self._target = target
        self.name = str(name or 'Thread-%d' % _count[0])
        self._args = args
        self._kwargs = kwargs or {}
        self.daemon = bool(daemon)
        self._task = None
        self.ident = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError('threads can only be started once')
        s = sched()
        self._sched = s
        self.ident = len(s.tasks)
        self._task = s.spawn(self.name, self.run)

    def is_alive(self):
        return self._task is not None and not self._task.done
    isAlive = is_alive

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        t = self._task
        sched().wait(lambda: t.done, 'join', timeout)

    def setDaemon(self, v):
        self.daemon = v

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class Lock(object):
    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = sched()
        s.point('lock')
        if self._owner is not None and not blocking:
            return False
        if not s.wait(lambda: self._owner is None, 'lock',
                      None if timeout is None or timeout < 0 else timeout):
            return False
        self._owner = s.current
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None
        sched().point('unlock')

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self):
        Lock.__init__(self)
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._owner is not None and self._owner is sched().current:
            self._n += 1
            return True
        r = Lock.acquire(self, blocking, timeout)
        if r:
            self._n = 1
        return r

    def release(self):
        if self._owner is not sched().current:
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if self._n == 0:
            Lock.release(self)


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock or RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return True

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        n = getattr(self._lock, '_n', None)
        self._lock._owner = None
        r = sched().wait(lambda: tok[0], 'condition', timeout)
        sched().wait(lambda: self._lock._owner is None, 'lock')
        self._lock._owner = sched().current
        if n is not None:
            self._lock._n = n
        if not r and tok in self._waiters:
            self._waiters.remove(tok)
        return r

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


class Event(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        self._flag = True
        sched().point('event')

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        return sched().wait(lambda: self._flag, 'event', timeout)


class Semaphore(object):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = sched()
        s.point('semaphore')
        if not blocking and self._value <= 0:
            return False
        if not s.wait(lambda: self._value > 0, 'semaphore', timeout):
            return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        sched().point('semaphore')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Local(object):
    """threading.local, per cooperative thread."""
    def __init__(self):
        object.__setattr__(self, '_d', {})

    def _mine(self):
        return self._d.setdefault(id(sched().current), {})

    def __getattr__(self, name):
        try:
            return self._mine()[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, v):
        self._mine()[name] = v


class ThreadingShim(object):
    Thread = Thread
    Lock = Lock
    RLock = RLock
    Condition = Condition
    Event = Event
    Semaphore = Semaphore
    BoundedSemaphore = Semaphore
    local = Local
    __name__ = 'threading'

    @staticmethod
    def current_thread():
        return sched().current
    currentThread = current_thread

    @staticmethod
    def get_ident():
        return id(sched().current)

    @staticmethod
    def active_count():
        return len([t for t in sched().tasks if not t.done])

    @staticmethod
    def enumerate():
        return [t for t in sched().tasks if not t.done]

    def __getattr__(self, name):
        v = getattr(_threading, name)
        raise E.Unsupported('threading.%s' % name) if callable(v) else \
            AttributeError(name)


# ------------------------------------------------------------------- queues

class Queue(object):
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = collections.deque()
        self.unfinished_tasks = 0
        self.high = 0
        sched().queues.append(self)

    def _full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block=True, timeout=None):
        s = sched()
        s.point('put')
        if not block and self._full():
            raise _queue.Full
        if not s.wait(lambda: not self._full(), 'put', timeout):
            raise _queue.Full
        self._push(item)
        self.unfinished_tasks += 1
        self.high = max(self.high, len(self.queue))

    def _push(self, item):
        self.queue.append(item)

    def _pop(self):
        return self.queue.popleft()

    def get(self, block=True, timeout=None):
        s = sched()
        s.point('get')
        if not block and not self.queue:
            raise _queue.Empty
        if not s.wait(lambda: len(self.queue) > 0, 'get', timeout):
            raise _queue.Empty
        return self._pop()

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        if self.unfinished_tasks <= 0:
            raise ValueError('task_done() called too many times')
        self.unfinished_tasks -= 1

    def join(self):
        sched().wait(lambda: self.unfinished_tasks == 0, 'queue join')

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return not self.queue

    def full(self):
        return self._full()


class LifoQueue(Queue):
    def _pop(self):
        return self.queue.pop()


class QueueShim(object):
    Queue = Queue
    SimpleQueue = Queue
    LifoQueue = LifoQueue
    Empty = _queue.Empty
    Full = _queue.Full
    __name__ = 'queue'

    def __getattr__(self, name):
        v = getattr(_queue, name)
        raise E.Unsupported('queue.%s' % name)
