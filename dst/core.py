"""Deterministic simulator core (Jython 2.7).

One simulation = one Sim object.  Coroutines of the code under test are real
Java threads of which exactly one is ever released at a time (a baton); which
one is released, what every network, HTTP or socket operation does and how far
the clock moves is decided here and only here.  Every decision is a *labelled
choice*: its value is a hash of (seed, label, occurrence) in generate mode, and
is looked up in the recorded map in replay mode, 0 ("nothing special") being
the default.
"""
import re
import sys
import heapq
from java.util.concurrent import Semaphore, TimeUnit
from java.lang import Thread, Runnable, Throwable
from java.util import SplittableRandom

M64 = (1 << 64) - 1


class TaskKilled(BaseException):
    """raised inside coroutines when their run is over"""


class GreenletExit(BaseException):
    """raised inside a coroutine by api.kill"""


class Hang(Exception):
    """a coroutine ran for ever without reaching a simulated operation"""


class Abort(Exception):
    """the simulation was stopped early (step cap)"""


def mix(x):
    """splitmix64 finaliser"""
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


def label_hash(s):
    h = 1469598103934665603
    for c in s:
        h = ((h ^ ord(c)) * 1099511628211) & M64
    return h


def jlong(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


class RNG(object):
    """small deterministic generator, independent of the `random` module"""

    def __init__(self, seed):
        self.r = SplittableRandom(jlong(mix(seed & M64)))
        self.random = self.r.nextDouble

    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 24)
            v = (v << k) | self.r.nextInt(1 << k)
            n -= k
        return v

    def below(self, n):
        return self.r.nextInt(n)

    def randint(self, a, b):
        if b - a < 0x7fffffff:
            return a + self.r.nextInt(b - a + 1)
        return a + self.bits(80) % (b - a + 1)

    def chance(self, p):
        return self.r.nextDouble() < p

    def uniform(self, a, b):
        return a + (b - a) * self.r.nextDouble()

    def choice(self, seq):
        return seq[self.r.nextInt(len(seq))]

    def sample(self, seq, k):
        seq = list(seq)
        self.shuffle(seq)
        return seq[:k]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.r.nextInt(i + 1)
            seq[i], seq[j] = seq[j], seq[i]

    def weighted(self, pairs):
        tot = 0
        for _, w in pairs:
            tot += w
        r = self.r.nextDouble() * tot
        for v, w in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][0]


class _Worker(Runnable):
    def __init__(self, pool):
        self.pool = pool
        self.sem = Semaphore(0)
        self.task = None

    def run(self):
        while True:
            self.sem.acquireUninterruptibly()
            task = self.task
            if task is None:
                return
            task._body()
            self.task = None
            sim = task.sim
            self.pool.append(self)
            sim.hub.release()


_pool = []
_labels = {}


def _worker():
    if _pool:
        return _pool.pop()
    w = _Worker(_pool)
    t = Thread(w)
    t.setDaemon(True)
    t.start()
    return w


def no_address(text):
    """addresses of objects are not part of a history"""
    return re.sub(r' at 0x[0-9a-f]+', '', text)


def text_of(e):
    try:
        return str(e)
    except Exception:
        return repr(e)


def origin():
    """the file in which the exception being handled was raised"""
    tb = sys.exc_info()[2]
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename or ''


class Task(object):
    __slots__ = ('sim', 'name', 'fn', 'args', 'kwargs', 'worker', 'done', 'exc', 'where',
                 'state', 'value', 'pending', 'waiting', 'tid', 'kills', 'group', 'watch', 'runs')

    def __init__(self, sim, name, fn, args, kwargs, group=None):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self.worker = None
        self.done = False
        self.exc = None
        self.where = ''
        self.state = 'new'
        self.value = None
        self.pending = None      # exception to raise when it next runs
        self.waiting = None
        self.kills = 0
        self.group = group
        self.tid = 0
        self.watch = None        # (deadline, turns since)
        self.runs = 0

    def _body(self):
        try:
            try:
                if self.pending is not None:
                    e, self.pending = self.pending, None
                    raise e
                self.fn(*self.args, **self.kwargs)
            except TaskKilled:
                pass
            except GreenletExit:
                pass
            except BaseException, e:
                self.exc = e
                self.where = origin()
                self.sim._task_failed(self, e)
            except Throwable, e:
                self.exc = e
                self.sim._task_failed(self, e)
        finally:
            self.done = True
            self.state = 'done'

    # a few things eventlet users call on a greenlet
    def __nonzero__(self):
        return not self.done


class Choices(object):
    """the labelled decisions of one run"""

    def __init__(self, seed, recorded=None):
        self.seed = mix(seed & M64)
        self.recorded = recorded
        self.log = {}                # 'label#occurrence' -> non-default value
        self.count = {}
        self.rngs = {}

    def _rng(self, label):
        lh = _labels.get(label)
        if lh is None:
            if len(_labels) > 20000:
                _labels.clear()
            lh = _labels[label] = label_hash(label)
        r = self.rngs[label] = SplittableRandom(jlong(mix(self.seed ^ lh)))
        return r

    def draw(self, label, n):
        """integer in [0, n); 0 is the default"""
        c = self.count.get(label, 0)
        self.count[label] = c + 1
        if self.recorded is not None:
            return self.recorded.get('%s#%d' % (label, c), 0) % n
        r = self.rngs.get(label)
        if r is None:
            r = self._rng(label)
        v = r.nextInt(n)
        if v:
            self.log['%s#%d' % (label, c)] = v
        return v

    def chance(self, label, p):
        """True with probability p; False is the default"""
        c = self.count.get(label, 0)
        self.count[label] = c + 1
        if self.recorded is not None:
            return bool(self.recorded.get('%s#%d' % (label, c), 0))
        if p <= 0:
            return False
        r = self.rngs.get(label)
        if r is None:
            r = self._rng(label)
        if r.nextDouble() < p:
            self.log['%s#%d' % (label, c)] = 1
            return True
        return False

    def pick(self, label, seq):
        return seq[self.draw(label, len(seq))]


class Sim(object):

    HANG_SECONDS = 60

    def __init__(self, choices, step=0.0005, sched=0.25):
        self.choices = choices
        self.step = step
        self.sched = sched           # how often the scheduler leaves FIFO order
        self.now = 1000000000.0
        self.t0 = self.now
        self.events = []
        self.seq = 0
        self.runnable = []
        self.tasks = []
        self.hub = Semaphore(0)
        self.current = None
        self.steps = 0
        self.switches = 0
        self.killing = False
        self.log = []                # (kind, time, ...) history of the run
        self.stats = {}
        self.failed_tasks = []
        self.aborted = None
        self.stop_requested = False
        self.on_step = None
        self.spawn_hook = None
        self.sched_hash = 0
        self.blocked = 0.0           # time during which nothing else could run
        self.clock_reads = 0
        self.world = None

    # ---- time and events -------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        heapq.heappush(self.events, (t, self.seq, fn, args))

    def after(self, d, fn, *args):
        self.at(self.now + d, fn, *args)

    def rel(self):
        return self.now - self.t0

    def stat(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def rec(self, kind, *data):
        self.log.append((kind, round(self.now - self.t0, 6)) + data)

    # ---- tasks -----------------------------------------------------------
    def spawn(self, name, fn, *args, **kwargs):
        t = Task(self, name, fn, args, kwargs)
        t.tid = len(self.tasks)
        self.tasks.append(t)
        t.state = 'ready'
        self.runnable.append(t)
        return t

    def _task_failed(self, task, e):
        self.failed_tasks.append((task, e))
        self.rec('task_failed', task.name, type(e).__name__, no_address(text_of(e))[:200])

    def _switch(self, task):
        self.current = task
        self.switches += 1
        self.clock_reads = 0
        task.runs += 1
        if task.watch is not None and self.now >= task.watch[0]:
            task.watch = (task.watch[0], task.watch[1] + 1)
        if task.worker is None:
            task.worker = _worker()
            task.worker.task = task
        task.state = 'running'
        task.worker.sem.release()
        if not self.hub.tryAcquire(self.HANG_SECONDS, TimeUnit.SECONDS):
            raise Hang(task.name)
        self.current = None
        if task.done:
            task.worker = None

    def _block(self):
        """give the baton back; returns when released again"""
        task = self.current
        if task is None:
            raise RuntimeError('simulated operation outside of a coroutine')
        if self.killing:
            task.kills += 1
            if task.kills > 20:
                # does not want to die: leave it parked for ever
                task.done = True
                task.state = 'parked'
                w = task.worker
                task.worker = None
                self.hub.release()
                Semaphore(0).acquireUninterruptibly()
            raise TaskKilled()
        w = task.worker
        self.hub.release()
        w.sem.acquireUninterruptibly()
        if self.killing:
            task.kills += 1
            raise TaskKilled()
        if task.pending is not None:
            e, task.pending = task.pending, None
            raise e

    def _ready(self, task, value=None):
        if task.done or task.state == 'ready':
            return
        task.state = 'ready'
        task.value = value
        self.runnable.append(task)

    def yield_(self):
        """let others run; resume at the current time"""
        task = self.current
        if task is not None and not self.killing:
            task.state = 'ready'
            self.runnable.append(task)
        self._block()

    def sleep(self, d):
        if d <= 0:
            return self.yield_()
        task = self.current
        if task is not None and not self.killing:
            task.state = 'blocked'
            token = task.waiting = object()
            self.after(d, self._wake_if, task, token, None)
        self._block()

    def _wake_if(self, task, token, value):
        if task.waiting is token and task.state == 'blocked':
            task.waiting = None
            self._ready(task, value)

    def wait(self, timeout=None):
        """block until wake(task) or the timeout; returns the value"""
        task = self.current
        if task is not None and not self.killing:
            task.state = 'blocked'
            task.value = None
            token = task.waiting = object()
            if timeout is not None:
                self.after(timeout, self._wake_if, task, token, 'timeout')
        self._block()
        return task.value

    def wake(self, task, value=None):
        if task.state == 'blocked':
            task.waiting = None
            self._ready(task, value)

    def throw(self, task, exc):
        if task.done:
            return
        task.pending = exc
        if task.state == 'blocked':
            task.waiting = None
            self._ready(task)

    def block_all(self, d):
        """the running coroutine holds up the whole process"""
        self.now += d
        self.blocked += d
        if self.world is not None:
            self.world.blocked_by = self.current

    # ---- main loop -------------------------------------------------------
    def run(self, until, max_steps=200000):
        """until: relative simulated seconds"""
        end = self.t0 + until
        ch = self.choices
        events, runnable = self.events, self.runnable
        while not self.stop_requested:
            while events and events[0][0] <= self.now:
                ev = heapq.heappop(events)
                ev[2](*ev[3])
            if runnable:
                if self.now >= end:
                    break
                n = len(runnable)
                i = 0
                if n > 1 and ch.chance('sched', self.sched):
                    i = ch.draw('schedi', n)
                task = runnable.pop(i)
                self.steps += 1
                if n > 1:
                    self.sched_hash = (self.sched_hash * 31 + task.tid + 1) & M64
                self.now += self.step
                self._switch(task)
                if self.steps >= max_steps:
                    self.aborted = 'steps'
                    break
            elif events:
                if events[0][0] > end:
                    self.now = end
                    break
                self.now = max(self.now, events[0][0])
            else:
                break

    def finish(self):
        """end every coroutine that is still alive"""
        self.killing = True
        for t in self.tasks:
            n = 0
            while not t.done and n < 60:
                if t.worker is None and t.state != 'parked':
                    t.done = True       # never started
                    break
                n += 1
                self._switch(t)
        self.runnable[:] = []
        self.events[:] = []


# the simulation the patched modules talk to
class _Ctx(object):
    sim = None
    net = None
    http = None
    real_time = None
    real_sleep = None

CTX = _Ctx()
