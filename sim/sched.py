'''Seeded scheduler: real threads, parked and released one at a time.'''
import _thread
import sys
import threading
import time
from _thread import get_ident

import monitor

RawLock = _thread.allocate_lock
_real_start = _thread.start_new_thread
# Threads the code under test has started and which are not finished, between
# one scheduler and the next: [lock it is parked on, ident, state, pred]
leftover = []
_real_sleep = time.sleep


class Hang(Exception):
    '''No thread can run, or a run exceeded its step budget.'''


class Sched(object):
    '''Decides which thread runs between any two events.

    A schedule is a list of segments (thread, events).  `policy` yields them;
    the ones actually executed are recorded in `trace`.  When a thread ends or
    blocks before its segment does, the next segment starts there.
    '''

    def __init__(self, bodies, policy, budget=2000000, on_hang=None, setup=None):
        self.bodies = bodies
        self.n = self.own = len(bodies)     # beyond `own`: threads started by the code itself
        self.policy = policy
        self.locks = [RawLock() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.main_lock = RawLock()
        self.main_lock.acquire()
        self.state = ['ready'] * self.n     # ready, blocked, done
        self.preds = [None] * self.n
        self.idents = [None] * self.n
        self.cur = -1
        self.cur_ident = None
        self.left = 0
        self.done_in_seg = 0
        self.trace = []
        self.steps = 0
        self.budget = budget
        self.switches = 0
        self.on_hang = on_hang
        self.setup = setup
        self.sealed = False

    # -- called from monitoring callbacks, in the running simulated thread --
    def event(self, ident):
        if ident != self.cur_ident:
            return
        self.done_in_seg += 1
        self.left -= 1
        if self.left <= 0:
            self._reschedule()

    def _runnable(self, i):
        if self.state[i] == 'ready':
            return True
        if self.state[i] == 'blocked' and self.preds[i]():
            self.state[i] = 'ready'
            self.preds[i] = None
            return True
        return False

    def _pick(self):
        '''Next thread to run and the length of its segment.'''
        run = [i for i in range(self.n) if self._runnable(i)]
        if not run:
            return None
        tid, length = self.policy.next(run, self.cur)
        if tid not in run:
            tid = run[0] if self.cur not in run else self.cur
        self.left = length
        return tid

    def _close_segment(self, early=0):
        '''`early`: the segment ends because the thread blocked or finished
        after its last event; recorded one event longer, so that a replay does
        not stop the thread at that event instead.'''
        if self.cur >= 0 and (self.done_in_seg or early or not self.trace or self.trace[-1][0] != self.cur):
            if self.trace and self.trace[-1][0] == self.cur and not self.sealed:
                self.trace[-1][1] += self.done_in_seg + early
            else:
                self.trace.append([self.cur, self.done_in_seg + early])
        self.sealed = bool(early)
        self.steps += self.done_in_seg
        self.done_in_seg = 0
        if self.steps > self.budget:
            self._hang('step budget of %d exceeded' % self.budget)

    def _hang(self, why):
        if self.on_hang:
            self.on_hang(why)
        raise Hang(why)

    def _reschedule(self):
        me = self.cur
        self._close_segment()
        nxt = self._pick()
        if nxt is None:
            self._hang('deadlock: every thread is blocked')
        if nxt != me:
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.switches += 1
        self.cur = nxt
        self.cur_ident = self.idents[nxt]
        self.locks[nxt].release()
        self.locks[me].acquire()

    def block(self, pred):
        '''Park the calling simulated thread until pred() holds.'''
        me = self.cur
        self._close_segment(1)
        self.state[me] = 'blocked'
        self.preds[me] = pred
        nxt = self._pick()
        if nxt is None:
            self._hang('deadlock: every thread is blocked')
        if nxt != me:
            self._switch(me, nxt)

    def yield_now(self):
        self.left = 0
        self._reschedule()

    def is_sim_thread(self):
        return get_ident() == self.cur_ident

    # -- thread bodies --
    def _run(self, i):
        self.locks[i].acquire()
        if self.setup:
            self.setup(i)
        try:
            self.bodies[i]()
        finally:
            self._done(i)

    def _done(self, i):
        self.state[i] = 'done'
        self._close_segment(1)
        if all(s == 'done' for s in self.state[:self.own]):
            # what the code itself has started may stay
            leftover[:] = [x for x in zip(self.locks, self.idents, self.state, self.preds)][self.own:]
            leftover[:] = [x for x in leftover if x[2] != 'done']
            self.cur_ident = None
            self.main_lock.release()
            return
        nxt = self._pick()
        if nxt is None:
            self._hang('deadlock: every remaining thread is blocked')
        self.cur = nxt
        self.cur_ident = self.idents[nxt]
        self.locks[nxt].release()

    def _add(self, lock, ident, state, pred):
        self.locks.append(lock)
        self.idents.append(ident)
        self.state.append(state)
        self.preds.append(pred)
        self.n += 1

    def spawn(self, fn, args, kwargs):
        '''A thread started by the code under test: one more to schedule.'''
        lock = RawLock()
        lock.acquire()

        def body():
            lock.acquire()
            if self.setup:
                self.setup(None)
            try:
                fn(*args, **kwargs)
            except SystemExit:
                pass
            finally:
                s, me = monitor.sched, get_ident()
                s._done(max(i for i in range(s.n) if s.idents[i] == me))
        ident = _real_start(body, ())
        self._add(lock, ident, 'ready', None)
        return ident

    def run(self):
        for i in range(self.own):
            self.idents[i] = _real_start(self._run, (i,))
        for x in leftover:
            self._add(*x)
        del leftover[:]
        monitor.sched = self
        first = self._pick()
        self.cur = first
        self.cur_ident = self.idents[first]
        self.locks[first].release()
        self.main_lock.acquire()
        monitor.sched = None
        return self.trace


# ---------------------------------------------------------------------------
# policies

BIG = 1 << 60


class RandomPolicy(object):
    '''Switch after a random number of events (mean `mean`), to any thread.'''
    def __init__(self, rng, mean):
        self.rng, self.mean = rng, mean

    def next(self, run, cur):
        length = 1 + int(self.rng.expovariate(1.0 / self.mean)) if self.mean > 1 else 1
        others = [i for i in run if i != cur] or run
        return self.rng.choice(others), length


class PreemptPolicy(object):
    '''Run one thread for k events, then the others to their end, then it.'''
    def __init__(self, rng, points):
        self.rng = rng
        self.points = list(points)      # [(tid, events)]
        self.parked = []

    def next(self, run, cur):
        while self.points:
            tid, n = self.points.pop(0)
            if tid in run:
                self.parked.append(tid)
                return tid, n
        rest = [i for i in run if i not in self.parked]
        if rest:
            return self.rng.choice(rest), BIG
        for tid in reversed(self.parked):
            if tid in run:
                return tid, BIG
        return run[0], BIG


class SegmentPolicy(object):
    '''Follow a recorded schedule, then run whatever is left in order.'''
    def __init__(self, segments):
        self.segs = [list(s) for s in segments]

    def next(self, run, cur):
        while self.segs:
            tid, n = self.segs.pop(0)
            if n is None or n >= BIG:
                n = BIG
            if tid in run and n > 0:
                return tid, n
        return run[0], BIG


def make_policy(spec, rng):
    kind = spec['kind']
    if kind == 'random':
        return RandomPolicy(rng, spec['mean'])
    if kind == 'preempt':
        return PreemptPolicy(rng, [tuple(p) for p in spec['points']])
    if kind == 'segments':
        return SegmentPolicy(spec['segments'])
    raise ValueError(kind)


# ---------------------------------------------------------------------------
# locks created by blmath (or by anything after the seam is installed)

def _current():
    s = monitor.sched
    if s is not None and get_ident() == s.cur_ident:
        return s
    return None


class SimLock(object):
    def __init__(self):
        self._l = RawLock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = _current()
        if s is None:
            return self._l.acquire(True, timeout)
        if timeout is not None and timeout >= 0:
            s.yield_now()               # simulated time passes
            return self._l.acquire(False)
        while not self._l.acquire(False):
            s.block(lambda: not self._l.locked())
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = RawLock()


class SimRLock(object):
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()
        self._owner, self._count = None, 0


def sim_sleep(seconds):
    s = _current()
    if s is None:
        return _real_sleep(seconds)
    s.yield_now()


def _module_lock_acquire(self):
    '''importlib._bootstrap._ModuleLock.acquire (3.12), but a contended wait
    gives way to another simulated thread instead of blocking for real.'''
    import importlib._bootstrap as b
    tid = get_ident()
    s = _current()
    if s is None:
        return _orig_module_acquire(self)
    with b._BlockingOnManager(tid, self):
        while True:
            with self.lock:
                if self.count == [] or self.owner == tid:
                    self.owner = tid
                    self.count.append(True)
                    return True
                if self.has_deadlock():
                    raise b._DeadlockError('deadlock detected by %r' % self)
            s.block(lambda: self.count == [])


_orig_module_acquire = None


def sim_start(fn, args=(), kwargs=None):
    s = _current()
    if s is None:
        return _real_start(fn, args, kwargs or {})
    return s.spawn(fn, args, kwargs or {})


def _join(self, block=True, timeout=-1):
    '''threading.Thread._wait_for_tstate_lock (3.12), giving way meanwhile.'''
    s = _current()
    at = [i for i in range(s.n) if s.idents[i] == self._ident] if s is not None and block and self._tstate_lock is not None else None
    if at:
        if timeout is not None and timeout >= 0:
            s.yield_now()
        elif s.state[at[-1]] != 'done':
            s.block(lambda: s.state[at[-1]] == 'done')
        if s.state[at[-1]] != 'done':
            return
        block, timeout = True, -1
    return _orig_join(self, block, timeout)


_orig_join = None


def install():
    global _orig_module_acquire
    import importlib._bootstrap as b
    threading.Lock = SimLock
    threading._allocate_lock = SimLock      # what conditions, events and semaphores wait on
    threading.RLock = SimRLock
    _thread.start_new_thread = _thread.start_new = threading._start_new_thread = sim_start
    global _orig_join
    _orig_join = threading.Thread._wait_for_tstate_lock
    threading.Thread._wait_for_tstate_lock = _join
    import queue
    queue.SimpleQueue = queue._PySimpleQueue        # the other one waits in C
    if 'concurrent.futures.thread' in sys.modules:
        sys.modules['concurrent.futures.thread']._global_shutdown_lock = SimLock()
    time.sleep = sim_sleep
    _orig_module_acquire = b._ModuleLock.acquire
    b._ModuleLock.acquire = _module_lock_acquire
