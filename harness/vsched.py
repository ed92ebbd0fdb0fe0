"""Deterministic virtual scheduler: runs the library's threads one at a time and owns the clock.

threading.Thread/Event/Lock/RLock/Condition/Semaphore/Timer, queue.SimpleQueue and time.sleep/time/monotonic/perf_counter
are replaced before the library is imported.  Every virtual thread is a real thread that runs only while it holds the
baton.  A thread gives the baton back when it blocks, and may be made to give it back ("preempted") at every primitive
operation, every port operation and - if the scenario asks for it - at every line or bytecode of the library.
Virtual time advances only when nothing can run, so outcomes depend on the schedule alone.
"""
import _thread, heapq, os, random, sys, threading, time, queue, traceback

REAL = {k: getattr(time, k) for k in ("sleep", "time", "monotonic", "perf_counter")}
REAL_THREADING = {k: getattr(threading, k) for k in ("Thread", "Event", "Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore", "Timer",
                                                     "current_thread", "get_ident")}


class Kill(BaseException):
    """ends a virtual thread when its scenario is over"""


class Step(BaseException):
    pass


S = None          # the scheduler of the running scenario


class VT(object):
    """what the scheduler knows about one thread"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.pred = None          # None: runnable; else a function
        self.deadline = None
        self.timedout = False
        self.done = False
        self.dead = False         # killed
        self.obj = None
        self.prio = 0
        self.what = ""


class Sched(object):
    def __init__(self, seed=0, strategy="random", p=0.3, trace=None, trace_p=0.05, max_steps=400000, depth=3, horizon=4000):
        self.rnd = random.Random(seed)
        self.strategy, self.p, self.trace, self.trace_p = strategy, p, trace, trace_p
        self.now = 1000.0
        self.timers, self.tseq = [], 0
        self.threads = []
        self.cur = None
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.crashes = []
        self.steps = 0
        self.max_steps = max_steps
        self.deadlock = []
        self.over = False
        self.idle_hooks = []
        self.idents = {}
        self.nthreads = 0
        self.count = 0
        # priority strategy: change points at which the running thread drops to the lowest priority
        self.change = set(self.rnd.randint(1, horizon) for _ in range(depth)) if strategy == "pct" else set()

    # -- threads ------------------------------------------------------------
    def spawn(self, name, fn, obj=None):
        vt = VT(name, fn)
        vt.obj = obj
        vt.prio = self.rnd.random()
        self.threads.append(vt)
        self.nthreads += 1

        def boot():
            vt.go.acquire()
            self.idents[_thread.get_ident()] = vt
            vt.ident = _thread.get_ident()
            if self.trace:
                sys.settrace(self._tracer)
            try:
                if self.over:
                    raise Kill()
                fn()
            except Kill:
                vt.dead = True
            except SystemExit:
                pass
            except BaseException as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                fr = [f for f in tb if "/gsmmodem/" in f.filename or "/tools/" in f.filename]
                self.crashes.append((vt.name, type(e).__name__, "%s:%s" % (fr[-1].name, str(e)[:80]) if fr else "driver:" + str(e)[:200]))
                if os.environ.get("VERIF_TB"):
                    traceback.print_exc()
            finally:
                sys.settrace(None)
                vt.done = True
                self.back.release()
        _thread.start_new_thread(boot, ())
        return vt

    def me(self):
        return self.cur

    def on(self):
        """is the caller a virtual thread of this scenario holding the baton?"""
        return self.cur is not None and getattr(self.cur, "ident", None) == _thread.get_ident()

    def _switch(self):
        vt = self.cur
        self.back.release()
        vt.go.acquire()
        if self.over:
            raise Kill()

    def point(self, force=False):
        """a place where the running thread may be preempted"""
        if not self.on():
            return
        if self.over:
            raise Kill()
        self.count += 1
        if self.strategy == "pct":
            if self.count in self.change:
                self.cur.prio = -self.count
                self._switch()
        elif force or self.rnd.random() < self.p:
            self._switch()

    def block(self, pred, timeout=None, what=""):
        """wait until pred() holds (True) or the timeout has passed (False)"""
        vt = self.cur
        if self.over:
            raise Kill()
        if timeout is not None and timeout < 0:
            timeout = 0
        vt.pred, vt.what = pred, what
        vt.deadline = None if timeout is None else self.now + timeout
        vt.timedout = False
        self._switch()
        return not vt.timedout

    def call_at(self, delay, fn):
        self.tseq += 1
        e = [self.now + max(delay, 0), self.tseq, fn]
        heapq.heappush(self.timers, e)
        return e

    # -- tracing --------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/gsmmodem/" not in fn:
            return None
        if self.trace == "opcode":
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event in ("line", "opcode") and not self.over:
            if self.strategy == "pct":
                self.point()
            elif self.rnd.random() < self.trace_p:
                self.point(force=True)
        return self._local

    # -- controller -------------------------------------------------------------
    def _runnable(self):
        r = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None:
                r.append(t)
            elif t.pred():
                r.append(t)
            elif t.deadline is not None and t.deadline <= self.now + 1e-9:
                r.append(t)
        return r

    def _resume(self, t):
        if t.pred is not None:
            t.timedout = not t.pred()
            t.pred = None
            t.deadline = None
        self.cur = t
        t.go.release()
        self.back.acquire()
        self.cur = None

    def run(self, main, until=None):
        """run the main function as a virtual thread until it is done and nothing is left to happen"""
        global S
        S = self
        root = self.spawn("main", main)
        try:
            while True:
                if root.done:
                    break
                r = self._runnable()
                if r:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        self.deadlock.append(("livelock", self.steps))
                        break
                    if self.strategy == "pct":
                        t = max(r, key=lambda x: x.prio)
                    else:
                        t = r[0] if len(r) == 1 else self.rnd.choice(r)
                    self._resume(t)
                    continue
                nxt = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
                if self.timers:
                    nxt.append(self.timers[0][0])
                if not nxt:
                    self.deadlock.append(("deadlock", [(t.name, t.what) for t in self.threads if not t.done]))
                    break
                for h in self.idle_hooks:
                    h(max(self.now, min(nxt)))
                self.now = max(self.now, min(nxt))
                # device first: what arrives at the very moment of a deadline may or may not make it
                due = []
                while self.timers and self.timers[0][0] <= self.now + 1e-9:
                    due.append(heapq.heappop(self.timers))
                for e in due:
                    if e[2] is not None:
                        e[2]()
        finally:
            self.leftover = [t for t in self.threads if not t.done and t is not root]
            self.kill()

    def kill(self):
        self.over = True
        for _ in range(3):
            for t in list(self.threads):
                if not t.done:
                    t.pred = None
                    self.cur = t
                    t.go.release()
                    self.back.acquire()
                    self.cur = None


# -- replacements ---------------------------------------------------------------
def _sched():
    return S


class VThread(object):
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        VThread._n += 1
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name = name or "Thread-%d" % VThread._n
        self.daemon = bool(daemon)
        self._vt = None
        self._started = False

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        s = S
        self._vt = s.spawn(self.name, self.run, self)
        s.point()

    def run(self):
        try:
            if self._target:
                self._target(*self._args, **self._kwargs)
        finally:
            self._target = self._args = self._kwargs = None

    def is_alive(self):
        return self._started and not self._vt.done

    isAlive = is_alive

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        s = S
        if s.on() and s.cur is self._vt:
            raise RuntimeError("cannot join current thread")
        vt = self._vt
        if not vt.done:
            s.block(lambda: vt.done, timeout, "join " + self.name)

    @property
    def ident(self):
        return getattr(self._vt, "ident", None) if self._vt else None

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon


class _Main(object):
    name, daemon, ident = "MainThread", False, 0

    def is_alive(self):
        return True

    def getName(self):
        return self.name


_main = _Main()


def current_thread():
    if S is not None and S.on() and S.cur.obj is not None:
        return S.cur.obj
    return _main


def get_ident():
    return id(S.cur) if S is not None and S.on() else 0


class VLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0
        self.waits = 0

    def _self(self):
        return S.cur if S is not None and S.on() else _main

    def acquire(self, blocking=True, timeout=-1):
        me = self._self()
        if S is not None and S.on():
            S.point()
        if self._owner is not None:
            if not blocking:
                return False
            if me is _main:
                raise RuntimeError("lock held outside the scheduler")
            if not S.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, "lock"):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        self._count = 0
        if S is not None and S.on() and not S.over:
            S.point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._self()

    def _release_save(self):
        c = self._count
        self._owner, self._count = None, 0
        return c

    def _acquire_restore(self, c):
        me = self._self()
        if self._owner is not None:
            S.block(lambda: self._owner is None, None, "relock")
        self._owner, self._count = me, c


class VRLock(VLock):
    def acquire(self, blocking=True, timeout=-1):
        if self._owner is not None and self._owner is self._self():
            self._count += 1
            return True
        return VLock.acquire(self, blocking, timeout)

    def release(self):
        if self._owner is not self._self():
            if S is not None and S.over:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if S is not None and S.on() and not S.over:
                S.point()


class VCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else VRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self._lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        w = [False]
        self._waiters.append(w)
        c = self._lock._release_save()
        try:
            ok = S.block(lambda: w[0], timeout, "condition")
        finally:
            if w in self._waiters:
                self._waiters.remove(w)
            if not S.over:
                self._lock._acquire_restore(c)
            else:
                self._lock._owner, self._lock._count = S.cur, c
        return ok

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else S.now + timeout
        r = pred()
        while not r:
            left = None if end is None else end - S.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = pred()
        return r

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self._waiters[:n]:
            w[0] = True
            self._waiters.remove(w)

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class VEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        if S is not None and S.on():
            S.point()
        return self._flag

    isSet = is_set

    def set(self):
        if S is not None and S.on():
            S.point()
        self._flag = True
        if S is not None and S.on():
            S.point()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if S is None or not S.on():
            return self._flag
        S.point()
        if self._flag:
            return True
        S.block(lambda: self._flag, timeout, "event")
        return self._flag


class VSemaphore(object):
    def __init__(self, value=1):
        self._value = value
        self._max = None

    def acquire(self, blocking=True, timeout=None):
        S.point()
        if self._value <= 0:
            if not blocking or not S.block(lambda: self._value > 0, timeout, "semaphore"):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        if self._max is not None and self._value + n > self._max:
            raise ValueError("Semaphore released too many times")
        self._value += n
        S.point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class VBoundedSemaphore(VSemaphore):
    def __init__(self, value=1):
        VSemaphore.__init__(self, value)
        self._max = value


class VTimer(VThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        VThread.__init__(self)
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = VEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class VSimpleQueue(object):
    def __init__(self):
        self._q = []

    def put(self, item, block=True, timeout=None):
        self._q.append(item)
        if S is not None and S.on():
            S.point()

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not self._q:
            if not block or not S.block(lambda: bool(self._q), timeout, "queue"):
                raise queue.Empty
        return self._q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


def vsleep(d):
    if S is None or not S.on():
        return
    S.block(lambda: False, d, "sleep")


def vnow():
    return S.now if S is not None else 0.0


def install():
    threading.Thread, threading.Event, threading.Lock, threading.RLock = VThread, VEvent, VLock, VRLock
    threading.Condition, threading.Semaphore, threading.BoundedSemaphore = VCondition, VSemaphore, VBoundedSemaphore
    threading.Timer, threading.current_thread, threading.currentThread = VTimer, current_thread, current_thread
    threading.get_ident = get_ident
    queue.SimpleQueue = VSimpleQueue
    queue.time = vnow
    time.sleep, time.time, time.monotonic, time.perf_counter = vsleep, vnow, vnow, vnow
