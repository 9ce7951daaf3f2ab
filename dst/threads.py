"""Deterministic threads, fault points and simulated locks.

Real threads, one running at a time.  Switch points are trace events (line or bytecode) of frames belonging to the
package under test, explicit points in the operations, and simulated locks.  Who runs next is read from the plan.
"""
import contextlib
import sys
import zlib
import threading
import _thread

PKG = "conjugate"
_real_lock = _thread.allocate_lock
_current = threading.local()


def in_package(frame):
    n = frame.f_globals.get("__name__")
    return type(n) is str and (n == PKG or n.startswith(PKG + "."))


class Deadlock(Exception):
    pass


class SimLock:
    """Lock/RLock replacement: blocking is visible to the simulator; outside of it a plain re-entrant counter."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._real = threading.RLock() if reentrant else _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = getattr(_current, "sim", None)
        if sim is None:
            return self._real.acquire(blocking, timeout)
        me = _current.tid
        if self._reentrant and self._owner == ("sim", me):
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False  # simulated time-out
            sim.block(me, self)
        self._owner = ("sim", me)
        self._count = 1
        return True

    def release(self):
        sim = getattr(_current, "sim", None)
        if sim is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._real.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        if self._owner is not None:
            return self._owner == ("sim", getattr(_current, "tid", None))
        return False


@contextlib.contextmanager
def simulated_locks():
    """While importing the package: module level locks it may create become visible to the simulator."""
    L, R = threading.Lock, threading.RLock
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)
    try:
        yield
    finally:
        threading.Lock, threading.RLock = L, R


class Faults:
    """Single threaded fault point: raise exc at the n-th trace event inside the package.

    mode 'line' or 'opcode'.  With `fresh` only the first visit of each place of the code counts, so that places after a
    long loop are reached as easily as those before it.  Use as a context manager around one call.
    """

    def __init__(self, at=None, exc=None, opcodes=False, on_point=None, fresh=False):
        self.at, self.exc, self.opcodes, self.on_point = at, exc, opcodes, on_point
        self.visited = set() if fresh else None
        self.n = 0
        self.fired = False
        self.where = None

    def _local(self, frame, event, arg):
        if self.opcodes:
            frame.f_trace_opcodes = True
        if event == ("opcode" if self.opcodes else "line"):
            if self.visited is not None:
                at = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
                if at in self.visited:
                    return self._local
                self.visited.add(at)
            self.n += 1
            if self.on_point is not None:
                self.on_point(self.n)
            if self.at is not None and self.n == self.at and not self.fired:
                self.fired = True
                self.where = f"{frame.f_code.co_name}"
                raise self.exc
        return self._local

    def _global(self, frame, event, arg):
        if in_package(frame):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Sim:
    """Run tasks (callables taking the sim) as threads; `schedule` is a list of [gap, pick].

    The current thread runs for `gap` events, then thread `pick` (modulo the runnable ones) runs.  When the schedule is
    exhausted threads run to completion in order.

    `places` is the other way to decide: every place of the package's code (function and line or bytecode offset) a thread
    comes to for the first few times pre-empts it with the same probability, however short-lived the function is next to the
    loops around it.  {"salt", "rate", "only": thread or None, "same": all threads pre-empted at the same places,
    "keep": which of the candidates are taken (None: all)}; a pure function of the plan and the code.
    """

    MAX_EVENTS = 400_000

    def __init__(self, ctx, schedule, opcodes=False, places=None):
        self.ctx = ctx
        self.places = places
        self.seen = {}
        self.candidates = 0
        self.schedule = schedule
        self.pos = 0
        self.opcodes = opcodes
        self.left = schedule[0][0] if schedule else None
        self.events = 0
        self.switches = 0
        self.switch_in_call = 0
        self.done = []
        self.sems = []
        self.blocked = {}
        self.errors = []
        self.over = None
        self.depth = []
        self.on_switch = None

    # -- called on the running thread
    def event(self, tid, inside, frame=None):
        self.events += 1
        if self.events > self.MAX_EVENTS:
            raise Deadlock("step budget exceeded")
        if self.places is not None:
            if frame is not None:
                self.place(tid, frame)
            return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        pick = self.schedule[self.pos][1]
        self.pos += 1
        self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
        self.switch(tid, pick, inside)

    def place(self, tid, frame):
        pl = self.places
        if pl["only"] is not None and pl["only"] % len(self.sems) != tid:
            return
        code = frame.f_code
        at = frame.f_lasti if self.opcodes else frame.f_lineno - code.co_firstlineno
        key = (tid, code, at)
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if n > 2:
            return
        name = f"{pl['salt']}:{0 if pl['same'] else tid}:{code.co_filename.rpartition('/')[2]}:{code.co_qualname}:{at}:{n}"
        h = zlib.crc32(name.encode())
        if h % 100003 >= pl["rate"] * 100003:
            return
        self.candidates += 1
        if pl["keep"] is not None and self.candidates not in pl["keep"]:
            return
        others = [t for t in self.runnable() if t != tid]
        if others:
            self.switch(tid, self.runnable().index(others[(h // 100003) % len(others)]), True)

    def runnable(self, me=None):
        return [t for t in range(len(self.sems)) if not self.done[t] and not (t in self.blocked and self.blocked[t]._owner is not None)]

    def switch(self, tid, pick, inside):
        r = self.runnable()
        nxt = r[pick % len(r)]
        if nxt == tid:
            return
        self.switches += 1
        if inside:
            self.switch_in_call += 1
        self.ctx.log("switch", tid, nxt, self.events)
        if self.on_switch and self.switches <= 12:
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                self.on_switch()
            finally:
                sys.settrace(tr)
        self.transfer(tid, nxt)

    def transfer(self, tid, nxt):
        self.sems[nxt].release()
        self.sems[tid].acquire()

    def block(self, tid, lock):
        self.blocked[tid] = lock
        r = [t for t in self.runnable() if t != tid]
        if lock._owner is None:
            del self.blocked[tid]
            return
        if not r:
            del self.blocked[tid]
            raise Deadlock("all threads are blocked on locks")
        self.ctx.hit("blocked-on-lock")
        self.transfer(tid, r[0])
        self.blocked.pop(tid, None)

    def point(self):
        """Explicit switch point of an operation (between two calls into the library)."""
        tid = getattr(_current, "tid", None)
        if tid is not None:
            self.event(tid, False)

    # -- tracing
    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.event(_current.tid, True, frame)
        return self._local

    def _global(self, frame, event, arg):
        if in_package(frame):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def run(self, tasks):
        n = len(tasks)
        self.sems = [_thread_semaphore() for _ in range(n)]
        self.done = [False] * n
        self.over = _thread_semaphore()

        def body(tid):
            _current.sim, _current.tid = self, tid
            self.sems[tid].acquire()
            try:
                sys.settrace(self._global)
                try:
                    tasks[tid](self)
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa
                self.errors.append((tid, e))
            self.done[tid] = True
            r = self.runnable()
            if r:
                self.sems[r[0]].release()
            elif all(self.done):
                self.over.release()
            else:
                self.errors.append((tid, Deadlock("remaining threads are blocked on locks")))
                self.over.release()

        L, R = threading.Lock, threading.RLock
        ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t in ts:
            t.start()
        threading.Lock = lambda: SimLock(False)
        threading.RLock = lambda: SimLock(True)
        try:
            self.sems[0].release()
            self.over.acquire()
        finally:
            threading.Lock, threading.RLock = L, R
        if all(self.done):
            for t in ts:
                t.join()
        return self


class _thread_semaphore:
    """A binary semaphore made of one raw lock (never a SimLock)."""

    def __init__(self):
        self._l = _real_lock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        self._l.release()
