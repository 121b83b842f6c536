"""A deterministic thread scheduler owned by the harness.

Managed threads are real threads, but only the one holding the baton runs.  A
managed thread may be preempted before any source line of psygnal (sys.settrace),
at explicit ``point()`` calls, and whenever it would block on a lock.  Which
preemptions happen is data: a list of ``[steps, target]`` pairs meaning "after
that many further points, give the baton to the target-th other runnable thread".
When the list is used up, threads run until they finish or block.

``install()`` replaces ``threading.Lock`` and ``threading.RLock`` (before psygnal is
imported) by locks that hand the baton over instead of blocking; outside managed
threads they are ordinary locks.
"""
from __future__ import annotations

import _thread
import os
import sys
import threading

from harness.core import REPO, HarnessError, Violation

_SRC = os.path.join(os.path.abspath(REPO), "src", "psygnal") + os.sep
_current = None  # active Scheduler


class Deadlock(Violation):
    pass


class _Abort(BaseException):
    """Unwinds managed threads after the case has been decided."""


class _HybridLock:
    _make = staticmethod(_thread.allocate_lock)

    def __init__(self):
        self._real = self._make()
        if _current is not None:
            _current.point()  # creating a lock: lazily created shared state

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s.me() if s is not None else None
        if me is None or not blocking or timeout != -1:
            return self._real.acquire(blocking, timeout)
        s.point(before_lock=True)
        while not self._real.acquire(False):
            s.blocked(me)
        s.progress()
        return True

    __enter__ = acquire

    def release(self):
        self._real.release()
        s = _current
        if s is not None:
            s.progress()

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


class _HybridRLock(_HybridLock):
    _make = staticmethod(_thread.RLock)


class _HybridPlainLock(_HybridLock):
    def locked(self):
        return self._real.locked()


def install():
    if "psygnal" in sys.modules:
        raise HarnessError("psygnal was imported before the scheduler was installed")
    threading.RLock = _HybridRLock
    threading.Lock = _HybridPlainLock


class _T:
    __slots__ = ("i", "fn", "sem", "done", "stuck", "thread", "exc", "ident")

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.thread = None
        self.done = False
        self.stuck = False  # failed to get a lock since the last progress
        self.exc = None
        self.ident = None


class Scheduler:
    def __init__(self, fns, schedule, max_points=60000, trace=True):
        self.ts = [_T(i, f) for i, f in enumerate(fns)]
        self.schedule = [list(x) for x in schedule]
        self.left = self.schedule.pop(0) if self.schedule else None
        self.points = 0
        self.switches = 0
        self.max_points = max_points
        self.aborting = False
        self.failure = None
        self.trace = trace
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.by_ident = {}

    # -- called from managed threads ---------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self, before_lock=False):
        t = self.me()
        if t is None:
            return
        if self.aborting:
            raise _Abort
        self.points += 1
        if self.points > self.max_points:
            self.fail(Violation("no progress: the threads ran %d steps without finishing" % self.max_points))
        if self.left is None:
            return
        self.left[0] -= 1
        if self.left[0] > 0:
            return
        target = self.left[1]
        self.left = self.schedule.pop(0) if self.schedule else None
        others = [o for o in self.ts if not o.done and o is not t]
        if others:
            self.switch(t, others[target % len(others)])

    def give(self, target):
        """An additional preemption of the running thread, for the target-th other one."""
        t = self.me()
        if t is None or self.aborting:
            return self.point()
        others = [o for o in self.ts if not o.done and o is not t]
        if others:
            self.switch(t, others[target % len(others)])

    def blocked(self, t):
        if self.aborting:
            raise _Abort
        t.stuck = True
        cand = [o for o in self.ts if not o.done and not o.stuck]
        if not cand:
            self.fail(Deadlock("deadlock: every thread waits for a lock"))
        self.switch(t, cand[0])

    def progress(self):
        for o in self.ts:
            o.stuck = False

    def switch(self, t, o):
        self.switches += 1
        o.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise _Abort

    def fail(self, exc):
        self.failure = self.failure or exc
        self.aborting = True
        raise _Abort

    def _tracer(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(_SRC):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._local

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            if not self.aborting:
                if self.trace:
                    sys.settrace(self._tracer)
                try:
                    t.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            t.done = True
            self.by_ident.pop(t.ident, None)
            self.progress()
            nxt = [o for o in self.ts if not o.done]
            if nxt:
                nxt[0].sem.release()
            else:
                self.main.release()

    # -- called from the case ------------------------------------------------
    def make_threads(self):
        for t in self.ts:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
        return [t.thread for t in self.ts]

    def run(self):
        global _current
        if _current is not None:
            raise HarnessError("schedulers do not nest")
        _current = self
        for t in self.ts:
            if t.thread is None:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        try:
            while any(t.ident is None for t in self.ts):
                pass
            self.ts[0].sem.release()
            if not self.main.acquire(True, 15):
                self.aborting = True
                raise Violation("the threads did not finish (blocked outside of any known lock)")
            for t in self.ts:
                t.thread.join(20)
        finally:
            _current = None
        if self.failure is not None:
            raise self.failure
        return [t.exc for t in self.ts]
