"""C27: the Qt timer delivers queued calls on its thread, while it is started."""
from __future__ import annotations

import gc
import os
import sys
import threading
import time
import weakref

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C27"
RULE = (
    "A case is a history of start_emitting_from_queue (intervals 0-3 ms and one that never passes, timer types, repeated starts), "
    "stop_emitting_from_queue (also repeated, and from inside a callback), emissions from the Qt thread and from a "
    "worker thread to queued callbacks (some failing, some emitting or stopping the timer), and runs of the event "
    "loop. Oracle: a FIFO of queued calls that must be delivered exactly by the runs of the event loop while a timer "
    "is started (or by emit_queued), on the main or another thread; the active timer has the interval and type asked for last. Non-trivial: queued calls are pending when the timer is stopped or started again."
)
ASSUMPTIONS = ["the offscreen/core Qt event loop of the installed PyQt; a delivery that takes longer than 10 s counts "
               "as missing"]
QUICK, THOROUGH = 500, 8000
QUICK_S = 12
LONG = 600000  # an interval that never passes


def strategy(tier):
    op = st.one_of(
        st.tuples(st.just("start"), st.sampled_from([0, 0, 0, 1, 3, LONG]), st.integers(0, 2), st.sampled_from([None, None, "me"])).map(list),
        st.just(["stop"]), st.just(["stop", "me"]), st.just(["stop", "other"]),
        st.tuples(st.just("emit"), st.sampled_from(["worker", "worker", "here"]), st.integers(1, 3)).map(list),
        st.tuples(st.just("emit"), st.sampled_from(["worker", "worker", "here"]), st.integers(1, 3)).map(list),
        st.just(["run"]), st.just(["run"]),
        st.just(["drain"]),
    )
    return st.fixed_dictionaries({
        "worker": st.sampled_from([False, False, False, False, True]),  # another thread than the main one
        # what the callbacks do at their k-th call
        "cbs": st.lists(st.lists(st.sampled_from([None, None, None, "raise", "emit", "stop", "start"]), max_size=3),
                        min_size=1, max_size=3),
        "prio": st.lists(st.sampled_from([0, 0, 1, -1]), min_size=3, max_size=3),
        "ops": st.lists(op, min_size=3, max_size=12 if tier == "quick" else 25),
    })


_APP = []


def run_case(case, ctx):
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from qtpy.QtCore import QCoreApplication

    if not _APP:
        _APP.append(QCoreApplication.instance() or QCoreApplication([]))
    if not case.get("worker"):
        return _run(case, ctx)
    ctx.label("worker")
    out = []

    def body():
        try:
            from qtpy.QtCore import QEventLoop

            loop = QEventLoop()  # (gives the thread its dispatcher)
            loop.processEvents()
            _run(case, ctx)
        except BaseException as e:  # noqa: BLE001
            out.append(e)

    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(120)
    check(not t.is_alive(), "the event loop of a worker thread did not return")
    if out:
        raise out[0]


_SEEN = []


def _timers(cls):
    """The active timers of this thread, as (interval, type)."""
    from qtpy.QtCore import QThread

    here = QThread.currentThread()
    out = []
    for r in _SEEN:
        try:
            t = r()
            if t is not None and t.thread() is here and t.isActive():
                out.append((t.interval(), t.timerType()))
        except RuntimeError:  # deleted
            pass
    return out


def _find_timers(cls):
    _SEEN[:] = [weakref.ref(o) for o in gc.get_objects() if issubclass(type(o), cls)]


def _run(case, ctx):
    from psygnal import EmitLoopError, SignalInstance, emit_queued
    from psygnal.qt import start_emitting_from_queue, stop_emitting_from_queue
    from qtpy.QtCore import QEventLoop, Qt, QTimer

    me = threading.current_thread()
    other = threading.Thread()
    types = [Qt.TimerType.PreciseTimer, Qt.TimerType.CoarseTimer, Qt.TimerType.VeryCoarseTimer]
    sig, sig2 = SignalInstance((int,)), SignalInstance((int,))
    log = []
    n = len(case["cbs"])
    calls = [0] * n
    mcalls = [0] * n
    errors = []
    merrors = [0]
    active = [False]  # model: timer is started
    interval = [0]
    queue = []  # model: [(callback, value)]
    val = [0]
    nested = [0]

    order = sorted(range(n), key=lambda i: -case["prio"][i])

    class Boom(Exception):
        pass

    def act(i, k):
        s = case["cbs"][i]
        return s[k] if k < len(s) else None

    def make(i):
        def cb(v):
            log.append((i, v, threading.current_thread() is me))
            k = calls[i]
            calls[i] += 1
            a = act(i, k)
            if a == "emit":
                # (an emission of the same signal would wait for the running one)
                t = threading.Thread(target=sig2.emit, args=(v + 1000,))
                t.start()
                t.join()
            elif a == "stop":
                stop_emitting_from_queue()
            elif a == "start":
                start_emitting_from_queue(0)
            elif a == "raise":
                raise Boom
        return cb

    cbs = [make(i) for i in range(n)]
    for i, c in enumerate(cbs):
        sig.connect(c, thread=me, priority=case["prio"][i])
        sig2.connect(c, thread=me, priority=case["prio"][i])

    def model_call(i, v, want):
        """Model of one callback's call; returns True if it fails."""
        want.append((i, v, True))
        k = mcalls[i]
        mcalls[i] += 1
        a = act(i, k)
        if a == "emit":
            queue.extend((j, v + 1000) for j in order)
        elif a == "stop":
            active[0] = False
        elif a == "start":
            active[0] = True
            interval[0] = 0
        return a == "raise"

    def model_run(want):
        """Model of event loop runs until nothing happens anymore."""
        n_err = 0
        while active[0] and interval[0] != LONG and queue:
            while queue:  # one timeout: emit_queued, to the end or the first failure
                if model_call(*queue.pop(0), want):
                    n_err += 1
                    break
        return n_err

    def spin():
        loop = QEventLoop()
        loop.processEvents()

    old_hook = sys.excepthook
    sys.excepthook = lambda t, v, tb: errors.append(v)
    try:
        for op in case["ops"]:
            log.clear()
            errors.clear()
            if op[0] == "start":
                if queue:
                    ctx.nontrivial()
                who = {"thread": me} if op[3:] == ["me"] else {}
                start_emitting_from_queue(op[1], timer_type=types[op[2]], **who)
                active[0] = True
                if (op[1], types[op[2]]) not in _timers(QTimer):
                    _find_timers(QTimer)  # (slow)
                    if _SEEN:
                        check((op[1], types[op[2]]) in _timers(QTimer), "%s: no such timer, but %s", op, _timers(QTimer))
                interval[0] = op[1]
                if op[1] == LONG:
                    ctx.label("long")
                eq(log, [], "calls made by start_emitting_from_queue")
            elif op[0] == "stop":
                if queue:
                    ctx.nontrivial()
                if len(op) < 2:
                    stop_emitting_from_queue()
                else:
                    stop_emitting_from_queue(thread=me if op[1] == "me" else other)
                if op[1:] != ["other"]:
                    active[0] = False
                eq(log, [], "calls made by stop_emitting_from_queue")
            elif op[0] == "emit":
                for _ in range(op[2]):
                    val[0] += 1
                    log.clear()
                    if op[1] == "worker":
                        t = threading.Thread(target=sig.emit, args=(val[0],))
                        t.start()
                        t.join()
                        eq(log, [], "calls made by an emission on another thread")
                        queue.extend((j, val[0]) for j in order)
                    else:
                        want = []
                        failed = False
                        for j in order:
                            if model_call(j, val[0], want):
                                failed = True
                                break
                        try:
                            sig.emit(val[0])
                        except EmitLoopError:
                            check(failed, "emit raised")
                        else:
                            check(not failed, "emit did not raise")
                        eq(log, want, "calls made by an emission on the own thread")
            elif op[0] == "drain":
                want = []
                failed = False
                while queue and not failed:
                    failed = model_call(*queue.pop(0), want)
                try:
                    emit_queued()
                except EmitLoopError:
                    check(failed, "emit_queued raised")
                else:
                    check(not failed, "emit_queued did not raise")
                eq(log, want, "calls made by emit_queued")
            elif op[0] == "run":
                was = active[0] and interval[0] != LONG
                want = []
                n_err = model_run(want)
                if was:
                    ctx.label("run-active")
                end = time.monotonic() + 10
                while (len(log) < len(want) or len(errors) < n_err) and time.monotonic() < end:
                    spin()
                    time.sleep(0.0005)
                for _ in range(4):  # nothing more happens
                    spin()
                    if len(queue):
                        time.sleep(0.001)
                eq(log, want, "calls made by the event loop (timer %s)" % ("started" if was else "stopped or with a long interval"))
                eq([type(e).__name__ for e in errors], ["EmitLoopError"] * n_err, "errors seen by the event loop")
    finally:
        sys.excepthook = old_hook
        stop_emitting_from_queue()
        for _ in range(1000):
            try:
                emit_queued()
                break
            except EmitLoopError:
                pass
        stop_emitting_from_queue()
