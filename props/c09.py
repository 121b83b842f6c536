"""C09: callbacks connected with thread= run on their thread, once each, in order."""
from __future__ import annotations

import gc
import queue as _q
import threading
from functools import partial

from hypothesis import strategies as st

from harness import sched
from harness.core import HarnessError, Violation, check, eq

ID = "C09"
RULE = (
    "Sequential cases: a history of connects (thread=None, 'main', 'current', a Thread, a thread never started), "
    "emissions, pauses, drains and dropped callback owners, each executed on one of three real threads, with callbacks that emit, raise or "
    "drain; oracle: a model with one FIFO per thread. Concurrent cases: up to three threads emit and drain under a "
    "harness-owned scheduler; oracle: every (callback, emission) pair is called exactly once, in emission order, "
    "inside a drain for its thread. Non-trivial: a queued call is drained, or two threads overlap."
)
ASSUMPTIONS = ["thread switches happen between psygnal source lines or at lock operations"]
QUICK, THOROUGH = 1300, 30000
QUICK_S = 25

sched.install()

NT = 3  # thread 0 is the main thread


def strategy(tier):
    th = st.integers(0, NT - 1)
    sig = st.integers(0, 1)
    thread = st.sampled_from([None, "main", "current", 0, 1, 2, "new"])
    act = st.one_of(
        st.tuples(st.just("emit"), sig, st.booleans()).map(list),
        st.tuples(st.just("raise")).map(list),
        st.just(["raise", "ref"]),
        st.tuples(st.just("drain"), st.booleans()).map(list),
    )
    conn = st.tuples(st.just("conn"), th, sig, thread, st.sampled_from([0, 0, 1, -1]), st.integers(0, 2),
                     st.lists(st.lists(act, max_size=2), max_size=2),
                     st.sampled_from(["fn", "fn", "partial", "meth", "pmeth", "max"])).map(list)
    op = st.one_of(
        st.tuples(st.just("emit"), th, sig).map(list),
        st.tuples(st.just("emit"), th, sig).map(list),
        st.tuples(st.just("drain"), th).map(list),
        st.tuples(st.just("drain_for"), th, st.sampled_from([0, 1, 2, "new"])).map(list),
        st.tuples(st.just("pause"), th, th, sig, st.integers(0, 2)).map(list),
        st.tuples(st.just("disc"), st.integers(0, 9)).map(list),
        st.tuples(st.just("drop"), st.integers(0, 9)).map(list),
        conn,
    )
    seq = st.fixed_dictionaries({
        "mode": st.just("seq"),
        "group": st.booleans(),
        "names": st.sampled_from(["own", "same", "main"]),
        "init": st.lists(conn, min_size=1, max_size=4),
        "ops": st.lists(op, min_size=2, max_size=14 if tier == "quick" else 40),
    })
    cop = st.one_of(
        st.tuples(st.just("emit"), sig).map(list),
        st.tuples(st.just("emit"), sig).map(list),
        st.tuples(st.just("drain"), st.integers(0, 3)).map(list),
        st.tuples(st.just("self")).map(list),
    )
    conc = st.fixed_dictionaries({
        "mode": st.just("conc"),
        "slots": st.lists(st.tuples(sig, st.sampled_from([None, 0, 1, 2, 3]), st.sampled_from([None, None, 0, 1])).map(list),
                          min_size=1, max_size=5),
        "threads": st.lists(st.lists(cop, min_size=1, max_size=4), min_size=2, max_size=3),
        "fine": st.sampled_from([True, True, False]),
        "sched": st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 90)), st.integers(0, 2)).map(list),
                          min_size=1, max_size=8),
    })
    return st.one_of(seq, conc)


class RefBoom(ReferenceError):
    """An error of the callback itself that looks as if an object was gone."""


class Boom(Exception):
    pass


class Worker:
    def __init__(self, name):
        self.q = _q.SimpleQueue()
        self.out = _q.SimpleQueue()
        self.thread = threading.Thread(target=self.run, daemon=True, name=name)
        self.thread.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.out.put((f(), None))
            except BaseException as e:
                self.out.put((None, e))

    def __call__(self, f):
        self.q.put(f)
        try:
            r, e = self.out.get(timeout=20)
        except _q.Empty:
            raise Violation("a call on another thread did not return") from None
        if e is not None:
            raise e
        return r


def run_case(case, ctx):
    if case["mode"] == "seq":
        name = {"own": None, "same": "worker", "main": threading.main_thread().name}[case.get("names", "own")]
        workers = [Worker(name), Worker(name)]
        try:
            _seq(case, ctx, workers)
        finally:
            for w in workers:
                w.q.put(None)
            for w in workers:
                w.thread.join(5)
            from psygnal import emit_queued

            for _ in range(200):
                try:
                    emit_queued(threading.main_thread())
                    break
                except Exception:
                    pass
    else:
        _conc(case, ctx)


def _seq(case, ctx, workers):
    from psygnal import EmitLoopError, Signal, SignalGroup, emit_queued

    if case["group"]:
        g = type("G", (SignalGroup,), {"a": Signal(int, int), "b": Signal(int, int)})()
        sigs = [g.a, g.b]
    else:
        o = type("E", (), {"a": Signal(int, int), "b": Signal(int, int)})()
        sigs = [o.a, o.b]
    new = threading.Thread()
    threads = [threading.main_thread(), workers[0].thread, workers[1].thread, new]

    def on(t, f):
        return f() if t == 0 else workers[t - 1](f)

    def tid():
        return threads.index(threading.current_thread())

    log, mlog = [], []
    slots = []  # real/model info: dict(sig, T, prio, nargs, script, cb)
    table = [[], []]  # model: slot ids per signal, in order
    fifo = {0: [], 1: [], 2: [], 3: []}
    calls, mcalls = {}, {}
    budget, mbudget = [60], [60]

    # ---- real
    def slot(i, nargs, kind):
        def body(*a):
            log.append((i, a, tid()))
            k = calls.get(i, 0)
            calls[i] = k + 1
            sc = slots[i]["script"]
            for act in sc[k] if k < len(sc) else ():
                if act[0] == "raise":
                    raise Boom if len(act) < 2 else RefBoom
                if budget[0] <= 0:
                    return
                budget[0] -= 1
                v = budget[0]
                if act[0] == "emit":
                    try:
                        sigs[act[1]].emit(v, -v)
                    except EmitLoopError:
                        if not act[2]:
                            raise
                else:
                    try:
                        emit_queued()
                    except EmitLoopError:
                        if not act[1]:
                            raise

        bodies[i] = body
        if kind == "max":  # any number of arguments, cut by max_args
            return lambda *a: body(*a)
        if kind == "fn":
            return {0: lambda: body(), 1: lambda a: body(a), 2: lambda a, b: body(a, b)}[nargs]
        if kind == "partial":  # partials of one function: only the bound argument differs
            return partial(shared[nargs], ("slot", i))
        owner = owners[i] = Owner()
        if kind == "meth":
            owner.i = i
            return [owner.m0, owner.m1, owner.m2][nargs]
        return partial([owner.p0, owner.p1, owner.p2][nargs], ("slot", i))

    bodies, owners = {}, {}
    shared = [lambda t: bodies[t[1]](), lambda t, a: bodies[t[1]](a), lambda t, a, b: bodies[t[1]](a, b)]

    class Owner:
        def m0(self):
            bodies[self.i]()

        def m1(self, a):
            bodies[self.i](a)

        def m2(self, a, b):
            bodies[self.i](a, b)

        def p0(self, t):
            bodies[t[1]]()

        def p1(self, t, a):
            bodies[t[1]](a)

        def p2(self, t, a, b):
            bodies[t[1]](a, b)

    # ---- model
    class MBoom(Exception):
        pass

    def mcall(i, args, t):
        s = slots[i]
        mlog.append((i, args[: s["nargs"]], t))
        k = mcalls.get(i, 0)
        mcalls[i] = k + 1
        sc = s["script"]
        for act in sc[k] if k < len(sc) else ():
            if act[0] == "raise":
                raise MBoom
            if mbudget[0] <= 0:
                return
            mbudget[0] -= 1
            v = mbudget[0]
            try:
                if act[0] == "emit":
                    memit(act[1], (v, -v), t)
                else:
                    mdrain(t, t)
            except MBoom:
                if not (act[2] if act[0] == "emit" else act[1]):
                    raise

    def memit(s, args, t):
        for i in list(table[s]):
            T = slots[i]["T"]
            if T is None or T == t:
                mcall(i, args, t)
            else:
                fifo[T].append((i, args))
                ctx.label("queued")

    def mdrain(T, t):
        while fifo[T]:
            i, args = fifo[T].pop(0)
            ctx.label("drained" if t == T else "drained-elsewhere")
            ctx.nontrivial()
            if t != T:
                # run for T by t
                ctx.label("foreign-drain")
            mcall(i, args, t)

    def both(t, real, mod, what):
        log.clear()
        mlog.clear()
        try:
            on(t, real)
            e = None
        except EmitLoopError as ex:
            e = ex
        try:
            mod()
            me = False
        except MBoom:
            me = True
        if log != mlog:
            raise Violation(f"{what} on thread {t}: calls {log}, expected {mlog}")
        if (e is not None) != me:
            raise Violation(f"{what} on thread {t}: {'raised' if e else 'did not raise'} EmitLoopError")
        if e is not None:
            x = e
            while isinstance(x, EmitLoopError):
                x = x.__cause__
            check(isinstance(x, (Boom, RefBoom)), "the cause of EmitLoopError is %r", x)
            ctx.label("failed")

    for op in case["init"] + case["ops"]:
        w = op[0]
        if w == "conn":
            _, t, s, thread, prio, nargs, script, *kind = op
            kind = kind[0] if kind else "fn"
            i = len(slots)
            T = {None: None, "main": 0, "current": t, "new": 3}.get(thread, thread)
            arg = thread if thread in (None, "main", "current") else threads[T]
            slots.append({"sig": s, "T": T, "prio": prio, "nargs": nargs, "script": script})
            cb = slot(i, nargs, kind)
            slots[i]["cb"] = cb
            check(cb not in sigs[s], "a callback is in the signal before it is connected")
            on(t, lambda: sigs[s].connect(cb, thread=arg, priority=prio,
                                           max_args=nargs if kind == "max" else None))
            pos = next((k for k, o in enumerate(table[s]) if slots[o]["prio"] < prio), len(table[s]))
            table[s].insert(pos, i)
            cb = None
        elif w == "emit":
            _, t, s = op
            budget[0] = mbudget[0] = 60
            v = len(log) + 100
            both(t, lambda: sigs[s].emit(v, -v), lambda: memit(s, (v, -v), t), "emit")
        elif w == "drain":
            budget[0] = mbudget[0] = 60
            both(op[1], emit_queued, lambda: mdrain(op[1], op[1]), "emit_queued()")
        elif w == "drain_for":
            T = 3 if op[2] == "new" else op[2]
            budget[0] = mbudget[0] = 60
            both(op[1], lambda: emit_queued(threads[T]), lambda: mdrain(T, op[1]), f"emit_queued(thread {T})")
        elif w == "pause":
            _, t1, t2, s, n = op
            if any(a[0] == "raise" for sl in slots for c in sl["script"] for a in c):
                continue  # resuming with failing callbacks is C06
            budget[0] = mbudget[0] = 60
            on(t1, sigs[s].pause)
            for k in range(n):
                on(t1, lambda k=k: sigs[s].emit(k, -k))

            def m():
                for k in range(n):
                    memit(s, (k, -k), t2)

            both(t2, sigs[s].resume, m, "resume")
            ctx.label("paused")
        elif w == "disc":
            live = [i for tb in table for i in tb]
            if not live:
                continue
            i = live[op[1] % len(live)]
            if any(i == e[0] for f in fifo.values() for e in f):
                continue  # whether an already queued call still runs is not specified
            sigs[slots[i]["sig"]].disconnect(slots[i]["cb"], missing_ok=False)
            table[slots[i]["sig"]].remove(i)
            check(slots[i]["cb"] not in sigs[slots[i]["sig"]], "a disconnected queued callback is still in the signal")
        elif w == "drop":  # the owner of a callback dies: queued calls of it vanish, no other
            live = [i for tb in table for i in tb if i in owners]
            if not live:
                continue
            i = live[op[1] % len(live)]
            cb = slots[i]["cb"] = None
            del owners[i]
            gc.collect()
            table[slots[i]["sig"]].remove(i)
            for f in fifo.values():
                if any(e[0] == i for e in f):
                    ctx.label("dropped-while-queued")
                f[:] = [e for e in f if e[0] != i]
        for s in (0, 1):
            eq(len(sigs[s]), len(table[s]) + int(case["group"] and 0), "len(signal)")
    # finally everything still queued is delivered, each on its own drain
    for T in (0, 1, 2, 3):
        for _ in range(80):
            n = len(fifo[T])
            budget[0] = mbudget[0] = 0
            both(T if T < 3 else 0, lambda: emit_queued(threads[T]), lambda: mdrain(T, T if T < 3 else 0), "final drain")
            if not fifo[T] or len(fifo[T]) == n:
                break


def _conc(case, ctx):
    from psygnal import EmitLoopError, SignalInstance, emit_queued

    sigs = [SignalInstance((int,)), SignalInstance((int,))]
    n = len(case["threads"])
    keys = [threading.Thread() for _ in range(4)]  # stand-ins for threads that have their own event loops
    lock_order = [[], []]
    log = []
    failing = {}
    draining = {}
    emitted = []

    for s in (0, 1):
        def first(v, s=s):
            lock_order[s].append(v)
        sigs[s].connect(first, priority=100)

    real = {}
    for i, (s, T, fault) in enumerate(case["slots"]):
        def cb(v, i=i, s=s, T=T, fault=fault):
            me = sch[0].me()
            me = me.i if me is not None else "final"
            sch[0].point()
            log.append((i, v, me, draining.get(me)))
            failing[i] = failing.get(i, 0) + 1
            if T is not None and draining.get(me) is not None and fault is not None and failing[i] - 1 == fault:
                raise Boom
        if T is None:
            sigs[s].connect(cb)
        else:
            if T < n:
                real.setdefault(T, []).append((s, cb))
            else:
                sigs[s].connect(cb, thread=keys[T])

    def drain(me, T, who):
        draining[me] = T
        busy.setdefault(T, set()).add(me)
        if len(busy[T]) > 1:
            ctx.label("same-queue-drained-concurrently")
            racy.add(T)
        for _ in range(60):
            try:
                emit_queued(who)
                break
            except EmitLoopError:
                ctx.label("failed")
        busy[T].discard(me)
        draining[me] = None

    busy, racy = {}, set()

    def fn(j):
        def f():
            for op in case["threads"][j]:
                active.add(j)
                if len(active) > 1:
                    ctx.nontrivial()
                if op[0] == "emit":
                    v = len(emitted)
                    emitted.append((v, op[1]))
                    sigs[op[1]].emit(v)
                elif op[0] == "drain":
                    T = op[1]
                    drain(j, T, threads[T] if T < n else keys[T])
                else:
                    drain(j, j, None)
                active.discard(j)
        return f

    active = set()
    sch = [None]
    sch[0] = sched.Scheduler([fn(j) for j in range(n)], case["sched"], trace=case.get("fine", True))
    threads = sch[0].make_threads()
    for T, lst in real.items():
        for s, cb in lst:
            sigs[s].connect(cb, thread=threads[T])
    for e in sch[0].run():
        if e is not None:
            raise e
    if sch[0].switches:
        ctx.label("switched")
    for T in range(4):
        drain("final", T, threads[T] if T < n else keys[T])
    for s in (0, 1):
        eq(sorted(lock_order[s]), sorted(v for v, k in emitted if k == s), "emissions seen by a direct callback")
    for i, (s, T, fault) in enumerate(case["slots"]):
        got = [(v, me, d) for k, v, me, d in log if k == i]
        want = lock_order[s]
        eq(sorted(v for v, _, _ in got), sorted(want), f"values that callback {i} (thread {T}) got")
        if T is None or T not in racy:
            direct = [v for v, me, _ in got if T is not None and me == T and _ != T]
            if not direct:
                eq([v for v, _, _ in got], want, f"order of the values that callback {i} (thread {T}) got")
        if T is not None:
            for v, me, d in got:
                check(d == T or me == T, "callback %s of thread %s ran on thread %s outside of a drain for it", i, T, me)
    for e in (0, 1):
        check(len(sigs[e]) == 1 + sum(1 for s, _, _ in case["slots"] if s == e), "connections lost")


REGRESSIONS = [
    {"mode": "conc", "slots": [[0, 3, None]], "threads": [[["emit", 0], ["drain", 3]], [["drain", 3]]],
     "sched": [[k, 0], [k2, 0]]} for k in (10, 30, 58, 59, 60, 61, 62, 63) for k2 in (3, 5, 90)
]
