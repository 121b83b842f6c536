"""C05: sender()/current_emitter() name the innermost emission of the current thread."""
from __future__ import annotations

import threading

from hypothesis import strategies as st

from harness import sched
from harness.core import Violation, check

ID = "C05"
RULE = (
    "A case is 1-4 emitters (bound or unbound signals, all reemission modes), callbacks that query sender() and "
    "current_emitter() on entry, after every nested emission (which may fail, caught or not) and on exit, and 1-3 "
    "threads with top-level emissions, interleaved by a harness-owned scheduler at psygnal source lines (in a third of the cases only at locks) and inside "
    "callbacks. Non-trivial: an emission is nested in another, or two threads' emissions overlap, or one fails."
)
ASSUMPTIONS = ["during emit_fast the documentation makes no claim about the emitter"]
QUICK, THOROUGH = 1200, 25000
QUICK_S = 25
MODES = ["immediate", "queued", "latest-only"]


def prepare():
    sched.install()


prepare()


def strategy(tier):
    emit = st.tuples(st.integers(0, 3), st.sampled_from(["emit"] * 5 + ["fast"]), st.booleans()).map(list)
    slot = st.fixed_dictionaries({
        "sig": st.integers(0, 3),
        "script": st.lists(st.lists(emit, max_size=2), max_size=3),
        "fault": st.sampled_from([None, None, None, 0, 1, 2]),
        "relay": st.sampled_from([None] * 6 + [1]),
        "off": st.sampled_from([None] * 8 + ["self", "all"]),
    })
    return st.fixed_dictionaries({
        "sigs": st.lists(st.tuples(st.sampled_from(MODES), st.sampled_from(["bound", "bound", "unbound", "same"])).map(list),
                         min_size=1, max_size=4),
        "slots": st.lists(slot, min_size=1, max_size=6),
        "threads": st.lists(st.lists(emit, min_size=1, max_size=3), min_size=1, max_size=3),
        "fine": st.sampled_from([True, True, False]),
        "sched": st.lists(st.tuples(st.integers(1, 60), st.integers(0, 2)).map(list), max_size=8),
    })


class Boom(Exception):
    pass


def run_case(case, ctx):
    from psygnal import EmitLoopError, Signal, SignalInstance

    n = len(case["sigs"])
    ns = {f"s{j}": Signal(int, reemission=m) for j, (m, _) in enumerate(case["sigs"])}
    cls = type("E", (), ns)
    shared = cls()
    objs, sigs = [], []
    for j, (m, how) in enumerate(case["sigs"]):
        if how == "unbound":
            sigs.append(SignalInstance((int,), reemission=m))
            objs.append(None)
        else:
            o = shared if how == "same" else cls()
            objs.append(o)
            sigs.append(getattr(o, f"s{j}"))
    tl = threading.local()
    calls = [0] * len(case["slots"])
    budget = [150]
    multi = len(case["threads"]) > 1
    bad = []

    def stack():
        if not hasattr(tl, "s"):
            tl.s = []
        return tl.s

    def verify(s, where):
        if stack() and stack()[-1] == "fast":
            return
        cur, snd = Signal.current_emitter(), Signal.sender()
        want = sigs[s] if s is not None else None
        wobj = objs[s] if s is not None else None
        if cur is not want or snd is not wobj:
            bad.append(f"{where}: current_emitter() is {cur!r} (expected {want!r}), sender() is {snd!r} "
                       f"(expected {wobj!r})")

    def emit(s, how, catch):
        s %= n
        if budget[0] <= 0:
            return
        budget[0] -= 1
        st_ = stack()
        if st_:
            ctx.label("nested")
            ctx.nontrivial()
        st_.append(how)
        try:
            (sigs[s].emit_fast if how == "fast" else sigs[s].emit)(1)
        except (EmitLoopError, RecursionError):
            ctx.label("failed")
            ctx.nontrivial()
            if not catch:
                raise
        finally:
            st_.pop()

    def slot(i, s):
        def f(v):
            k = calls[i]
            calls[i] += 1
            if len(inside) > 1:
                ctx.label("overlap")
                ctx.nontrivial()
            verify(s, f"slot {i} on signal {s}, on entry")
            off = case["slots"][i].get("off")
            if off:
                sigs[s].disconnect(fns_of[i] if off == "self" else None)
                ctx.label("off-" + off)
                verify(s, f"slot {i} on signal {s}, after disconnecting {off}")
            if scheduler[0]:
                scheduler[0].point()
            verify(s, f"slot {i} on signal {s}, after a switch")
            for e in case["slots"][i]["script"][k] if k < len(case["slots"][i]["script"]) else ():
                # with several threads, nested emissions only go "upwards": two threads
                # taking two signals' locks in opposite orders would deadlock by design
                emit(s + e[0] % (n - s) if multi else e[0], e[1], e[2])
                verify(s, f"slot {i} on signal {s}, after a nested emission")
            if case["slots"][i]["fault"] == k:
                raise Boom
        return f

    fns_of = {}
    inside = set()  # threads that are in an emission

    for i, sl in enumerate(case["slots"]):
        s = sl["sig"] % n
        if sl["relay"] and s + sl["relay"] < n:
            sigs[s].connect(sigs[s + sl["relay"]].emit)
        else:
            fns_of[i] = slot(i, s)
            sigs[s].connect(fns_of[i])

    def thread(j):
        def f():
            for e in case["threads"][j]:
                verify(None, f"thread {j}, before an emission")
                inside.add(j)
                try:
                    emit(e[0], e[1], True)
                finally:
                    inside.discard(j)
                if scheduler[0]:
                    scheduler[0].point()
                verify(None, f"thread {j}, after an emission")
        return f

    scheduler = [None]
    fns = [thread(j) for j in range(len(case["threads"]))]
    if len(fns) == 1:
        fns[0]()
    else:
        s = sched.Scheduler(fns, case["sched"], trace=case.get("fine", True))
        scheduler[0] = s
        excs = s.run()
        if s.switches:
            ctx.label("switched")
        for e in excs:
            if e is not None:
                raise e
    verify(None, "at the end")
    if bad:
        raise Violation(bad[0])
    check(Signal.current_emitter() is None, "current_emitter() left over")


REGRESSIONS = [
    {"sigs": [["immediate", "bound"], ["immediate", "bound"]],
     "slots": [{"sig": 0, "script": [], "fault": None, "relay": None}, {"sig": 1, "script": [], "fault": None, "relay": None}],
     "threads": [[[0, "emit", True]], [[1, "emit", True]]], "sched": [[k, 0], [k2, 0]]}
    for k in (8, 15, 20, 30) for k2 in (10, 25)
]
