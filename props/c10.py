"""C10: concurrent emit / connect / disconnect on one signal lose and repeat nothing."""
from __future__ import annotations

import threading

from hypothesis import strategies as st

from harness import sched
from harness.core import Violation, check, eq

ID = "C10"
RULE = (
    "A case is 2-3 threads, each with up to 6 operations on one signal (reached through its lazily created attribute "
    "of a plain, slotted or weakref-less object, or directly): emit, connect and disconnect functions and methods, "
    "drop connected objects, connect with unique=True, len / in; all interleaved by a harness-owned scheduler at "
    "psygnal source lines (in a third of the cases only at locks), lock operations and inside callbacks, with preemptions. Oracle: an interval "
    "check over the observed history. Non-trivial: a preemption happened while another thread was in an operation."
)
ASSUMPTIONS = ["thread switches happen between psygnal source lines, at lock operations, or in callbacks"]
QUICK, THOROUGH = 2000, 30000
QUICK_S = 25

sched.install()

MODES = ["immediate", "queued", "latest-only"]


def strategy(tier):
    k = st.integers(0, 2)
    op = st.one_of(
        st.tuples(st.just("emit")).map(list),
        st.tuples(st.just("emit")).map(list),
        st.tuples(st.just("conn"), st.sampled_from([0, 0, 1, -1])).map(list),
        st.tuples(st.just("disc"), k).map(list),
        st.tuples(st.just("obj"), st.sampled_from([0, 0, 1, -1])).map(list),
        st.tuples(st.just("drop"), k).map(list),
        st.tuples(st.just("ldrop"), k).map(list),
        st.tuples(st.just("uniq")).map(list),
        st.tuples(st.just("shared")).map(list),
        st.tuples(st.just("look")).map(list),
    )
    # an operation of one thread, in the middle of which another one removes and adds slots
    short = st.fixed_dictionaries({
        "mode": st.sampled_from(MODES),
        "owner": st.sampled_from(["direct", "touched"]),
        "persistent": st.just([0]),
        "objs": st.just([0]),
        "shared": st.integers(1, 2),
        "threads": st.tuples(
            st.sampled_from([[["drop", 0]], [["drop", 0]], [["shared"]], [["emit"]], [["conn", 0]], [["conn", 1]], [["uniq"]]]),
            st.sampled_from([[["shared"], ["conn", 0]], [["conn", 0], ["shared"]], [["conn", 0], ["disc", 0]], [["conn", 1], ["shared"]],
                             [["obj", 0], ["shared"]], [["uniq"], ["shared"]], [["drop", 0], ["conn", 0]]])).map(list),
        "fine": st.just(True),
        "sched": st.tuples(st.tuples(st.integers(1, 40), st.just(1)).map(list), st.just([200, 0])).map(list),
    })
    return st.one_of(general(op), general(op), general(op), short)


def general(op):
    return st.fixed_dictionaries({
        "mode": st.sampled_from(MODES),
        "owner": st.sampled_from(["plain", "plain", "slots", "noweak", "direct", "touched"]),
        "persistent": st.lists(st.sampled_from([0, 0, 2, -2]), min_size=1, max_size=3),
        "objs": st.lists(st.integers(0, 2), max_size=3),
        "shared": st.integers(0, 3),
        "ulock": st.booleans(),
        "threads": st.lists(st.lists(op, min_size=1, max_size=6), min_size=2, max_size=3),
        "fine": st.sampled_from([True, True, False]),
        "sched": st.lists(st.tuples(st.one_of(st.integers(1, 15), st.integers(1, 120)), st.integers(0, 2)).map(list),
                          min_size=1, max_size=10),
    })


def run_case(case, ctx):
    from psygnal import Signal, SignalInstance

    nt = len(case["threads"])
    how = case["owner"]
    ns = {"sig": Signal(int, reemission=case["mode"])}
    if how == "slots":
        ns["__slots__"] = ("__weakref__",)
    elif how == "noweak":
        ns["__slots__"] = ()
    owner = type("E", (), ns)()
    direct = SignalInstance((int,), reemission=case["mode"]) if how == "direct" else None

    def S():
        return direct if direct is not None else owner.sig

    log = []
    active = set()
    s = None
    seen = []

    ulock = threading.Lock()  # of the user

    def body(tag):
        def f(v):
            log.append(("call", tag, v))
            if tag == "p0" and s is not None and case.get("ulock"):
                with ulock:
                    s.point()
            elif s is not None:
                s.point()
            log.append(("ret", tag, v))
        return f

    persistent = []
    early = how != "direct" and how != "touched"
    # the first accesses of the attribute may themselves happen concurrently: then
    # every thread connects its own persistent callbacks
    todo = {j: [] for j in range(nt)}
    for i, prio in enumerate(case["persistent"]):
        f = body(f"p{i}")
        persistent.append(f)
        if early:
            todo[i % nt].append((f, prio))
        else:
            S().connect(f, priority=prio)
    shared = body("shared")
    uniq = body("uniq")
    n_shared = 0 if early else case["shared"]
    for _ in range(n_shared):
        S().connect(shared)

    class Obj:
        def __init__(self, tag):
            self.f = body(tag)

        def meth(self, v):
            self.f(v)

    mine = {j: [] for j in range(nt)}  # connected functions of thread j
    objs = {j: [] for j in range(nt)}
    if not early:
        for k, j in enumerate(case["objs"]):
            o = Obj(f"o{k}")
            objs[j % nt].append(o)
            S().connect(o.meth)
            o = None
    conn = {}  # tag -> [connect start, connect end, disconnect start, disconnect end]
    eids = [0]
    emis = {}
    removed_shared = []
    uniq_done = []
    bad = []

    def thread(j):
        def f():
            for n, (fn, prio) in enumerate(todo[j]):
                seen.append(S())
                S().connect(fn, priority=prio)
            for n, op in enumerate(case["threads"][j]):
                active.add(j)
                sig = S()
                seen.append(sig)
                w = op[0]
                if w == "emit":
                    eids[0] += 1
                    e = eids[0]
                    emis[e] = [len(log), None]
                    log.append(("b", e))
                    sig.emit(e)
                    log.append(("e", e))
                    emis[e][1] = len(log)
                elif w == "conn":
                    tag = f"t{j}.{n}"
                    fn = body(tag)
                    c = conn[tag] = [len(log), None, None, None]
                    log.append(("cs", tag))
                    sig.connect(fn, priority=op[1])
                    log.append(("ce", tag))
                    c[1] = len(log)
                    mine[j].append((tag, fn))
                elif w == "disc" and mine[j]:
                    tag, fn = mine[j].pop(op[1] % len(mine[j]))
                    if fn not in sig:
                        bad.append(f"{tag} is connected, but not in the signal")
                    conn[tag][2] = len(log)
                    log.append(("ds", tag))
                    sig.disconnect(fn, missing_ok=False)
                    log.append(("de", tag))
                    conn[tag][3] = len(log)
                    if fn in sig:
                        bad.append(f"{tag} is disconnected, but in the signal")
                elif w == "obj":
                    o = Obj(f"o{j}.{n}")
                    sig.connect(o.meth, priority=op[1])
                    objs[j].append(o)
                    o = None
                elif w == "drop" and objs[j]:
                    ctx.label("drop")
                    objs[j].pop(op[1] % len(objs[j]))
                elif w == "ldrop" and objs[j]:
                    # (a callback may be waiting for the lock)
                    ctx.label("drop")
                    with ulock:
                        objs[j].pop(op[1] % len(objs[j]))
                elif w == "uniq":
                    sig.connect(uniq, unique=True)
                    uniq_done.append(1)
                elif w == "shared":
                    try:
                        sig.disconnect(shared, missing_ok=False)
                        removed_shared.append(1)
                    except ValueError:
                        removed_shared.append(0)
                elif w == "look":
                    len(sig)
                    if uniq_done and uniq not in sig:
                        bad.append("a slot connected with unique=True is not in the signal")
                active.discard(j)
                if active:
                    ctx.nontrivial()
        return f

    s = sched.Scheduler([thread(j) for j in range(nt)], case["sched"], trace=case.get("fine", True))
    for e in s.run():
        if e is not None:
            raise e
    if s.switches:
        ctx.label("switched")
    s = None
    sig = S()
    if any(x is not sig for x in seen):
        raise Violation("the signal attribute of one object gave different signal instances to different threads")
    if bad:
        raise Violation(bad[0])
    # ---- the history
    calls = [(i, x[1], x[2]) for i, x in enumerate(log) if x[0] == "call"]
    depth = None
    for x in log:
        if x[0] == "call":
            check(depth is None, "callback %s entered while %s was running", x[1], depth)
            depth = x[1]
        elif x[0] == "ret":
            depth = None
    order = []
    for i, tag, e in calls:
        if not order or order[-1] != e:
            check(e not in order, "the deliveries of emission %s are interleaved with those of another one", e)
            order.append(e)
    if not early:
        for i in range(len(persistent)):
            got = [e for _, tag, e in calls if tag == f"p{i}"]
            if sorted(got) != sorted(emis):
                raise Violation(f"persistent callback {i} got emissions {got} of {sorted(emis)}")
            eq(got, order, f"order in which callback {i} got the emissions")
    for tag, (cs, ce, ds, de) in conn.items():
        got = [e for _, t, e in calls if t == tag]
        check(len(set(got)) == len(got), "%s called twice by one emission: %s", tag, got)
        for e, (b, end) in emis.items():
            if b >= ce and (ds is None or end <= ds):
                check(e in got, "emission %s did not reach %s, connected throughout", e, tag)
            if end <= cs or (de is not None and b >= de):
                check(e not in got, "emission %s reached %s while it was not connected", e, tag)
    for tag in {t for _, t, _ in calls}:
        if tag != "shared":
            got = [e for _, t, e in calls if t == tag]
            check(len(set(got)) == len(got), "%s called twice by one emission: %s", tag, got)
    # ---- the final connections
    left_shared = n_shared - sum(removed_shared)
    eq(sum(removed_shared), min(n_shared, len(removed_shared)), "successful disconnects of the shared slot")
    want = sorted([f"p{i}" for i in range(len(persistent))] + ["shared"] * left_shared + ["uniq"] * bool(uniq_done)
                  + [t for j in mine for t, _ in mine[j]] + [o.f.__closure__ and _tag(o) for j in objs for o in objs[j]])
    eq(len(sig), len(want), "len(signal) at the end")
    log.clear()
    sig.emit(99)
    eq(sorted(x[1] for x in log if x[0] == "call"), want, "slots connected at the end")
    check(all(x[2] == 99 for x in log), "another value was delivered: %s", log)


def _tag(o):
    c = dict(zip(o.f.__code__.co_freevars, o.f.__closure__))
    return c["tag"].cell_contents


REGRESSIONS = []
