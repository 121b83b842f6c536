"""C31: evented objects and their groups, shared between threads."""
from __future__ import annotations

import warnings
from dataclasses import dataclass
from typing import ClassVar

from hypothesis import strategies as st

from harness import sched
from harness.core import Violation, check, eq

ID = "C31"
RULE = (
    "A case is 2-3 threads that share 1-2 new objects of a new evented class (@evented or a descriptor; dataclass, "
    "slotted or cached elsewhere, attrs, msgspec, pydantic, class without fields and a declared group; also one object "
    "of a subclass), each thread with up to 8 operations: first and later accesses of .events, setting the field that "
    "is its own and one that all set, connecting and disconnecting functions and methods at fields, at the group (also direct), dropping "
    "connected objects, disconnecting all of its own; interleaved by a harness-owned scheduler at psygnal source lines "
    "(in about half of the cases), lock operations and in callbacks. Oracle: one group per object; an interval check over the observed history with "
    "(new, old) of each change; the connections left; no deadlock. Non-trivial: a thread was preempted inside an operation."
)
ASSUMPTIONS = [
    "thread switches happen between psygnal source lines, at lock operations, or in callbacks",
    "each field of each object is set by one thread only, except one, of which the number of changes and the last value are checked",
]
QUICK, THOROUGH = 2000, 30000
QUICK_S = 25

sched.install()

FLAVOURS = ["evented", "evented", "dc", "nocache", "slots", "attrs", "msgspec", "pydantic", "declared", "noweak"]
FIELDS = ["a", "b", "c", "d"]  # one of each thread, and one that all of them set


def strategy(tier):
    k = st.integers(0, 2)
    o = st.integers(0, 1)
    where = st.sampled_from([0, 1, 2, 3, 3, "g", "g", "g", "d"])
    op = st.one_of(
        st.tuples(st.just("set"), o).map(list),
        st.tuples(st.just("set"), o).map(list),
        st.tuples(st.just("set"), o).map(list),
        st.tuples(st.just("share"), o).map(list),
        st.tuples(st.just("conn"), o, where).map(list),
        st.tuples(st.just("conn"), o, where).map(list),
        st.tuples(st.just("disc"), k).map(list),
        st.tuples(st.just("disc"), k).map(list),
        st.tuples(st.just("obj"), o, where).map(list),
        st.tuples(st.just("drop"), k).map(list),
        st.tuples(st.just("flip"), o, where).map(list),
        st.tuples(st.just("flip"), o, where).map(list),
        st.tuples(st.just("look"), o).map(list),
    )
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(FLAVOURS),
        "objects": st.sampled_from([["base"], ["base"], ["base"], ["base"], ["base", "base"], ["base", "sub"], ["sub"]]),
        "persistent": st.lists(st.tuples(o, where).map(list), max_size=4),
        "first": st.sampled_from(["threads", "threads", "before", "touched", "touched"]),
        "threads": st.one_of(
            st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=2),
            st.lists(st.lists(op, min_size=3, max_size=8), min_size=2, max_size=2),
            st.lists(st.lists(op, min_size=2, max_size=6), min_size=3, max_size=3)),
        "sched": st.lists(st.tuples(st.one_of(st.integers(1, 15), st.integers(1, 150)), st.integers(0, 2)).map(list),
                          min_size=2, max_size=10),
        "fine": st.booleans(),
        "turns": st.lists(st.integers(-1, 1), min_size=3, max_size=9),
    })


def _make(flavour):
    """The evented class and a subclass of it."""
    from psygnal import Signal, SignalGroup, SignalGroupDescriptor, evented

    ann = {"a": int, "b": int, "c": int, "d": int}
    dflt = {"a": 0, "b": 0, "c": 0, "d": 0}
    D = SignalGroupDescriptor
    if flavour == "evented":
        base = evented(dataclass(type("E", (), {"__annotations__": dict(ann), **dflt})))
    elif flavour in ("dc", "nocache"):
        base = dataclass(type("E", (), {"__annotations__": {**ann, "events": ClassVar}, **dflt,
                                        "events": D(cache_on_instance=flavour == "dc")}))
    elif flavour in ("slots", "noweak"):
        def __init__(self):
            self.a = self.b = self.c = self.d = 0
        ns = {"__annotations__": {**ann, "events": ClassVar}, "events": D(),
              "__slots__": ("a", "b", "c", "d") + (("__weakref__",) if flavour == "slots" else ()), "__init__": __init__}
        base = dataclass(init=False)(type("E", (), ns))
    elif flavour == "attrs":
        import attr

        base = attr.make_class("E", {f: attr.ib(default=0, type=int) for f in FIELDS}, bases=(_holder(D()),))
    elif flavour == "msgspec":
        import msgspec

        base = msgspec.defstruct("E", [(f, int, 0) for f in FIELDS], weakref=True,
                                 namespace={"events": D(), "__annotations__": {"events": ClassVar}})
    elif flavour == "pydantic":
        import pydantic

        base = type("E", (pydantic.BaseModel,), {"__annotations__": {**ann, "events": ClassVar}, **dflt,
                                                 "events": D(), "__module__": __name__})
    elif flavour == "declared":
        grp = type("G", (SignalGroup,), {f: Signal(int, int) for f in FIELDS})

        def __init__(self):
            self.a = self.b = self.c = self.d = 0
        base = type("E", (), {"__init__": __init__, "events": D(signal_group_class=grp, collect_fields=False)})
    sub = type("S", (base,), {"__module__": __name__})
    return base, sub


def _holder(d):
    return type("H", (), {"events": d})


def run_case(case, ctx):
    nt = len(case["threads"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        base, sub = _make(case["flavour"])
        X = [(base if k == "base" else sub)() for k in case["objects"]]
    ctx.label(case["flavour"])
    log = []
    s = None
    turns = list(case["turns"])
    active = set()
    groups = {i: [] for i in range(len(X))}
    conn = {}  # tag -> [object, where, connect start, end, disconnect start, end]
    shared = []  # as sets, for the field of all threads
    sets = []  # [object, field, new, old, start, end]
    bad = []

    def body(tag, where):
        def f(*args):
            # (object is known from the tag)
            if where == "g":
                info, = args
                log.append(("call", tag, info.signal.name, info.args))
            else:
                log.append(("call", tag, None, args))
            if s is not None:
                at = turns.pop(0) if turns else -1
                if at < 0:
                    s.point()
                else:
                    s.give(at)
        if where == "g":
            return lambda info: f(info)
        return lambda new, old: f(new, old)

    def events(i):
        g = X[i].events
        groups[i].append(g)
        return g

    def connect(i, where, fn):
        g = events(i)
        if where == "g":
            g.connect(fn)
        elif where == "d":
            g.connect_direct(fn)
        else:
            g[FIELDS[where]].connect(fn)

    def disconnect(i, where, fn):
        g = events(i)
        if where in ("g", "d"):
            # (from the signals of the group too)
            g.disconnect(fn, missing_ok=False)
        else:
            g[FIELDS[where]].disconnect(fn, missing_ok=False)

    def start(i, where, tag, fn):
        c = conn[tag] = [i, where, len(log), None, None, None]
        log.append(("cs", tag))
        connect(i, where, fn)
        log.append(("ce", tag))
        c[3] = len(log)

    def stop(tag, fn):
        c = conn[tag]
        c[4] = len(log)
        log.append(("ds", tag))
        disconnect(c[0], c[1], fn)
        log.append(("de", tag))
        c[5] = len(log)

    class Obj:
        def __init__(self, tag, where):
            f = body(tag, where)
            self.f = f
            self.tag = tag

        def one(self, info):
            self.f(info)

        def two(self, new, old):
            self.f(new, old)

    mine = {j: [] for j in range(nt)}
    objs = {j: [] for j in range(nt)}
    keep = []
    todo = {j: [] for j in range(nt)}
    for n, (i, where) in enumerate(case["persistent"]):
        i %= len(X)
        fn = body(f"p{n}", where)
        keep.append(fn)
        if case["first"] == "threads":
            todo[n % nt].append((i, where, f"p{n}", fn))
        else:
            start(i, where, f"p{n}", fn)

    if case["first"] == "touched":
        for i in range(len(X)):
            events(i)

    def thread(j):
        def f():
            for i, where, tag, fn in todo[j]:
                start(i, where, tag, fn)
            for n, op in enumerate(case["threads"][j]):
                active.add(j)
                w = op[0]
                if w == "flip":
                    i = op[1] % len(X)
                    tag = f"f{j}.{n}"
                    fn = body(tag, op[2])
                    start(i, op[2], tag, fn)
                    stop(tag, fn)
                elif w == "set":
                    i = op[1] % len(X)
                    old = getattr(X[i], FIELDS[j])
                    e = [i, FIELDS[j], 100 * (j + 1) + n, old, len(log), None]
                    sets.append(e)
                    log.append(("b",))
                    setattr(X[i], FIELDS[j], e[2])
                    log.append(("e",))
                    e[5] = len(log)
                elif w == "share":
                    ctx.label("share")
                    i = op[1] % len(X)
                    e = [i, "d", 1000 * (j + 1) + n, len(log), None]
                    shared.append(e)
                    log.append(("b",))
                    X[i].d = e[2]
                    log.append(("e",))
                    e[4] = len(log)
                elif w == "conn":
                    i = op[1] % len(X)
                    tag = f"t{j}.{n}"
                    fn = body(tag, op[2])
                    start(i, op[2], tag, fn)
                    mine[j].append((tag, fn))
                elif w == "disc" and mine[j]:
                    tag, fn = mine[j].pop(op[1] % len(mine[j]))
                    stop(tag, fn)
                elif w == "obj":
                    i = op[1] % len(X)
                    tag = f"o{j}.{n}"
                    o = Obj(tag, op[2])
                    start(i, op[2], tag, o.one if op[2] == "g" else o.two)
                    objs[j].append(o)
                    o = None
                elif w == "drop" and objs[j]:
                    ctx.label("drop")
                    k = op[1] % len(objs[j])
                    c = conn[objs[j][k].tag]
                    c[4] = len(log)
                    log.append(("ds",))
                    objs[j].pop(k)
                    # (an emission may still have the object: no c[5])
                elif w == "look":
                    i = op[1] % len(X)
                    g = events(i)
                    if list(g) != FIELDS:
                        bad.append(f"the signals of a group are {list(g)}")
                active.discard(j)
                if active:
                    ctx.nontrivial()
        return f

    s = sched.Scheduler([thread(j) for j in range(nt)], case["sched"], trace=case["fine"])
    for e in s.run():
        if e is not None:
            raise e
    if s.switches:
        ctx.label("switched")
    s = None
    for i, seen in groups.items():
        g = X[i].events
        if any(x is not g for x in seen):
            raise Violation("the events of one object are different groups for different threads")
    if bad:
        raise Violation(bad[0])
    # ---- the history
    calls = [x for x in log if x[0] == "call"]
    for tag, (i, where, cs, ce, ds, de) in conn.items():
        got = [(x[2], x[3]) for x in calls if x[1] == tag and x[3][0] < 1000]
        d_got = [x[3] for x in calls if x[1] == tag and x[3][0] >= 1000]
        if where in ("g", "d", 3):
            least = sum(1 for oi, _, _, b, end in shared if oi == i and b >= ce and (ds is None or end <= ds))
            most = sum(1 for oi, _, _, b, end in shared if oi == i and not (end <= cs or (de is not None and b >= de)))
            check(least <= len(d_got) <= most, "%s (at %s) was told of %s changes of d %s, %s to %s were made", tag, where, len(d_got), d_got, least, most)
            if not any(oi == i and b < ce for oi, _, _, b, _ in shared):
                final = [x for x in shared if x[0] == i and x[2] == X[i].d]
                if ds is None and final:
                    check(any(a[0] == final[0][2] for a in d_got), "%s (at %s) was not told of the last value of d %s, only of %s", tag, where, X[i].d, d_got)
        else:
            check(not d_got, "%s (at %s) got changes of d %s", tag, where, d_got)
        check(all(a[1] != a[0] and (a[1] == 0 or a[1] in [x[2] for x in shared if x[0] == i]) for a in d_got), "changes of d told to %s: %s", tag, d_got)
        check(len(set(got)) == len(got), "%s (at %s) called twice for one change: %s", tag, where, got)
        want = []
        for oi, field, new, old, b, end in sets:
            if oi != i or where in (0, 1, 2, 3) and FIELDS[where] != field:
                continue
            d = (field if where == "g" else None, (new, old))
            want.append(d)
            if b >= ce and (ds is None or end <= ds):
                check(d in got, "the change %s of %s did not reach %s (at %s), connected throughout", (old, new), field, tag, where)
            if end <= cs or (de is not None and b >= de):
                check(d not in got, "the change %s of %s reached %s (at %s) while it was not connected", (old, new), field, tag, where)
        for d in got:
            check(d in want, "%s (at %s) got %s, which was no change", tag, where, d)
        for field in FIELDS:
            seq = [a[0] for n, a in got if (n == field or n is None and 100 * (1 + FIELDS.index(field)) <= a[0] < 100 * (2 + FIELDS.index(field)))]
            eq(seq, [x[2] for x in sets if x[0] == i and x[1] == field and x[2] in seq], f"order of the changes of {field} for {tag}")
    # ---- the final connections
    left = {t for t, c in conn.items() if c[4] is None}
    n_at = {}
    for t in left:
        i, where = conn[t][:2]
        for k in range(4) if where == "d" else [where]:
            n_at[i, k] = n_at.get((i, k), 0) + 1
    for i in range(len(X)):
        g = X[i].events
        relay = bool(n_at.get((i, "g")))
        eq(len(g.all), n_at.get((i, "g"), 0), "connections of the group at the end")
        for k, f in enumerate(FIELDS):
            eq(len(g[f]), n_at.get((i, k), 0) + relay, f"connections of {f} at the end (one of them for the group)")
        for k, f in enumerate(FIELDS):
            log.clear()
            old = getattr(X[i], f)
            setattr(X[i], f, 7)
            want = sorted(t for t in left if conn[t][0] == i and conn[t][1] in (k, "g", "d"))
            eq(sorted(x[1] for x in log), want, f"callbacks for a change of {f} at the end")
            check(all(x[3] == (7, old) for x in log), "%s -> 7 was reported as %s", old, log)


REGRESSIONS = []
