"""C08: connect_setattr / connect_setitem keep their targets equal to the last emission."""
from __future__ import annotations

import warnings
import weakref
from functools import partial

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C08"
RULE = (
    "A case is a history over one signal (also of a dataclass field or of a group): connect_setattr / connect_setitem "
    "(or the equivalent partial) on 10 kinds of targets (plain, property, __slots__ with and without weakref, always-equal objects, user mappings, dicts, lists, "
    "dict subclasses) with maxargs (or its default) and priority, ordinary callbacks, disconnections by target and key, by returned "
    "handle, unsuitable targets, dropped targets and emissions of 0-4 values. Oracle: a list model of the bindings "
    "that replays every store. Non-trivial: an emission reaches at least two bindings."
)
ASSUMPTIONS = ["attribute names and item keys are strings, or integers for lists, as documented"]
QUICK, THOROUGH = 1500, 60000
QUICK_S = 20

ATTR_T = ["plain", "prop", "slots", "slots_noweak", "alwayseq"]
ITEM_T = ["usermap", "dict", "list", "dictsub", "eqmap"]
KINDS = ATTR_T + ITEM_T
ATTRS = ["x", "y", "z9"]


def strategy(tier):
    t = st.sampled_from(range(len(KINDS) * 2))  # two of each kind
    key = st.sampled_from([0, 1])
    maxargs = st.sampled_from([None, None, 1, 1, 2, 0, "default"])
    prio = st.sampled_from([0, 0, 0, 1, -1, 5])
    how = st.sampled_from(["direct", "direct", "direct", "partial"])
    conn = st.tuples(st.just("conn"), t, key, maxargs, prio, how).map(list)
    op = st.one_of(
        conn, conn, conn,
        st.tuples(st.just("emit"), st.integers(0, 4)).map(list),
        st.tuples(st.just("emit"), st.integers(1, 2)).map(list),
        st.tuples(st.just("fn"), prio).map(list),
        st.tuples(st.just("disc"), t, key, st.booleans()).map(list),
        st.tuples(st.just("handle"), st.integers(0, 20)).map(list),
        st.tuples(st.just("partial_disc"), t, key).map(list),
        st.tuples(st.just("bad"), t, st.sampled_from(["attr", "item"]), st.booleans()).map(list),
        st.tuples(st.just("drop"), t).map(list),
        st.tuples(st.just("block"), st.integers(0, 3)).map(list),
        st.tuples(st.just("pause"), st.lists(st.integers(0, 3), max_size=3)).map(list),
        st.tuples(st.just("discall")).map(list),
    )
    # programs mostly use few targets, so that several bindings share one
    def narrow(d):
        pool = d.pop("pool")
        d["ops"] = d.pop("init") + d["ops"]
        for o in d["ops"]:
            if o[0] in ("conn", "disc", "partial_disc", "bad", "drop"):
                o[1] = pool[o[1] % len(pool)]
        return d

    return st.fixed_dictionaries({
        "pool": st.lists(t, min_size=1, max_size=3),
        "init": st.lists(conn, min_size=1, max_size=5),
        "where": st.sampled_from(["plain", "owner", "field", "field", "group"]),
        "ops": st.lists(op, min_size=3, max_size=16 if tier == "quick" else 40),
    }).map(narrow)


def run_case(case, ctx):
    from psygnal import EmissionInfo, Signal, SignalGroup, SignalInstance

    log = []
    ids = {}

    class Plain:
        x = y = "init"

    class Prop:
        _x = _y = "init"

        @property
        def x(self):
            return self._x

        @x.setter
        def x(self, v):
            log.append((self.n, "x", v))
            self._x = v

        @property
        def y(self):
            return self._y

        @y.setter
        def y(self, v):
            log.append((self.n, "y", v))
            self._y = v

    class Slots:
        __slots__ = ("x", "y", "__weakref__")

        def __init__(self):
            self.x = self.y = "init"

    class SlotsNW:
        __slots__ = ("x", "y")

        def __init__(self):
            self.x = self.y = "init"

    class AlwaysEq(Plain):
        def __eq__(self, o):
            return True

        __hash__ = None

        def __bool__(self):
            return False

    class UserMap:
        def __init__(self):
            self.d = {"x": "init", "y": "init"}

        def __setitem__(self, k, v):
            log.append((self.n, k, v))
            self.d[k] = v

        def __getitem__(self, k):
            return self.d[k]

        def __len__(self):
            return 0

    class EqMap(UserMap):
        def __eq__(self, o):
            return True

        __hash__ = None

    class DictSub(dict):
        __slots__ = ("__weakref__", "n")

    MK = {"plain": Plain, "prop": Prop, "slots": Slots, "slots_noweak": SlotsNW, "alwayseq": AlwaysEq,
          "usermap": UserMap, "eqmap": EqMap, "dict": dict, "list": lambda: ["init", "init"], "dictsub": DictSub}
    WEAK = {"plain", "prop", "slots", "alwayseq", "usermap", "eqmap", "dictsub"}
    LOGS = {"prop", "usermap", "eqmap"}

    objs = {}
    state = {}  # n -> {key: value}
    gen = [0]

    def kind(t):
        return KINDS[t % len(KINDS)]

    def target(t):
        if t not in objs:
            gen[0] += 1
            o = MK[kind(t)]()
            if kind(t) in LOGS:
                o.n = gen[0]
            objs[t] = o
            ids[t] = gen[0]
            k = kind(t)
            if k in ("dict", "dictsub"):
                state[t] = {}
            elif k == "list":
                state[t] = {0: "init", 1: "init"}
            else:
                state[t] = {"x": "init", "y": "init"}
        return objs[t]

    def keyof(t, k):
        if kind(t) == "list":
            return k
        return ATTRS[k]

    where = case["where"]
    ctx.label("on-" + where)
    owner = None
    if where == "owner":
        owner = type("E", (), {"sig": Signal(int, int, int, int)})()
        sig = owner.sig
    elif where == "field":  # the signal of a field of an evented dataclass
        from dataclasses import make_dataclass

        from psygnal import SignalGroupDescriptor

        owner = make_dataclass("D", [("a", int, -1), ("b", int, -1)],
                               namespace={"events": SignalGroupDescriptor()})()
        sig = owner.events.a
    elif where == "group":  # the signal that relays all signals of a group
        owner = type("G", (SignalGroup,), {"a": Signal(int, int, int, int), "b": Signal(int)})()
        sig = owner.all
    else:
        sig = SignalInstance((int, int, int, int))
    model = []  # dict(t, key, max, prio, handle) | dict(fn=)
    handles = []
    val = [0]

    def fire(args):
        if where == "group":
            owner.a.emit(*args)
        elif where == "field" and len(args) == 1:
            old = owner.a
            owner.a = args[0]
            return (args[0], old)
        else:
            sig.emit(*args)
        return args

    def relayed(args):
        return EmissionInfo(owner.a, args)

    def add(m):
        pos = next((i for i, o in enumerate(model) if o["prio"] < m["prio"]), len(model))
        model.insert(pos, m)

    def cut(args, m):
        a = args if m["max"] is None else args[: m["max"]]
        return a[0] if len(a) == 1 else a

    def deliver(args, want):
        """Apply one emission to the model."""
        n = 0
        if where == "group":
            args = (relayed(args),)
        for m in model:
            if "fn" in m:
                want.append((m["fn"], args))
                continue
            n += 1
            v = cut(args, m)
            state[m["t"]][m["key"]] = v
            if kind(m["t"]) in LOGS:
                want.append((ids[m["t"]], m["key"], v))
        ctx.nontrivial(n >= 2)
        if n >= 2:
            ctx.label("multi-binding")

    def look(t, key):
        o = objs[t]
        if kind(t) in ATTR_T:
            return getattr(o, key)
        return o[key]

    def verify(what):
        for t in objs:
            for key, v in state[t].items():
                got = look(t, key)
                if type(got) is not type(v) or got != v:
                    raise Violation(f"{what}: {kind(t)}.{key} is {got!r}, expected {v!r}")
            if kind(t) in ("dict", "dictsub"):
                eq(set(objs[t]), set(state[t]), f"{what}: keys of {kind(t)}")
        eq(len(sig), len(model), f"{what}: len(signal)")

    def args_of(n):
        out = []
        for _ in range(n):
            val[0] += 1
            out.append(val[0])
        return tuple(out)

    def emit(args):
        log.clear()
        want = []
        old = owner.a if where == "field" and len(args) == 1 else None
        deliver(args if old is None else (args[0], old), want)
        fire(args)
        eq(log, want, f"stores and calls of emit{args}")

    for op in case["ops"]:
        w = op[0]
        if w == "conn":
            _, t, k, maxargs, prio, how = op
            o = target(t)
            key = keyof(t, k)
            item = kind(t) in ITEM_T
            if how == "partial":
                if kind(t) in ("dict", "list", "dictsub"):
                    o = None
                    continue  # builtin methods, not equivalent bindings
                f = partial(o.__setitem__, key) if item else partial(setattr, o, key)
                if maxargs in (None, "default"):
                    maxargs = 1  # what those callables take
                sig.connect(f, max_args=maxargs, priority=prio, on_ref_error="ignore")
                h = None
                f = None
                ctx.label("partial")
            else:
                opt = {} if maxargs == "default" else {"maxargs": maxargs}
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore", FutureWarning)
                    bind = sig.connect_setitem if item else sig.connect_setattr
                    if prio:  # (0 is the default)
                        opt["priority"] = prio
                    h = bind(o, key, on_ref_error="ignore", **opt)
                if maxargs == "default":
                    # documented: attributes follow the new value of a field; elsewhere all values are stored
                    maxargs = 1 if where == "field" and not item else None
                    ctx.label("default-maxargs")
            m = {"t": t, "key": key, "max": maxargs, "prio": prio}
            if h is not None:
                handles.append((h, t, key))
                h = None
            add(m)
            o = None
        elif w == "fn":
            tag = f"f{len(model)}-{val[0]}"
            val[0] += 1

            def f(*a, tag=tag):
                log.append((tag, a))

            sig.connect(f, priority=op[1]) if op[1] else sig.connect(f)
            add({"fn": tag, "prio": op[1]})
        elif w == "emit":
            emit(args_of(op[1]))
        elif w == "disc":
            _, t, k, missing_ok = op
            o = target(t)
            key = keyof(t, k)
            present = next((m for m in model if m.get("t") == t and m.get("key") == key), None)
            call = sig.disconnect_setitem if kind(t) in ITEM_T else sig.disconnect_setattr
            try:
                call(o, key) if missing_ok else call(o, key, missing_ok=False)
            except ValueError:
                check(present is None and not missing_ok, "disconnect of a connected binding raised ValueError")
            else:
                check(present is not None or missing_ok, "disconnecting a missing binding did not raise")
                if present is not None:
                    model.remove(present)
                    ctx.label("disconnected")
            o = None
        elif w == "handle":
            if not handles:
                continue
            h, t, key = handles[op[1] % len(handles)]
            if t not in objs:
                continue
            present = next((m for m in model if m.get("t") == t and m.get("key") == key), None)
            try:
                sig.disconnect(h, missing_ok=False)
            except ValueError:
                check(present is None, "disconnect(handle) of a connected binding raised ValueError")
            else:
                check(present is not None, "disconnect(handle) of a missing binding did not raise")
                model.remove(present)
                ctx.label("by-handle")
            h = None
        elif w == "partial_disc":
            _, t, k = op
            if kind(t) in ("dict", "list", "dictsub"):
                continue
            o = target(t)
            key = keyof(t, k)
            f = partial(o.__setitem__, key) if kind(t) in ITEM_T else partial(setattr, o, key)
            if kind(t) in ("slots_noweak",):
                f = o = None
                continue  # comparing would warn about the missing weak reference
            present = next((m for m in model if m.get("t") == t and m.get("key") == key), None)
            eq(f in sig, present is not None, "partial binding in signal")
            sig.disconnect(f)
            if present is not None:
                model.remove(present)
            f = o = None
        elif w == "bad":
            _, t, what, missing_ok = op
            o = target(t)
            if what == "attr":
                if kind(t) in ("dictsub",):
                    o = None
                    continue
                try:
                    sig.connect_setattr(o, "no_such_attr", 1, on_ref_error="ignore")
                except AttributeError:
                    pass
                else:
                    raise Violation("connect_setattr to a missing attribute did not raise AttributeError")
                ctx.label("bad-attr")
            else:
                if kind(t) in ITEM_T:
                    o = None
                    continue
                for f in (sig.connect_setitem, sig.disconnect_setitem):
                    try:
                        f(o, "x", 1)
                    except TypeError:
                        pass
                    else:
                        raise Violation(f"{f.__name__} on an object without __setitem__ did not raise TypeError")
                ctx.label("bad-item")
            if kind(t) not in WEAK and what == "attr" and kind(t) == "slots_noweak":
                try:
                    sig.connect_setattr(o, "x", 1, on_ref_error="raise")
                except (TypeError, ReferenceError):
                    pass
                else:
                    raise Violation("on_ref_error='raise' did not raise")
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    sig.connect_setattr(o, "x", 1, priority=-99)
                check(any("weakref" in str(r.message) for r in rec), "no warning about the strong reference")
                add({"t": t, "key": "x", "max": 1, "prio": -99})
            o = None
        elif w == "drop":
            t = op[1]
            if t not in objs:
                continue
            if kind(t) in WEAK:
                r = weakref.ref(objs[t])
                # handles do not keep the target alive
                del objs[t]
                check(r() is None, "a binding keeps its %s target alive", kind(t))
                n0 = len(model)
                model[:] = [m for m in model if m.get("t") != t]
                if len(model) < n0:
                    ctx.label("dropped")
            else:
                # the signal keeps it (strong reference): forget nothing
                continue
            handles[:] = [h for h in handles if h[1] != t]
        elif w == "block":
            with sig.blocked():
                fire(args_of(op[1]))
        elif w == "pause":
            vals = [args_of(n) for n in op[1]]
            log.clear()
            want = []
            with sig.paused():
                vals = [fire(a) for a in vals]
                verify("while paused")
            for a in vals:
                deliver(a, want)
            eq(log, want, "stores on resume")
        elif w == "discall":
            sig.disconnect()
            model.clear()
        verify(f"after {op}")
    emit(args_of(1))
    verify("end")
    emit(args_of(3))
    verify("end")


REGRESSIONS = []
