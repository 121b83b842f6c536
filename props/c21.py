"""C21: EventedObjectProxy behaves as the wrapped object and reports the changes."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import check, eq

ID = "C21"
RULE = (
    "A case is a kind of object (list, dict, defaultdict, set, bytearray, deque, array, plain object with properties "
    "that raise or cannot be read, slotted object, object with all in-place methods, callables) and a history of "
    "attribute, item, deletion, in-place and call operations, reads, method calls, second proxies and re-created "
    "proxies. Oracle: the same operations on an identically built object that is not proxied (results, exception "
    "types, state), and the events predicted from that object. Non-trivial: at least two events and one operation "
    "that failed or changed nothing."
)
ASSUMPTIONS = [
    "in-place operators are only judged on objects that define the in-place method, or where the operation fails",
    "a set that leaves the identical object in place emits nothing; values are compared by identity as documented by the tests",
    "a target's own attribute named 'events' is shadowed by design; copying and pickling proxies is refused by wrapt",
]
QUICK, THOROUGH = 4000, 100000
QUICK_S = 20
TARGETS = ["list", "dict", "ddict", "set", "bytearray", "deque", "array", "array2", "farray", "plain", "slots", "setonly", "iops", "func", "callobj", "module", "boolish"]
VALS = [0, 1, 2, "one", True, 1.0, "big", "big2", None, "l", "l2", "s1", "s2", "d1", "str", "tup", "b1", "arr", "nan", "gen", "fn"]
ATTRS = ["x", "y", "prop", "ro", "wo", "boom", "boomset", "fresh", "cls", "count", "nope", "_priv", "__doc__", "__name__", "dyn"]
KEYS = [0, 1, -1, 5, "a", "b", "sl", "sl0", "slstep", "slend", None, "t1", "unh", "big", 1.0, True, "ell", "mask"]
IOPS = ["add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "xor", "or"]
READS = ["repr", "str", "len", "eq", "ne", "lt", "iter", "in", "hash", "bool", "isinstance", "class", "dir", "add", "radd", "mul", "getitem", "getattr", "reversed", "format", "callable", "int", "doc"]


def strategy(tier):
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    a, k, v = st.sampled_from(ATTRS), st.sampled_from(KEYS), st.sampled_from(VALS)
    w = st.integers(0, 1)
    op = st.one_of(
        T("setattr", w, a, v), T("setattr", w, a, v), T("setattrsame", w, a), T("delattr", w, a), T("setitem", w, k, v), T("setitem", w, k, v),
        T("setitemsame", w, k), T("delitem", w, k), T("iop", w, st.sampled_from(IOPS), v), T("iop", w, st.sampled_from(IOPS), v),
        T("iopself", w, st.sampled_from(IOPS)), T("call", w, st.lists(v, max_size=2), st.lists(st.tuples(st.sampled_from(["a", "self", "args"]), v).map(list), max_size=2)),
        T("read", w, st.sampled_from(READS), k, v), T("method", w, st.sampled_from(["append", "update", "clear", "add", "bump", "pop", "sort", "fill"]), v),
        T("reproxy", w), T("raising", w, a, v), T("viaevents", w, v),
    )
    return st.fixed_dictionaries({
        "target": st.sampled_from(TARGETS),
        "callproxy": st.booleans(),
        "second": st.booleans(),
        "ops": st.lists(op, min_size=2, max_size=12 if tier == "quick" else 40),
    })


def _targets():
    import collections
    import types

    import numpy as np

    class Plain:
        cls = 7

        def __init__(self):
            self.x, self.y, self._v, self.n = 1, "one", 3, 0

        @property
        def prop(self):
            return self._v

        @prop.setter
        def prop(self, v):
            self._v = v

        @property
        def ro(self):
            return 5

        def wo(self, v):
            self.w = v

        wo = property(None, wo)

        @property
        def boom(self):
            raise ValueError("boom")

        @boom.setter
        def boom(self, v):
            self.b = v

        @property
        def boomset(self):
            return self.x

        @boomset.setter
        def boomset(self, v):
            raise KeyError("boomset")

        @property
        def fresh(self):
            return [self._v]

        @fresh.setter
        def fresh(self, v):
            self._v = v

        @property
        def count(self):
            return self.n

        @count.setter
        def count(self, v):
            self.n += 1

        def bump(self, v=None):
            self.n += 1
            return self.n

    class Slots:
        __slots__ = ("x", "y", "__weakref__")

        def __init__(self):
            self.x = 1

        def __getitem__(self, k):
            if k == 5:
                raise RuntimeError("five")
            return getattr(self, "xy"[k])

        def __setitem__(self, k, v):
            setattr(self, "xy"[k], v)

        def __delitem__(self, k):
            delattr(self, "xy"[k])

    class SetOnly:
        def __init__(self):
            self.log = []

        def __setitem__(self, k, v):
            self.log.append((repr(k), v))

        def __delitem__(self, k):
            if k == 1:
                raise RuntimeError("one")
            self.log.append(repr(k))

    class Boolish(Plain):
        """Values whose truth or equality cannot be used, falsy container."""

        __hash__ = None

        def __bool__(self):
            raise RuntimeError("no truth")

        def __eq__(self, o):
            raise RuntimeError("no equality")

    ns = {"x": 0}

    def init(self):
        self.vals = []

    ns["__init__"] = init

    def mk(n):
        def f(self, other):
            if other == 0 and other is not False:
                raise ZeroDivisionError
            if other == 2:
                return NotImplemented
            self.vals.append((n, other))
            return self

        return f

    for n in IOPS:
        ns[f"__i{n}__"] = mk(n)
    IOps = type("IOps", (), ns)

    def func():
        def f(*args, **kwargs):
            "doc"
            f.calls.append((args, kwargs))
            if args and args[0] is None:
                raise LookupError("none")
            return (len(args), sorted(kwargs))

        f.calls = []
        return f

    class CallObj(Plain):
        def __call__(self, a=1, *args, **kw):
            if a is None:
                raise LookupError("none")
            self.n += 1
            return self.n

    return {
        "list": lambda: [1, 2, "one"], "dict": lambda: {"a": 1, 0: 2}, "ddict": lambda: collections.defaultdict(list, {"a": 1}),
        "set": lambda: {1, "one"}, "bytearray": lambda: bytearray(b"abc"), "deque": lambda: collections.deque([1, 2], maxlen=3),
        "array": lambda: np.array([1, 2, 3]), "array2": lambda: np.eye(2), "farray": lambda: np.array([0.5, 2.0]),
        "plain": Plain, "slots": Slots, "setonly": SetOnly, "iops": IOps, "func": func, "callobj": CallObj,
        "module": lambda: types.ModuleType("m", "d"), "boolish": Boolish,
    }


def snap(o):
    """State of a target, comparable between two of the same kind."""
    import collections

    import numpy as np

    if isinstance(o, np.ndarray):
        return [o.dtype.str, o.shape, repr(o.tolist())]
    if isinstance(o, np.generic):
        return [o.dtype.str, repr(o.tolist())]
    if type(o) in (list, tuple):
        return [type(o).__name__, *[snap(x) for x in o]]
    if isinstance(o, collections.deque):
        return ["deque", *map(snap, o)]
    if isinstance(o, dict):
        return [type(o).__name__, [(snap(k), snap(v)) for k, v in o.items()]]
    if isinstance(o, (set, frozenset)):
        return sorted(map(repr, o))
    if isinstance(o, (int, float, str, bytes, bytearray, type(None), slice, type(...), type(NotImplemented))):
        return (type(o).__name__, repr(o))
    if hasattr(type(o), "__slots__") and not hasattr(o, "__dict__"):
        return [snap(getattr(o, s, "unset")) for s in ("x", "y")]
    if isinstance(o, type) or not hasattr(o, "__dict__") or (callable(o) and getattr(o, "is_shared", False) is True):
        return ("id", id(o))
    import types

    extra = []
    if isinstance(o, types.FunctionType):
        extra = [o.__name__, o.__doc__]
    d = {k: v for k, v in vars(o).items() if k not in ("__builtins__",)}
    return [type(o).__qualname__, extra, [(k, snap(v)) for k, v in d.items()]]


def run_case(case, ctx):
    import gc
    import operator

    import numpy as np

    from psygnal import EmitLoopError
    from psygnal.containers import EventedCallableObjectProxy, EventedObjectProxy

    def shared():
        pass

    shared.is_shared = True
    nan = float("nan")
    pool = {"big": 10**20, "big2": 10**19 * 10, "l": [1, 2], "l2": [1, 2], "s1": {1, 3}, "s2": frozenset([1]), "d1": {"b": 2},
            "tup": (1, 2), "b1": b"xy", "arr": np.array([1, 2]), "nan": nan, "fn": shared, "str": "abc"}

    def val(v):
        return pool.get(v, v) if isinstance(v, str) else v

    keyp = {"sl": slice(0, 2), "sl0": slice(0, 0), "slstep": slice(None, None, 2), "slend": slice(1, None), "t1": (0, 1), "unh": [0], "big": 10**20, "ell": ..., "mask": slice(None, None, -1)}

    def key(k):
        return keyp.get(k, k) if isinstance(k, str) else k

    build = _targets()[case["target"]]
    ref, real = build(), build()
    kind = case["target"]
    cp = case["callproxy"] and callable(ref)
    cls = EventedCallableObjectProxy if cp else EventedObjectProxy

    raised = {"on": False}
    logs = {0: [], 1: []}

    def mkproxy(i):
        p = cls(real)
        log = []

        def rec(info):
            log.append((info.signal.name, info.args, snap(real)))
            if raised["on"]:
                raise RuntimeError("listener")

        p.events.connect(rec, check_nargs=False)
        # the individual signals say the same as the group
        log2 = []
        for n, s in p.events.signals.items():
            s.connect(lambda *a, n=n: log2.append((n, a)), check_nargs=False, priority=5)
        return [p, log, log2]

    P = [mkproxy(0), mkproxy(1) if case["second"] else None]
    stale = []
    nev = nfail = 0
    MISSING = object()

    def outcome(f):
        try:
            return ("ok", f())
        except Exception as e:
            return ("exc", type(e))

    def get(g, o, k):
        try:
            return g(o, k)
        except Exception:
            return MISSING

    def call_outcome(f):
        o = outcome(f)
        return o

    for i, op in enumerate(case["ops"]):
        name = op[0]
        w = op[1] if P[1] is not None else 0
        p, log, log2 = P[w]
        for q in P:
            if q:
                q[1].clear(), q[2].clear()
        want = []
        where = f"op {i} {op} on {kind}"
        silent = False

        if name in ("setattr", "setattrsame", "raising"):
            attr = op[2]
            if name == "setattrsame":
                v = get(getattr, ref, attr)
                v2 = get(getattr, real, attr)
                if v is MISSING or v2 is MISSING:
                    continue
                if v is not v2 and snap(v) != snap(v2):
                    v2 = v  # bound to its own object
            else:
                v = v2 = val(op[3])
            before = get(getattr, ref, attr)
            r1 = outcome(lambda: setattr(ref, attr, v))
            after = get(getattr, ref, attr)
            if name == "raising":
                raised["on"] = True
            r2 = outcome(lambda: setattr(p, attr, v2))
            raised["on"] = False
            if r1[0] == "ok":
                if after is MISSING:
                    want = [("attribute_set", (attr, v))]
                elif before is not after:
                    want = [("attribute_set", (attr, after))]
            if name == "raising" and want:
                eq(r2, ("exc", EmitLoopError), f"{where}: outcome with a raising listener")
                r2 = r1
            ctx.label("setattr-" + ("event" if want else r1[0]))
        elif name == "delattr":
            r1, r2 = outcome(lambda: delattr(ref, op[2])), outcome(lambda: delattr(p, op[2]))
            if r1[0] == "ok":
                want = [("attribute_deleted", (op[2],))]
        elif name in ("setitem", "setitemsame"):
            k = key(op[2])
            if name == "setitemsame":
                if kind.startswith(("array", "farray")) or kind == "ddict":
                    continue
                v = get(operator.getitem, ref, k)
                if v is MISSING:
                    continue
                v2 = get(operator.getitem, real, k)
            else:
                v = v2 = val(op[3])
            before = get(operator.getitem, ref, k)
            r1 = outcome(lambda: operator.setitem(ref, k, v))
            after = get(operator.getitem, ref, k)
            r2 = outcome(lambda: operator.setitem(p, k, v2))
            if r1[0] == "ok":
                if after is MISSING:
                    want = [("item_set", (k, v))]
                elif before is not after:
                    want = [("item_set", (k, after))]
            ctx.label("setitem-" + ("event" if want else r1[0]))
        elif name == "delitem":
            k = key(op[2])
            r1, r2 = outcome(lambda: operator.delitem(ref, k)), outcome(lambda: operator.delitem(p, k))
            if r1[0] == "ok":
                want = [("item_deleted", (k,))]
        elif name in ("iop", "iopself"):
            n = op[2]
            f = getattr(operator, "i" + n + ("_" if n in ("and", "or") else ""), None) or getattr(operator, "i" + n)
            supported = hasattr(type(ref), f"__i{n}__")
            if name == "iopself":
                o1, o2 = ref, p
            else:
                o1 = val(op[3])
                o2 = o1
                if isinstance(o1, str) and o1 == "gen" and kind != "iops":
                    o1, o2 = iter([1, "one"]), iter([1, "one"])
            if n == "pow" and isinstance(o1, int) and abs(o1) > 100 or n == "mul" and isinstance(o1, int) and abs(o1) > 100 or n in ("lshift",) and isinstance(o1, int) and o1 > 100:
                o1 = o2 = 3
            if hasattr(ref, "__len__") and len(ref) > 300:
                continue
            import copy

            probe = build() if kind == "module" else copy.deepcopy(ref)
            try:
                rebinds = f(probe, probe if name == "iopself" else iter([1, "one"]) if kind != "iops" and op[3] == "gen" else o1) is not probe
            except Exception:
                pass
            else:
                if rebinds or not supported:
                    continue  # depends on wrapt, not judged
            if kind in ("iops",) and name == "iopself":
                continue
            r1 = outcome(lambda: f(ref, o1))
            r2 = outcome(lambda: f(p, o2))
            if r1[0] == "ok":
                if r1[1] is not ref:
                    ctx.label("iop-rebinds")
                    continue
                check(r2[0] == "ok", "%s: raised %s", where, r2[1])
                check(r2[1] is p, "%s: gives %r instead of the proxy", where, type(r2[1]))
                r1 = r2 = ("ok", None)
                want = [("in_place", (n, o2))]
            ctx.label("iop-" + ("event" if want else "failed"))
        elif name == "call":
            if callable(ref) and not cp:
                continue  # the plain proxy is not callable
            a, kw = [val(x) for x in op[2]], {k: val(x) for k, x in op[3]}
            r1, r2 = outcome(lambda: ref(*a, **kw)), outcome(lambda: p(*a, **kw))
            if cp:
                want = [("called", (tuple(a), kw))]
                silent = True
        elif name == "read":
            k, v = key(op[3]), val(op[4])
            if op[2] == "callable" and callable(ref) and not cp or op[2] == "radd" and v is pool["arr"]:
                continue
            fn = {
                "repr": repr, "str": str, "len": len, "eq": lambda o: o == v, "ne": lambda o: o != v, "lt": lambda o: o < v,
                "iter": lambda o: list(o), "in": lambda o: v in o, "hash": hash, "bool": bool, "isinstance": lambda o: isinstance(o, type(ref)),
                "class": lambda o: o.__class__, "dir": lambda o: set(dir(o)) - {"events"}, "add": lambda o: o + v, "radd": lambda o: v + o,
                "mul": lambda o: o * 2, "getitem": lambda o: o[k], "getattr": lambda o: getattr(o, str(op[3])), "reversed": lambda o: list(reversed(o)),
                "format": lambda o: format(o), "callable": callable, "int": int, "doc": lambda o: o.__doc__,
            }[op[2]]
            if op[2] in ("repr", "str", "hash", "format", "int"):  # may contain addresses
                r1 = outcome(lambda: fn(real))
            else:
                r1 = outcome(lambda: fn(ref))
            r2 = outcome(lambda: fn(p))
            if op[2] == "dir" and r2[0] == "ok":
                check("events" in dir(p), "%s: no events in dir()", where)
            nfail -= r1[0] == "exc"
        elif name == "method":
            v = val(op[3])
            m = op[2]
            r1 = outcome(lambda: getattr(ref, m)(v) if m in ("append", "update", "add", "fill") else getattr(ref, m)())
            r2 = outcome(lambda: getattr(p, m)(v) if m in ("append", "update", "add", "fill") else getattr(p, m)())
        elif name == "viaevents":
            # the events object belongs to this proxy and stays the same
            check(p.events is p.events, "%s: events changes", where)
            r1, r2 = ("exc", AttributeError), outcome(lambda: setattr(p, "events", val(op[2])))
        elif name == "reproxy":
            old = P[w]
            stale.append(old[1:])
            before = id(old[0])
            del p, old
            P[w] = None
            gc.collect(0)
            P[w] = mkproxy(w)
            p, log, log2 = P[w]
            ctx.label("reproxy" + ("-sameid" if id(p) == before else ""))
            r1 = r2 = None
        else:
            raise AssertionError(op)

        if r1 is not None:
            eq(r2[0], r1[0], f"{where}: outcome ({r1[1]!r} / {r2[1]!r})")
            if r1[0] == "exc":
                nfail += 1
                if name not in ("iop", "iopself"):  # wrapt may use the binary operator
                    check(issubclass(r2[1], r1[1]) or issubclass(r1[1], r2[1]), "%s: raises %r instead of %r", where, r2[1], r1[1])
            elif r1[1] is not ref and r1[1] is not real:
                eq(snap(r2[1]), snap(r1[1]), f"{where}: result")
            nfail += r1[0] == "ok" and not want and name.startswith("set")
        now = snap(ref)
        eq(snap(real), now, f"{where}: state of the wrapped object")
        check(p.__wrapped__ is real, "%s: the wrapped object was exchanged", where)
        got = [(n, a) for n, a, _ in log]
        eq([n for n, _ in got], [n for n, _ in want], f"{where}: events")
        for (_, a), (_, b) in zip(got, want):
            eq(len(a), len(b), f"{where}: event arguments")
            for x, y in zip(a, b):
                if x is not y:
                    check(x is not MISSING and snap(x) == snap(y), "%s: event with %r, expected %r", where, a, b)
        if not silent:
            for _, _, s in log:
                eq(s, now, f"{where}: state of the object when the event was emitted")
        if name != "raising":
            eq([n for n, _ in log2], [n for n, _ in want], f"{where}: events of the single signals")
        for j, q in enumerate(P):
            if q and j != w:
                check(not q[1] and not q[2], "%s: events %r at the other proxy", where, q[1])
        for a, b in stale:
            if name == "reproxy":
                a.clear(), b.clear()
            check(not a and not b, "%s: event %r of a dropped proxy", where, a)
        nev += len(want)
    ctx.label("target-" + kind)
    ctx.nontrivial(nev >= 2 and nfail >= 1)


REGRESSIONS = [
    {"target": "dict", "callproxy": False, "second": False, "ops": [["setitem", 0, "b", 1], ["iop", 0, "or", "d1"], ["iop", 0, "or", 1], ["iop", 0, "add", 1]]},
    {"target": "plain", "callproxy": False, "second": False, "ops": [["setattr", 0, "boom", 1], ["setattr", 0, "wo", 1], ["setattrsame", 0, "x"]]},
    {"target": "setonly", "callproxy": False, "second": True, "ops": [["setitem", 1, "b", 1], ["delitem", 0, 1], ["reproxy", 0], ["delitem", 0, 0]]},
]
