"""C26: a weak callback calls, compares and dies like the callable it was made from."""
from __future__ import annotations

import gc
import warnings
import weakref
from functools import partial

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C26"
RULE = (
    "A case is 1-4 weak_callback() calls (22 kinds of callables, nested partials and curried functions with bound "
    "positional and keyword arguments, extra bound arguments, max_args, finalize, strong_func, on_ref_error) on a few "
    "objects, and a history of calls (cb and __call__), dereferences, comparisons and dropped objects. Oracle: the "
    "callable itself, called on a twin of the object with the bound and cut arguments. Non-trivial: a callback with "
    "bound arguments or max_args is called, and an object with callbacks is dropped."
)
ASSUMPTIONS = ["reference counting frees objects at once",
               "on_ref_error='raise' may raise TypeError (pinned by a test) instead of the documented ReferenceError",
               "extra bound arguments given to weak_callback itself (not by a partial) are only passed on by kinds "
               "other than setattr and __setitem__, where they are the name or key"]
QUICK, THOROUGH = 1600, 40000
QUICK_S = 12

KINDS = ["meth", "func", "lambda", "callobj", "static", "clsm", "cls", "append", "extend", "dset", "dsetu", "uset", "setattr",
         "setattr_m", "super", "wraps", "noref", "noref_meth", "extend", "bigmeth", "curry", "self"]
N_OBJ = 3


def strategy(tier):
    make = st.fixed_dictionaries({
        "obj": st.integers(0, N_OBJ - 1),
        "kind": st.sampled_from(KINDS),
        "bound": st.lists(st.integers(0, 3), max_size=2),
        "more": st.lists(st.integers(4, 6), max_size=2),  # bound by an outer partial
        "extra": st.lists(st.integers(7, 9), max_size=1),  # arguments of weak_callback
        "kw": st.sampled_from([None, None, None, "k", "z"]),
        # like the first one but for this
        "like": st.sampled_from([None, None, None, "same", "bound", "more", "extra", "kw", "kwv", "obj", "max", "wrap"]),
        "kwv": st.sampled_from([3, 3, 0, ""]),
        "wrap": st.sampled_from(["none", "partial", "partial2", "curry"]),
        "max": st.sampled_from([None, None, 0, 1, 2]),
        "fin": st.booleans(),
        "strong": st.sampled_from([True, True, True, False]),
        "ref": st.sampled_from(["warn", "ignore", "raise"]),
        "prio": st.sampled_from([0, 0, 0, 3, -2]),
    })
    op = st.one_of(
        st.tuples(st.just("cb"), st.integers(0, 3), st.integers(0, 3)).map(list),
        st.tuples(st.just("cb"), st.integers(0, 3), st.integers(0, 3)).map(list),
        st.tuples(st.just("call"), st.integers(0, 3), st.integers(0, 3), st.booleans()).map(list),
        st.tuples(st.just("deref"), st.integers(0, 3), st.integers(0, 2)).map(list),
        st.tuples(st.just("eq"), st.integers(0, 3), st.integers(0, 3)).map(list),
        st.tuples(st.just("drop"), st.integers(0, N_OBJ - 1)).map(list),
    )
    return st.fixed_dictionaries({
        "makes": st.lists(make, min_size=1, max_size=4),
        "ops": st.lists(op, min_size=2, max_size=10 if tier == "quick" else 30),
    })


class Base:
    def rec(self, *a, **k):
        self.log.append(("base", a, k))
        return ("base", a, k)

    def sup(self, *a, **k):
        return Base.rec(self, *a, **k)


class O(Base):
    def __init__(self):
        self.log = []

    def meth(self, *a, **k):
        self.log.append(("meth", a, k))
        return ("meth", a, k)

    def strictm(self, a, b=0, *, z=0):
        self.log.append(("big", a, b, z))
        return a, b, z

    def sup(self, *a, **k):
        raise Violation("the overriding method was called")

    def get_super(self):
        return super().sup

    def __call__(self, *a, **k):
        self.log.append(("call", a, k))
        return ("call", a, k)

    def __setitem__(self, key, value):
        self.log.append(("item", key, value))


class Falsy(O):
    def __bool__(self):
        return False


class Noref:
    __slots__ = ("log",)

    def __init__(self):
        self.log = []

    meth = O.meth
    __call__ = O.__call__


def twin(kind, falsy=False):
    """A new object for callables of the kind, and a function giving its state."""
    if kind in ("append", "extend"):
        o = type("L", (list,), {"__hash__": object.__hash__})()
        return o, lambda o: list(o)
    if kind in ("dset", "dsetu"):
        o = type("D", (dict,), {"__hash__": object.__hash__})()
        return o, lambda o: dict(o)
    if kind in ("noref", "noref_meth"):
        return Noref(), lambda o: list(o.log)
    if kind == "clsm":
        class K:
            log = []

            @classmethod
            def f(cls, *a, **k):
                cls.log.append((a, k))
                return a, k
        return K, lambda o: list(o.log)
    if kind == "cls":
        class K2:
            log = []

            def __init__(self, *a, **k):
                self.log.append((a, k))

            def __eq__(self, o):
                return type(o).__name__ == "K2"
        return K2, lambda o: list(o.log)
    if kind in ("func", "lambda", "static", "wraps", "curry"):
        log = []
        if kind == "lambda":
            f = lambda *a, **k: (log.append((a, k)), a, k)[1:]  # noqa: E731
        else:
            def f(*a, **k):
                log.append((a, k))
                return a, k
        f.log = log  # (a cycle-free way to reach the record)
        if kind == "wraps":
            import functools

            inner = f

            @functools.wraps(inner)
            def g(*a, **k):
                return inner(*a, **k)
            g.log = log
            return g, lambda o: list(o.log)
        return f, lambda o: list(o.log)
    return (Falsy if falsy else O)(), lambda o: (list(o.log), {k: v for k, v in o.__dict__.items() if k != "log"})


def base_callable(kind, o):
    """(callable, number of leading arguments that are fixed by its kind)."""
    if kind == "meth":
        return o.meth
    if kind == "bigmeth":
        return o.strictm
    if kind in ("func", "lambda", "static", "wraps", "callobj", "cls", "noref", "curry", "self"):
        return o
    if kind == "clsm":
        return o.f
    if kind == "append":
        return o.append
    if kind == "extend":
        return o.insert
    if kind == "dset":
        return o.__setitem__
    if kind == "dsetu":
        return o.update
    if kind == "uset":
        return o.__setitem__
    if kind == "setattr":
        return partial(setattr, o)
    if kind == "setattr_m":
        return o.__setattr__
    if kind == "super":
        return o.get_super()
    if kind == "noref_meth":
        return o.meth
    raise AssertionError(kind)


STRONG = {"func", "lambda", "static", "wraps", "curry"}
ATTR = {"setattr", "setattr_m"}


def run_case(case, ctx):
    from psygnal._weak_callback import WeakCallback, weak_callback

    real = {}  # (obj, group of kinds) -> object
    ref = {}

    def family(kind):
        if kind in ("append", "extend"):
            return "L"
        if kind in ("dset", "dsetu"):
            return "D"
        if kind in ("noref", "noref_meth"):
            return "N"
        if kind in ("clsm", "cls", "lambda", "wraps", "curry", "func", "static"):
            return kind
        return "O"

    def objs(j, kind):
        k = (j, family(kind))
        if k not in real:
            real[k] = twin(kind, j == 1)
            ref[k] = twin(kind, j == 1)
        return real[k][0], ref[k][0]

    def build(m, o):
        kind = m["kind"]
        c = base_callable(kind, o)
        bound = tuple(m["bound"])
        more = tuple(m["more"])
        kw = {m["kw"]: m.get("kwv", 3)} if m["kw"] else {}
        if kind in ATTR:
            bound = tuple("xyzw"[b] if i == 0 else b for i, b in enumerate(bound))
        if m["wrap"] == "none" and not (kind == "setattr" and m["bound"]):
            return c
        if m["wrap"] in ("curry",) and callable(c) and kind not in ("cls", "noref", "self", "callobj"):
            import toolz

            if m["more"]:
                return partial(toolz.curry(c, *bound), *more, **kw)
            if bound or kw:
                return toolz.curry(c, *bound, **kw)
            return c
        if m["wrap"] == "partial2":
            return partial(partial(c, *bound), *more, **kw)
        return partial(c, *bound, **kw)

    wcbs = []  # dict or None
    dead = set()
    finalized = []

    first = case["makes"][0]
    makes = [{**first, m["like"]: m.get(m["like"])} if m.get("like") else m for m in case["makes"]]
    for i, m in enumerate(makes):
        o, r = objs(m["obj"], m["kind"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c, rc = build(m, o), build(m, r)
        extra = tuple(m["extra"])
        if m["kind"] in ATTR and m["wrap"] == "none" and extra:
            extra = ()
        kwargs = dict(max_args=m["max"], strong_func=m["strong"], on_ref_error=m["ref"])
        if m.get("prio"):
            kwargs["priority"] = m["prio"]
        if m["fin"]:
            kwargs["finalize"] = lambda w, i=i: finalized.append((i, w))
        noref = m["kind"] in ("noref", "noref_meth")
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                w = weak_callback(c, *extra, **kwargs)
            except (TypeError, ReferenceError):
                check(noref and m["ref"] == "raise", "weak_callback(%s) failed", m)
                wcbs.append(None)
                ctx.label("refused")
                c = rc = o = r = None
                continue
        check(not (noref and m["ref"] == "raise"), "no error for an object without weak references")
        eq(bool(ws), noref and m["ref"] == "warn", "warning about an object without weak references")
        check(isinstance(w, WeakCallback), "weak_callback gave %r", w)
        check(weak_callback(w) is w, "weak_callback of a weak callback is another one")
        eq(w.priority, m.get("prio", 0), "priority of weak_callback(%s)" % m)
        if extra:
            rc = partial(rc, *extra)
        holds = (m["kind"] in STRONG and m["strong"]) or noref
        wcbs.append({"w": w, "m": m, "rc": rc, "key": (m["obj"], family(m["kind"])), "holds": holds})
        c = rc = o = r = None

    called_bound = dropped = False

    def state(k):
        return real[k][1](real[k][0]), ref[k][1](ref[k][0])

    def outcome(f):
        try:
            return "ok", f()
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            return "err", type(e)

    sets = {"setattr"}

    for op in case["ops"]:
        got = want = None
        if op[0] == "drop":
            j = op[1]
            for k in [k for k in real if k[0] == j]:
                users = [e for e in wcbs if e and e["key"] == k]
                o = real[k][0]
                try:
                    wr = weakref.ref(o)
                except TypeError:
                    continue
                if any(e["holds"] for e in users):
                    o = None
                    continue  # a function kept by its callback
                expected = sorted(i for i, e in enumerate(wcbs) if e and e["key"] == k and e["m"]["fin"])
                finalized.clear()
                if k[1] in ("cls", "clsm"):
                    real[k] = (None, real[k][1])
                    o = None
                    gc.collect()
                else:
                    real[k] = (None, real[k][1])
                    o = None
                if users:
                    dropped = True
                check(wr() is None, "the object of %s is kept alive by weak callbacks", [e["m"]["kind"] for e in users])
                eq(sorted(i for i, _ in finalized), expected, "callbacks finalized when object %s died" % (k,))
                for i, w in finalized:
                    check(w is wcbs[i]["w"], "finalize got another callback")
                finalized.clear()
                dead.add(k)
                ctx.label("drop:" + k[1])
            continue
        i = op[1] % len(wcbs)
        e = wcbs[i]
        if e is None:
            continue
        w, m = e["w"], e["m"]
        if hasattr(w, "slot_repr"):
            check(isinstance(w.slot_repr(), str) and isinstance(repr(w), str), "slot_repr() of %s", m)
        if op[0] == "eq":
            e2 = wcbs[op[2] % len(wcbs)]
            if e2 is None or e["key"] in dead or e2["key"] in dead:
                continue
            sig1, sig2 = _identity(e["m"]), _identity(e2["m"])
            if sig1 is None or sig2 is None:
                continue
            same = e is e2 or (e["key"] == e2["key"] and sig1 == sig2)
            eq(e["w"] == e2["w"], same, "equality of the callbacks %s and %s" % (e["m"], e2["m"]))
            eq(e["w"] != e2["w"], not same, "inequality of callbacks")
            continue
        got = want = None
        if e["key"] in dead:
            ctx.label("dead")
            if op[0] == "deref":
                check(w.dereference() is None, "a dead callback dereferences to %r", w.dereference())
                continue
            try:
                w.cb((1,)) if op[0] == "cb" else w(1)
            except ReferenceError:
                pass
            else:
                raise Violation(f"calling a dead callback ({m['kind']}) did not raise ReferenceError")
            continue
        if op[0] in ("cb", "call"):
            args = tuple(100 + x for x in range(op[2]))
            if m["kind"] == "setattr_m" and m["wrap"] == "none" or m["kind"] in ATTR and not m["bound"]:
                args = ("q",) + args[1:] if args else args
            cut = args if m["max"] is None else args[: m["max"]]
            kw = {"z": 5} if op[0] == "call" and op[3] else {}
            special = m["kind"] in ("setattr", "uset") and _n_fixed(m) == 1 and not (
                m["kw"] and (m["wrap"] != "none" or m["kind"] == "setattr" and m["bound"]))
            rc = e["rc"]
            if op[0] == "cb" and special and len(cut) != 1:
                cut = (cut,)  # these callbacks store a tuple of several values
            want = outcome(lambda: rc(*cut, **kw))
            if m["wrap"] == "curry" and type(want[1]).__name__ == "curry":
                continue  # a curried function without all its arguments
            if op[0] == "cb":
                got = outcome(lambda: w.cb(args))
                got = got if got[0] == "err" else ("ok", None)
                want = want if want[0] == "err" else ("ok", None)
            else:
                got = outcome(lambda: w(*args, **kw))
            eq(got, want, "%s of %s with %s" % (op[0], m, args))
            a, b = state(e["key"])
            eq(a, b, "effect of %s of %s with %s" % (op[0], m, args))
            if m["bound"] or m["max"] is not None:
                called_bound = True
            ctx.label("call:" + m["kind"])
        elif op[0] == "deref":
            f = w.dereference()
            check(f is not None, "a living callback dereferences to None")
            args = tuple(50 + x for x in range(op[2]))
            if m["kind"] in ATTR and not m["bound"]:
                args = ("q",) + args[1:] if args else args
            rc = e["rc"]
            want = outcome(lambda: rc(*args))
            got = outcome(lambda: f(*args))
            f = None
            if m["wrap"] == "curry" and type(want[1]).__name__ == "curry":
                continue
            eq(got, want, "call of the dereferenced %s with %s" % (m, args))
            a, b = state(e["key"])
            eq(a, b, "effect of the dereferenced %s with %s" % (m, args))
    if called_bound and dropped:
        ctx.nontrivial()


def _bound(m):
    kind = m["kind"]
    if m["wrap"] == "none" and not (kind == "setattr" and m["bound"]):
        b = ()
    elif m["wrap"] == "partial2" or (m["wrap"] == "curry" and kind not in ("cls", "noref", "self", "callobj")):
        b = tuple(m["bound"]) + tuple(m["more"])
    else:
        b = tuple(m["bound"])
    if not (kind in ATTR and m["wrap"] == "none"):
        b += tuple(m["extra"])
    return b


def _n_fixed(m):
    return len(_bound(m))


def _identity(m):
    """What makes two callbacks of one object equal; None where that is not specified."""
    kind = m["kind"]
    if kind in ("setattr", "uset", "setattr_m", "dset"):
        return None
    kw = m["kw"] if m["wrap"] in ("partial", "partial2", "curry") else None
    if kind in ("extend",):
        kind = "insert"
    name = {"self": "callobj", "static": "func"}.get(kind, kind)
    return name, _bound(m), kw and (kw, m.get("kwv", 3))
