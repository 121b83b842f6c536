"""C07: connections keep no method owner alive; dead connections vanish, alone."""
from __future__ import annotations

import gc
import threading
import types
import weakref
from functools import partial, partialmethod, wraps

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C07"
RULE = (
    "A case is a set of objects connected to a signal (or a group relay, or a signal of one of the objects) through 22 "
    "kinds of callables (also bound methods whose function dies before the object), with duplicates, priorities and "
    "thread=, plus a history of emissions, disconnections, and dropped references, also dropped from inside callbacks and while calls are queued for another thread. Checked: "
    "each dropped object is freed at once, exactly its connections are gone, everything else is called as before. "
    "Non-trivial: an object with at least one connection is dropped while other connections exist."
)
ASSUMPTIONS = ["reference counting frees objects at once; after an exception a gc.collect() is allowed for"]
QUICK, THOROUGH = 1500, 50000
QUICK_S = 20

KINDS = ["meth", "pmeth", "pmeth_kw", "pp_meth", "curry", "wrapsmeth", "partialmethod", "super", "callobj", "setattr",
         "psetattr", "setitem", "psetitem", "list_append", "set_add", "dict_setitem", "cfunc_method", "fn", "lambda", "pfn",
         "dynmeth", "pdynmeth"]
DYN = ("dynmeth", "pdynmeth")
STRONG = {"fn", "lambda", "pfn"}
BUILTIN = {"list_append", "set_add", "dict_setitem", "cfunc_method"}


def strategy(tier):
    obj = st.sampled_from([0, 1, 2, 3])
    conn = st.tuples(st.just("conn"), obj, st.sampled_from(KINDS), st.sampled_from([0, 0, 0, 1, -1]),
                     st.sampled_from([None, None, None, "cur", "other"]), st.booleans()).map(list)
    op = st.one_of(
        conn, conn,
        st.tuples(st.just("drop"), obj).map(list),
        st.tuples(st.just("drop_func"), obj).map(list),
        st.tuples(st.just("emit")).map(list),
        st.tuples(st.just("disc"), obj, st.sampled_from(KINDS)).map(list),
        st.tuples(st.just("drain")).map(list),
        st.tuples(st.just("drop_in_cb"), obj, obj).map(list),
    )
    return st.fixed_dictionaries({
        "where": st.sampled_from(["plain", "plain", "owner", "slots_owner", "group", "latest"]),
        "init": st.lists(conn, min_size=1, max_size=5),
        "ops": st.lists(op, min_size=2, max_size=16 if tier == "quick" else 40),
    })


def _run_case(case, ctx):
    import toolz
    from psygnal import Signal, SignalGroup, SignalInstance, emit_queued

    log = []
    w = {}  # things callbacks need

    class Base:
        def sup(self, v):
            log.append((self.j, "super"))
            w["cb"](self.j)

    class Obj(Base):
        def __init__(self, j):
            object.__setattr__(self, "j", j)

        def meth(self, v):
            log.append((self.j, "meth"))
            w["cb"](self.j)

        def pmeth(self, b, v):
            log.append((self.j, "pmeth"))
            w["cb"](self.j)

        def pmeth_kw(self, v, b=0):
            log.append((self.j, "pmeth_kw"))
            w["cb"](self.j)

        def pp_meth(self, a, b, v):
            log.append((self.j, "pp_meth"))

        def curry(self, b, v):
            log.append((self.j, "curry"))

        def _wm(self, v):
            log.append((self.j, "wrapsmeth"))

        @wraps(_wm)
        def wrapsmeth(self, *a, **k):
            return self._wm(*a, **k)

        def _pm(self, b, v):
            log.append((self.j, "partialmethod"))

        partialmethod = partialmethod(_pm, 1)

        def sup(self, v):
            raise Violation("the overriding method was called instead of the base one")

        def base_sup(self):
            return super().sup

        def __call__(self, v):
            log.append((self.j, "callobj"))
            w["cb"](self.j)

        def __setitem__(self, k, v):
            log.append((self.j, "setitem" if k == "a" else "psetitem"))

        x = 0
        y = 0

        def __setattr__(self, k, v):
            log.append((self.j, "setattr" if k == "x" else "psetattr"))

    def mk(base, name, j):
        # a real C method; the container's contents tell that it was called
        cls = type(base.__name__ + "Sub", (base,), {"__hash__": object.__hash__})
        o = cls()
        return o

    class Q:
        pass

    class Parts:
        """All user references of object j live here; dropping it drops them all."""

        def __init__(self, j):
            self.o = Obj(j)
            self.l = mk(list, "l", j)
            self.s = mk(set, "s", j)
            self.d = mk(dict, "d", j)
            self.q = Q()

            def df(self, v):
                log.append((j, "dynmeth"))

            def pdf(self, b, v):
                log.append((j, "pdynmeth"))

            self.f = {"dynmeth": df, "pdynmeth": pdf}

    n_obj = 4
    parts = [Parts(j) for j in range(n_obj)]
    refs = [[weakref.ref(p.o), weakref.ref(p.l), weakref.ref(p.s), weakref.ref(p.d), weakref.ref(p.q)] for p in parts]
    strong = {}
    for j in range(n_obj):
        def fn(v, j=j):
            log.append((j, "fn"))
        strong[j, "fn"] = weakref.ref(fn)  # only the connection keeps it
        strong[j, "fn", "make"] = fn

    # the signal
    latest = case["where"] == "latest"
    owner = None
    if case["where"] in ("owner", "slots_owner"):
        ns = {"sig": Signal(int)}
        if case["where"] == "slots_owner":
            ns["__slots__"] = ("__weakref__",)
        owner = type("E", (), ns)()
        sig = owner.sig
        fire = sig.emit
    elif case["where"] == "group":
        G = type("G", (SignalGroup,), {"a": Signal(int), "b": Signal(int)})
        owner = None
        g = G()
        sig = g.all
        fire = lambda v: g.a.emit(v)  # noqa: E731
    else:
        sig = SignalInstance((int,), reemission="latest-only" if latest else "immediate")
        fire = sig.emit
    other = threading.Thread()
    model = []  # [j, kind, prio, queued]
    pending = []
    in_cb = {}

    def cb(j):
        for t in in_cb.pop(j, ()):
            drop(t, inside=j)

    w["cb"] = cb

    def get(j, kind):
        p = parts[j]
        if kind in ("fn", "lambda", "pfn"):
            return None
        if p is None:
            return None
        o = p.o
        if kind in DYN:
            m = types.MethodType(p.f[kind], o)
            return m if kind == "dynmeth" else partial(m, 1)
        return {
            "meth": lambda: o.meth, "pmeth": lambda: partial(o.pmeth, 1), "pmeth_kw": lambda: partial(o.pmeth_kw, b=1),
            "pp_meth": lambda: partial(partial(o.pp_meth, 1), 2), "curry": lambda: toolz.curry(o.curry)(1),
            "wrapsmeth": lambda: o.wrapsmeth, "partialmethod": lambda: o.partialmethod, "super": lambda: o.base_sup(),
            "callobj": lambda: o, "psetattr": lambda: partial(setattr, o, "y"),
            "psetitem": lambda: partial(o.__setitem__, "b"),
            "list_append": lambda: p.l.append, "set_add": lambda: p.s.add,
            "dict_setitem": lambda: partial(p.d.__setitem__, "k"),
            "cfunc_method": lambda: partial(p.q.__setattr__, "z"),
        }[kind]()

    fnpool = {}

    def connect(j, kind, prio, thread, nargs):
        p = parts[j]
        if p is None and kind not in STRONG:
            return
        if kind in DYN and p.f is None:
            return
        kw = {"priority": prio, "on_ref_error": "raise"}
        if kind in ("setattr", "setitem"):
            if kind == "setattr":
                sig.connect_setattr(p.o, "x", maxargs=1, **kw)
            else:
                sig.connect_setitem(p.o, "a", maxargs=1, **kw)
            thread = None
        else:
            if thread:
                kw["thread"] = "current" if thread == "cur" else other
            if nargs or kind in ("list_append", "set_add", "dict_setitem", "cfunc_method", "psetattr", "psetitem"):
                kw["check_nargs"] = False
                kw["max_args"] = 1
            if kind in STRONG:
                tag = f"{kind}{len(fnpool)}"
                fnpool[tag] = None
                if kind == "pfn":
                    def pf(b, v, tag=tag, j=j):
                        log.append((j, tag))
                    c = partial(pf, 1)
                elif kind == "lambda":
                    c = lambda v, tag=tag, j=j: log.append((j, tag))  # noqa: E731
                else:
                    def f(v, tag=tag, j=j):
                        log.append((j, tag))
                    c = f
                kind = tag
            else:
                c = get(j, kind)
            sig.connect(c, **kw)
            c = None
        pos = next((i for i, m in enumerate(model) if m[2] < prio), len(model))
        model.insert(pos, [j, kind, prio, thread == "other"])

    def disconnect(j, kind):
        if parts[j] is None or kind in STRONG or (kind in DYN and parts[j].f is None):
            return
        present = [m for m in model if m[0] == j and m[1] == kind]
        try:
            if kind == "setattr":
                sig.disconnect_setattr(parts[j].o, "x", missing_ok=False)
            elif kind == "setitem":
                sig.disconnect_setitem(parts[j].o, "a", missing_ok=False)
            else:
                if kind in ("psetitem", "psetattr", "dict_setitem"):
                    return
                c = get(j, kind)
                if case["where"] == "group":
                    SignalInstance.disconnect(sig, c, missing_ok=False)
                else:
                    sig.disconnect(c, missing_ok=False)
                c = None
        except ValueError:
            check(not present, "disconnect of connected %s raised", kind)
        else:
            check(present, "disconnect of unconnected %s did not raise", kind)
            model.remove(present[0])

    def drop_func(j):
        """The functions of bound methods die while the object they are bound to lives on."""
        p = parts[j]
        if p is None or p.f is None:
            return
        mine = [m for m in model if m[0] == j and m[1] in DYN]
        rest = [m for m in model if m not in mine]
        if mine:
            ctx.label("function-dropped")
            if rest:
                ctx.nontrivial()
        fr = [weakref.ref(f) for f in p.f.values()]
        p.f = None
        model[:] = rest
        if any(f() is not None for f in fr):
            raise Violation(f"a method's function is kept alive; the connections were {mine}")
        eq(len(sig), len(model), f"len(signal) after the functions of {mine} died")

    def drop(j, inside=None):
        if parts[j] is None or (inside is not None and inside == j):
            return
        mine = [m for m in model if m[0] == j and not any(m[1].startswith(s) for s in STRONG)]
        rest = [m for m in model if m not in mine]
        if mine and rest:
            ctx.nontrivial()
            ctx.label("dropped-with-others")
        for m in mine:
            ctx.label("drop:" + m[1])
        parts[j] = None
        model[:] = rest
        if faults[0]:
            gc.collect()
        for r in refs[j]:
            if r() is not None:
                raise Violation(f"object {j} ({type(r()).__name__}) is kept alive; its connections were {mine}")
        eq(len(sig), len(model), f"len(signal) after object {j} died (connections {mine})")

    faults = [False]

    def expected_emit():
        return [(m[0], m[1]) for m in model if not m[3]]

    def emit():
        if in_cb:
            return emit_mut()
        before = {j: (len(p.l), len(p.s), dict(p.d)) for j, p in enumerate(parts) if p}
        log.clear()
        val[0] += 1
        fire(val[0])
        builtin = {"list_append", "set_add", "dict_setitem", "cfunc_method"}
        want = [x for x in expected_emit() if x[1] not in builtin]
        eq(log, want, "callbacks called by an emission")
        for j, p in enumerate(parts):
            if p:
                eq(len(p.l) - before[j][0], sum(1 for m in model if m[:2] == [j, "list_append"] and not m[3]),
                   f"appends to list of object {j}")
        pending.extend([m[0], m[1]] for m in model if m[3])

    def emit_mut():
        """Some callback drops another object while the emission runs."""
        ctx.label("drop-in-callback")
        log.clear()
        val[0] += 1
        before = expected_emit()
        queued = [[m[0], m[1]] for m in model if m[3]]
        alive0 = [p is not None for p in parts]
        fire(val[0])
        dead = {j for j in range(n_obj) if alive0[j] and parts[j] is None}
        builtin = {"list_append", "set_add", "dict_setitem", "cfunc_method"}
        got = list(log)
        sure = [x for x in before if x[1] not in builtin and (x[0] not in dead or any(x[1].startswith(s) for s in STRONG))]
        eq([x for x in got if x in sure], sure, "surviving callbacks called by an emission that drops objects")
        check(all(x in before for x in got), "unexpected calls %s", got)
        pending.extend(queued)  # calls of now dead objects are skipped when drained
        in_cb.clear()

    def alive(x):
        p = parts[x[0]]
        return p is not None and (x[1] not in DYN or p.f is not None)

    def called(items):
        return [tuple(x) for x in items
                if x[1] not in BUILTIN and (alive(x) or any(x[1].startswith(t) for t in STRONG))]

    def drain():
        log.clear()
        if not all(map(alive, pending)):
            ctx.label("drained-dead")
        before = called(pending)
        emit_queued(other)
        after = called(pending)  # callbacks may have dropped more objects
        pending.clear()
        if in_cb or len(after) != len(before):
            got = [x for x in log if x in after]
            eq(got, after, "surviving queued callbacks called by a drain that drops objects")
            check(all(x in before for x in log), "unexpected calls %s", log)
            in_cb.clear()
        else:
            eq(log, before, "queued callbacks called by a drain")

    val = [0]
    for op in case["init"] + case["ops"]:
        if op[0] == "conn":
            if op[2] == "dict_setitem" and op[4] == "other":
                continue
            connect(*op[1:])
            eq(len(sig), len(model), "len(signal) after connect")
        elif op[0] == "drop":
            drop(op[1])
        elif op[0] == "drop_func":
            drop_func(op[1])
        elif op[0] == "emit":
            emit()
        elif op[0] == "disc":
            disconnect(op[1], op[2])
            eq(len(sig), len(model), "len(signal) after disconnect")
        elif op[0] == "drain":
            drain()
        elif op[0] == "drop_in_cb":
            if op[1] != op[2]:
                in_cb.setdefault(op[1], []).append(op[2])
    in_cb.clear()
    emit()
    drain()
    # functions stay connected without any other reference
    gc.collect(0)
    emit()
    drain()
    # the signal does not keep its own owner alive
    if owner is not None:
        r = weakref.ref(owner)
        m = Obj.meth
        del m
        owner = None
        sig = fire = None
        if r() is not None:
            raise Violation("the signal keeps its own owner alive")
    for j in range(n_obj):
        if parts[j] is not None:
            parts[j] = None
            for r in refs[j]:
                if r() is not None:
                    raise Violation(f"object {j} ({type(r()).__name__}) is kept alive at the end")


def run_case(case, ctx):
    try:
        _run_case(case, ctx)
    except Exception as e:
        x = e
        while x is not None:
            if isinstance(x, Violation):
                raise Violation(str(x)) from None
            x = x.__cause__
        raise
    finally:
        # nothing of this case may stay queued
        from psygnal import emit_queued

        emit_queued()


REGRESSIONS = [
    {"where": "plain", "init": [["conn", 0, "meth", 0, None, False], ["conn", 1, "meth", 0, "other", False],
                                ["conn", 3, "meth", 0, "other", False]],
     "ops": [["emit"], ["drop_in_cb", 3, 1], ["drain"]]},
    {"where": "plain", "init": [["conn", 0, "meth", 0, "other", False], ["conn", 1, "meth", 0, "other", False]],
     "ops": [["emit"], ["drop", 0], ["drain"]]},
]
