"""C01: delivery — exactly once per connection, in priority-then-connection order."""
from __future__ import annotations

import gc
from functools import partial

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C01"
RULE = (
    "A case is a signal arity (0-3), a pool of callbacks of various callable kinds each with a one-shot "
    "script of in-callback actions (connect / disconnect / emit / drop an owner), and a history of "
    "connect / disconnect / emit / query / drop operations, run against a list model of the connections. "
    "Non-trivial: at least one emission reaches two or more connections and the history either uses "
    "distinct priorities, duplicates, disconnects, weak-owner drops or mutates connections inside a callback."
)
ASSUMPTIONS = [
    "a callback connected while an emission is running may or may not take part in that emission (at most once)",
    "disconnect(slot) with duplicate connections removes the first in call order",
]
QUICK, THOROUGH = 1700, 60000
QUICK_S = 20

KINDS = ["fn", "fn_var", "lam", "meth", "meth_var", "static", "clsm", "callobj", "partial", "kpart",
         "base", "pmeth", "kpmeth", "relay"]
WEAK = ("meth", "meth_var", "pmeth", "kpmeth")


def _slot():
    return st.fixed_dictionaries(
        {
            "k": st.sampled_from(KINDS),
            "n": st.sampled_from([0, 1, 2, 0, 1, 3]),
            "owner": st.integers(0, 1),
            "script": st.one_of(st.just([]), st.lists(_action(), max_size=3)),
        }
    )


SLOT = st.integers(0, 5)
PRIO = st.one_of(st.just(0), st.just(0), st.integers(-3, 3))


def _action():
    return st.one_of(
        st.tuples(st.just("disc"), SLOT),
        st.tuples(st.just("disc"), st.just(-1)),  # self
        st.tuples(st.just("disc_all")),
        st.tuples(st.just("conn"), SLOT, PRIO, st.booleans()),
        st.tuples(st.just("emit"), st.integers(0, 99)),
        st.tuples(st.just("drop"), st.integers(0, 1)),
    ).map(list)


def _conn_op():
    return st.tuples(st.just("conn"), SLOT, PRIO, st.just(False), st.none()).map(list)


def _op():
    return st.one_of(
        st.tuples(st.just("conn"), SLOT, PRIO, st.sampled_from([False, False, False, True, "raise"]),
                  st.sampled_from([None, None, None, 0, 1, 2, 3])),
        _conn_op(),
        st.tuples(st.just("emit"), st.integers(0, 99), st.sampled_from(["emit", "emit", "call", "fast"])),
        st.tuples(st.just("emit"), st.integers(0, 99), st.just("emit")),
        st.tuples(st.just("disc"), SLOT, st.booleans()),
        st.tuples(st.just("disc_all")),
        st.tuples(st.just("drop"), st.integers(0, 1)),
    ).map(list)


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "arity": st.sampled_from([3, 2, 1, 0, 3, 2]),
            "bound": st.booleans(),
            "slots": st.lists(_slot(), min_size=3, max_size=6),
            "init": st.lists(_conn_op(), min_size=2, max_size=6),
            "ops": st.lists(_op(), min_size=3, max_size=25 if tier == "quick" else 60),
        }
    )


class _Frame:
    __slots__ = ("args", "pending", "called_new", "start_ids")

    def __init__(self, args, conns):
        self.args = args
        self.pending = list(conns)
        self.start_ids = {id(c) for c in conns}
        self.called_new = set()


class _Conn:
    __slots__ = ("slot", "prio", "maxargs", "seq")

    def __init__(self, slot, prio, maxargs, seq):
        self.slot, self.prio, self.maxargs, self.seq = slot, prio, maxargs, seq

    def __repr__(self):
        return f"<slot{self.slot} prio={self.prio}>"


class Owner:
    """Owner of bound-method slots; slot index baked into the method name."""

    def __init__(self, world):
        self.world = world

    def shared(self, *a, tag=None):
        if tag is None:
            (_, tag), *a = a
        self.world.called(tag, tuple(a))


def _mk_method(i, n, var):
    if var:
        def m(self, *a):
            self.world.called(i, a)
    elif n == 0:
        def m(self):
            self.world.called(i, ())
    elif n == 1:
        def m(self, a):
            self.world.called(i, (a,))
    elif n == 2:
        def m(self, a, b):
            self.world.called(i, (a, b))
    else:
        def m(self, a, b, c):
            self.world.called(i, (a, b, c))
    return m


def _mk_fn(w, i, n, var=False, lam=False):
    if var:
        def f(*a):
            w.called(i, a)
        return f
    if lam:
        return [
            lambda: w.called(i, ()),
            lambda a: w.called(i, (a,)),
            lambda a, b: w.called(i, (a, b)),
            lambda a, b, c: w.called(i, (a, b, c)),
        ][n]
    if n == 0:
        def f():
            w.called(i, ())
    elif n == 1:
        def f(a):
            w.called(i, (a,))
    elif n == 2:
        def f(a, b):
            w.called(i, (a, b))
    else:
        def f(a, b, c):
            w.called(i, (a, b, c))
    return f


class World:
    def __init__(self, case, ctx):
        from psygnal import Signal, SignalInstance

        self.case, self.ctx = case, ctx
        n = self.arity = case["arity"]
        types = (int,) * n
        if case["bound"]:
            cls = type("Emitter", (), {"sig": Signal(*types)})
            self.emitter = cls()
            self.sig = self.emitter.sig
        else:
            self.sig = SignalInstance(types)
        self.conns = []  # call order
        self.seq = 0
        self.frames = []
        self.calls = [0] * len(case["slots"])
        self.depth = 0
        self.relays = {}
        self.owner_cls = [type(f"Owner{j}", (Owner,), {}) for j in range(2)]
        self.strong = {}
        bases = [i for i, s in enumerate(case["slots"]) if s["k"] == "base"]

        def shared(*a, tag=None):
            # one function behind every partial: only the bound argument tells them apart
            if tag is None:
                if a and type(a[0]) is tuple:
                    (_, tag), *a = a
                else:
                    tag = bases[0]
            self.called(tag, tuple(a))

        self.shared = shared
        self.bases = bases
        self.alive = [True, True]
        self.running_owner = [0, 0]
        for i, s in enumerate(case["slots"]):
            k, j = s["k"], s["owner"]
            oc = self.owner_cls[j]
            if k in ("pmeth", "kpmeth"):
                pass  # partials of Owner.shared
            elif k in ("meth", "meth_var"):
                setattr(oc, f"m{i}", _mk_method(i, s["n"], k == "meth_var"))
            elif k == "static":
                setattr(oc, f"m{i}", staticmethod(_mk_fn(self, i, s["n"])))
            elif k == "clsm":
                def cm(cls, *a, _i=i, w=self):
                    w.called(_i, a)
                setattr(oc, f"m{i}", classmethod(cm))
            elif k == "callobj":
                # held strongly here: the library only keeps a weak reference
                cc = type(f"C{i}", (), {"__call__": _mk_method(i, s["n"], False)})
                o = cc()
                o.world = self
                self.strong[i] = o
            elif k == "fn":
                self.strong[i] = _mk_fn(self, i, s["n"])
            elif k == "fn_var":
                self.strong[i] = _mk_fn(self, i, 0, var=True)
            elif k == "lam":
                self.strong[i] = _mk_fn(self, i, s["n"], lam=True)
            elif k in ("partial", "kpart", "base"):
                pass  # partials of self.shared
            elif k == "relay":
                r = SignalInstance(types)
                r.connect(_mk_fn(self, i, 0, var=True), check_nargs=False)
                self.strong[i] = r
        self.owners = [oc(self) for oc in self.owner_cls]

    # -- callables ---------------------------------------------------------
    def exists(self, i):
        if not 0 <= i < len(self.case["slots"]):
            return False
        s = self.case["slots"][i]
        if s["k"] == "base" and i != self.bases[0]:
            return False
        return s["k"] not in WEAK or self.alive[s["owner"]]

    def cb(self, i):
        s = self.case["slots"][i]
        k = s["k"]
        if k == "pmeth":
            return partial(self.owners[s["owner"]].shared, ("slot", i))
        if k == "kpmeth":
            return partial(self.owners[s["owner"]].shared, tag=i)
        if k == "partial":
            return partial(self.shared, ("slot", i))
        if k == "kpart":
            return partial(self.shared, tag=i)
        if k == "base":
            return self.shared
        if k in ("meth", "meth_var"):
            return getattr(self.owners[s["owner"]], f"m{i}")
        if k in ("static", "clsm"):
            return getattr(self.owner_cls[s["owner"]], f"m{i}")
        if k == "relay":
            return self.strong[i].emit
        return self.strong[i]

    def required(self, i):
        s = self.case["slots"][i]
        return s["n"] if s["k"] in ("fn", "lam", "meth", "static", "callobj") else 0

    def accepts(self, i):
        s = self.case["slots"][i]
        return s["n"] if s["k"] in ("fn", "lam", "meth", "static", "callobj") else None

    def weak_owner(self, i):
        s = self.case["slots"][i]
        return s["owner"] if s["k"] in WEAK else None

    # -- being called ------------------------------------------------------
    def called(self, i, args):
        if not self.frames:
            raise Violation(f"slot {i} called outside of an emission")
        fr = self.frames[-1]
        live = {id(c) for c in self.conns}
        while fr.pending and id(fr.pending[0]) not in live:
            fr.pending.pop(0)
        if fr.pending and fr.pending[0].slot == i:
            c = fr.pending.pop(0)
        else:
            for c in self.conns:
                if c.slot == i and id(c) not in fr.start_ids and id(c) not in fr.called_new:
                    fr.called_new.add(id(c))
                    break
            else:
                raise Violation(
                    f"emission {fr.args}: slot {i} called, but the connections still to be called are "
                    f"{fr.pending} and it was not newly connected"
                )
        want = fr.args if c.maxargs is None else fr.args[: c.maxargs]
        if tuple(args) != tuple(want):
            raise Violation(f"slot {i} got args {args!r}, expected {want!r}")
        k = self.calls[i]
        self.calls[i] += 1
        script = self.case["slots"][i]["script"]
        if k < len(script) and script[k]:
            a = script[k]
            self.ctx.label("in-callback:" + a[0])
            j = self.weak_owner(i)
            if j is not None:
                self.running_owner[j] += 1
            try:
                self.do(a if a[0] != "disc" or a[1] != -1 else ["disc", i], inner=i)
            finally:
                if j is not None:
                    self.running_owner[j] -= 1

    # -- operations --------------------------------------------------------
    def model_connect(self, i, prio, maxargs):
        self.seq += 1
        c = _Conn(i, prio, maxargs, self.seq)
        pos = len(self.conns)
        for p, o in enumerate(self.conns):
            if o.prio < prio:
                pos = p
                break
        self.conns.insert(pos, c)

    def connect(self, i, prio, unique, maxargs):
        if not self.exists(i):
            return
        cb = self.cb(i)
        acc = self.accepts(i)
        eff = maxargs if maxargs is not None else acc
        present = any(c.slot == i for c in self.conns)
        if maxargs is None and self.required(i) > self.arity and not (unique and present):
            try:
                self.sig.connect(cb, priority=prio, unique=unique)
            except ValueError:
                self.ctx.label("refused")
                return
            raise Violation(f"slot {i} requires {self.required(i)} args, signal has {self.arity}: accepted")
        if maxargs is not None and (
            min(maxargs, self.arity) < self.required(i) or (acc is not None and min(maxargs, self.arity) > acc)
        ):
            return  # the user would be lying about the callable: outside the domain
        kw = {} if maxargs is None else {"max_args": maxargs}
        if unique == "raise" and present:
            try:
                self.sig.connect(cb, priority=prio, unique=unique, **kw)
            except ValueError:
                return
            raise Violation("connect(unique='raise') of a connected slot did not raise")
        r = self.sig.connect(cb, priority=prio, unique=unique, **kw)
        check(r == cb or r is cb, "connect() did not return the slot")
        if unique and present:
            self.ctx.label("unique-skip")
            return
        self.model_connect(i, prio, eff)

    def do(self, op, inner=None):
        kind = op[0]
        if kind == "conn":
            if inner is not None:
                self.connect(op[1], op[2], bool(op[3]), None)
            else:
                self.connect(op[1], op[2], op[3], op[4])
        elif kind == "disc":
            i = op[1]
            if not self.exists(i):
                return
            missing_ok = op[2] if len(op) > 2 else True
            c = next((c for c in self.conns if c.slot == i), None)
            # model first: a callback must not be called after it was disconnected
            if c is not None:
                self.conns.remove(c)
                self.sig.disconnect(self.cb(i), missing_ok)
                self.ctx.label("disconnected")
            elif missing_ok:
                self.sig.disconnect(self.cb(i))
            else:
                try:
                    self.sig.disconnect(self.cb(i), missing_ok=False)
                except ValueError:
                    pass
                else:
                    raise Violation(f"disconnect(slot {i}, missing_ok=False) of a missing slot did not raise")
        elif kind == "disc_all":
            self.conns.clear()
            self.sig.disconnect()
        elif kind == "drop":
            j = op[1]
            if not self.alive[j]:
                return
            if inner is not None and self.running_owner[j]:
                return  # a frame of this owner is running: it cannot die here
            self.alive[j] = False
            n = len(self.conns)
            self.conns[:] = [c for c in self.conns if self.weak_owner(c.slot) != j]
            if len(self.conns) < n:
                self.ctx.label("dropped-owner")
            self.owners[j] = None
            if any(s["k"] in ("pmeth", "kpmeth") for s in self.case["slots"]):
                gc.collect(0)
        elif kind == "emit":
            if inner is not None and self.depth >= 3:
                return
            args = tuple(op[1] * 10 + q for q in range(self.arity))
            how = op[2] if len(op) > 2 else "emit"
            fr = _Frame(args, self.conns)
            self.frames.append(fr)
            self.depth += 1
            if len(self.conns) >= 2:
                self.ctx.label("multi")
            self.ctx.label(f"emit-{how}")
            if inner is not None:
                self.ctx.label("nested-emit")
            try:
                if how == "emit":
                    self.sig.emit(*args)
                elif how == "call":
                    self.sig(*args)
                else:
                    self.sig.emit_fast(*args)
            finally:
                self.frames.pop()
                self.depth -= 1
            live = {id(c) for c in self.conns}
            missed = [c for c in fr.pending if id(c) in live]
            if missed:
                raise Violation(f"emission {args}: connections never called: {missed}")

    def observe(self):
        eq(len(self.sig), len(self.conns), "len(signal)")
        for i in range(len(self.case["slots"])):
            if self.exists(i):
                eq(self.cb(i) in self.sig, any(c.slot == i for c in self.conns), f"slot {i} in signal")


def _unwrap(e):
    while e is not None:
        if isinstance(e, Violation):
            return e
        e = e.__cause__ or e.__context__
    return None


def run_case(case, ctx):
    w = World(case, ctx)
    try:
        for op in case.get("init", []) + case["ops"]:
            if op[0] == "conn" and (op[1] >= len(case["slots"])):
                continue
            w.do(op)
            if w.conns and len({c.prio for c in w.conns}) > 1:
                ctx.label("priorities")
            if len({c.slot for c in w.conns}) < len(w.conns):
                ctx.label("duplicates")
            w.observe()
    except Exception as e:
        v = _unwrap(e)
        if v is not None:
            raise v from None
        raise
    finally:
        w.frames.clear()
    L = ctx.labels
    ctx.nontrivial(
        "multi" in L
        and bool(L & {"priorities", "duplicates", "disconnected", "dropped-owner"}
                 or any(x.startswith("in-callback") for x in L))
    )


REGRESSIONS = [
    {"arity": 1, "bound": True,
     "slots": [{"k": "fn", "n": 1, "owner": 0, "script": [["disc", -1]]}, {"k": "fn", "n": 1, "owner": 0, "script": []}],
     "ops": [["conn", 0, 0, False, None], ["conn", 1, 0, False, None], ["emit", 1, "emit"], ["emit", 2, "emit"]]},
    {"arity": 1, "bound": True,
     "slots": [{"k": "fn", "n": 1, "owner": 0, "script": [["conn", 1, 3, False]]},
               {"k": "fn", "n": 1, "owner": 0, "script": []}],
     "ops": [["conn", 0, 0, False, None], ["emit", 1, "emit"], ["emit", 2, "emit"]]},
]
