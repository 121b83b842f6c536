"""C29: psygnal keeps nothing alive that its users have let go."""
from __future__ import annotations

import gc
import sys
import threading
import weakref
from dataclasses import dataclass
from typing import Any, ClassVar

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C29"
RULE = (
    "Either a signal (of an object, of a group, or free; any reemission mode) with a history of connections, emissions of "
    "fresh objects (also blocked, paused and resumed or reduced, queued for a thread, nested, monitored, with callbacks "
    "that raise); or an evented container (list, dict, sets, selectable list; plain or evented items, child events) with a "
    "history of mutations; or an evented object of 10 flavours with a history of assignments, connections, contexts, "
    "monitors and failing callbacks. After every operation each object that was emitted, removed, replaced or disconnected "
    "and that neither the user nor a queue holds must be dead; at last the container or object itself is dropped, and a "
    "new one must start without connections. Non-trivial: at least three objects were let go by at least two kinds of "
    "operations."
)
ASSUMPTIONS = [
    "garbage collection is allowed: what is only part of a reference cycle counts as dead",
    "objects that do not support weak references are excepted (their events cannot know when they die)",
    "a throttled or debounced function may hold the arguments of its last deferred call",
    "the current item of a selection without a list may be an item that is not selected",
]
QUICK, THOROUGH = 1500, 40000
QUICK_S = 20

FLAVOURS = ["owner", "group", "dataclass", "dataclass_nocache", "attrs", "msgspec", "pydantic", "model", "model_prop",
            "descr_group"]
CONTAINERS = ["list", "list", "list_child", "list_child", "dict", "set", "oset", "slist", "slist"]
ITEMS = ["probe", "probe", "emitter", "dc", "em", "elist"]


def strategy(tier):
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    n = 14 if tier == "quick" else 40
    fn = st.integers(0, 4)
    sig_op = st.one_of(
        T("conn", fn, st.sampled_from(["fn", "fn", "meth", "setattr", "other", "raise", "again"]), st.sampled_from([0, 0, 1, -1])),
        T("conn", fn, st.sampled_from(["fn", "fn", "meth", "setattr", "other", "raise", "again"]), st.sampled_from([0, 0, 1, -1])),
        T("disc", fn), T("disc", fn), T("emit", st.sampled_from(["emit", "emit", "call", "fast", "checked"])),
        T("emit", st.sampled_from(["emit", "emit", "call"])), T("emit", st.just("emit")),
        T("blocked"), T("paused", st.integers(0, 3), st.sampled_from([None, None, "two", "one"])),
        T("pause"), T("resume"), T("drain"), T("monitor"), T("discall"),
    )
    sig = st.fixed_dictionaries({
        "part": st.just("signal"),
        "where": st.sampled_from(["free", "owner", "group", "member"]),
        "mode": st.sampled_from(["immediate", "queued", "latest-only"]),
        "ops": st.lists(sig_op, min_size=4, max_size=n),
    })
    i = st.integers(-4, 4)
    item = st.tuples(st.sampled_from(ITEMS), st.booleans()).map(list)
    items = st.lists(item, max_size=3)
    cont_op = st.one_of(
        T("append", item), T("insert", i, item), T("set", i, item), T("set", i, item), T("setslice", i, i, items), T("del", i), T("delslice", i, i),
        T("pop", i), T("remove", i), T("clear"), T("extend", items), T("reverse", st.booleans()), T("move", i, i), T("update", items),
        T("select", st.lists(st.integers(0, 5), max_size=3)), T("next"), T("rmsel"), T("same", i), T("let", i), T("inplace", st.sampled_from("|&-^"), items),
    )
    cont = st.fixed_dictionaries({
        "part": st.just("container"),
        "kind": st.sampled_from(CONTAINERS),
        "init": items,
        "listen": st.integers(0, 3),
        "ops": st.lists(cont_op, min_size=4, max_size=n),
        "keep": st.booleans(),
        "paused": st.booleans(),
    })
    f = st.sampled_from("xy")
    obj_op = st.one_of(
        T("set", f), T("set", f), T("set", f), T("again", f), T("conn", fn, f, st.sampled_from(["fn", "fn", "meth", "group", "groupmeth", "other"])), T("disc", fn, f),
        T("conn", fn, f, st.sampled_from(["fn", "meth", "group", "raise"])),
        T("paused", f, st.integers(1, 3)), T("blocked", f), T("monitor", f), T("gmonitor", f), T("drain"), T("noeq", f), T("reset"), T("update", f), T("prop", f), T("discall", f),
    )
    obj = st.fixed_dictionaries({
        "part": st.just("object"),
        "flavour": st.sampled_from(FLAVOURS),
        "ops": st.lists(obj_op, min_size=4, max_size=n),
        "keep": st.sampled_from([None, "group", "signal"]),
    })
    return st.one_of(sig, cont, obj)


class Probe:
    """An object whose life is watched."""


class Boom(Exception):
    pass


class NoEq(Probe):
    def __eq__(self, other):
        raise TypeError

    __hash__ = object.__hash__


class Watch:
    """Knows all objects that the case has made, weakly."""

    def __init__(self, ctx):
        self.always = set()
        self.refs = []  # (weak reference, what)
        self.ctx = ctx
        self.gone = 0
        self.ways = set()

    def new(self, what="an emitted object", cls=Probe):
        p = cls()
        return self.add(p, what)

    def add(self, p, what):
        self.refs.append((weakref.ref(p), what))
        return p

    def verify(self, op, held=()):
        """All are dead but those `held` (ids)."""
        held = set(held) | self.always
        left = [(r, w) for r, w in self.refs if r() is not None and id(r()) not in held]
        if left:
            for _ in range(3):  # (what dies with an object is dropped when that is collected)
                gc.collect()
                left = [(r, w) for r, w in left if r() is not None]
                if not left:
                    break
            else:
                raise Violation(f"after {op}: {left[0][1]} is kept alive by {owners(left[0][0])}")
        dead = [x for x in self.refs if x[0]() is None]
        if dead:
            self.gone += len(dead)
            self.ways.add(op if isinstance(op, str) else str(op[0]))
            self.refs = [x for x in self.refs if x[0]() is not None]
        self.ctx.nontrivial(self.gone >= 3 and len(self.ways) >= 2)


def owners(ref):
    out = []
    for r in gc.get_referrers(ref())[:6]:
        if type(r).__name__ != "frame":
            out.append(f"{type(r).__name__}" + (str([k for k in r][:4]) if isinstance(r, dict) else ""))
    return sorted(out)


_frozen = []


def run_case(case, ctx):
    if not _frozen:
        _frozen.append(1)
        import psygnal.utils  # noqa: F401

        _classes()
        gc.collect()
        gc.freeze()  # (what exists now need not be looked at by each collection)
    ctx.label(case["part"])
    {"signal": _signal, "container": _container, "object": _object}[case["part"]](case, ctx)


class Threads:
    """The thread that callbacks are queued for."""

    def __init__(self, w):
        self.w = w
        self.other = threading.Thread()
        w.always.add(id(self.other))
        w.add(self.other, "a thread that is gone")

    def drain(self):
        from psygnal import EmitLoopError, emit_queued

        for _ in range(50):
            try:
                return emit_queued(self.other)
            except EmitLoopError:
                pass

    def drop(self):
        self.drain()
        self.w.always.discard(id(self.other))
        self.other = None


class Recv:
    def __init__(self, log=None):
        self.n = 0

    def meth(self, *a):
        self.n += 1

    x = None


# ------------------------------------------------------------------ signals


def _signal(case, ctx):
    from psygnal import Signal, SignalGroup, SignalInstance, EmitLoopError
    from psygnal.utils import monitor_events

    w = Watch(ctx)
    threads = Threads(w)
    mode = case["mode"]
    keeper = None
    if case["where"] == "free":
        sig = SignalInstance((object,), reemission=mode)
    elif case["where"] == "owner":
        keeper = type("O", (), {"sig": Signal(object, reemission=mode)})()
        sig = keeper.sig
    else:
        keeper = type("G", (SignalGroup,), {"a": Signal(object, reemission=mode), "b": Signal(int)})()
        sig = keeper.all if case["where"] == "group" else keeper["a"]
        if case["where"] == "member":
            keeper.connect(Recv.x or (lambda i: None))
    fire = keeper["a"] if case["where"] == "group" else sig
    ctx.label(case["where"], mode)
    conns = {}  # k -> (kind, callback)
    paused = [0]

    def call_again(*a):
        if budget[0] > 0:
            budget[0] -= 1
            fire.emit(w.new("an object emitted by a callback"))

    budget = [0]

    def callback(kind):
        mark = w.new("a disconnected callback")
        if kind == "raise":
            def f(v, mark=mark):
                raise Boom(v)
        elif kind == "again":
            def f(v, mark=mark):
                call_again()
        else:
            def f(v, mark=mark):
                return [v]
        return f

    def emit(how="emit"):
        p = w.new()
        budget[0] = 2
        try:
            if how == "call":
                fire(p)
            elif how == "fast" and case["where"] not in ("group", "member"):
                fire.emit_fast(p)
            elif how == "checked":
                fire.emit(p, check_nargs=True, check_types=True)
            else:
                fire.emit(p)
        except EmitLoopError:
            ctx.label("failed")
        except Boom:  # (emit_fast)
            pass

    def waiting():
        """What signals and threads have queued, and targets hold."""
        ids = set()
        if paused[0] or any(k[0] == "other" for k in conns.values()) or queued[0]:
            ids |= {id(r()) for r, what in w.refs if what.startswith("an ")}
        for kind, cb in conns.values():
            if kind == "meth":
                ids.add(id(cb))
            elif kind == "setattr":
                ids |= {id(cb), id(cb.x)}
                if isinstance(cb.x, tuple):  # EmissionInfo
                    ids |= {id(a) for a in cb.x.args}
            else:
                ids |= {id(c) for c in cb.__defaults__ if isinstance(c, Probe)}
        if queued[0]:
            ids |= {id(r()) for r, what in w.refs if what.startswith("a disc")}
        return ids

    queued = [0]
    for op in case["ops"]:
        k = op[0]
        if k == "conn":
            _, n, kind, prio = op
            if n in conns:
                continue
            if kind == "meth":
                r = w.add(Recv(), "a disconnected object")
                sig.connect(r.meth, priority=prio)
                conns[n] = (kind, r)
                r = None
            elif kind == "setattr":
                r = w.add(Recv(), "a disconnected target")
                sig.connect_setattr(r, "x", maxargs=1, priority=prio)
                conns[n] = (kind, r)
                r = None
            else:
                f = callback(kind)
                sig.connect(f, priority=prio, thread=threads.other if kind == "other" else None)
                conns[n] = (kind, f)
                f = None
        elif k == "disc":
            if op[1] not in conns:
                continue
            kind, cb = conns.pop(op[1])
            if kind == "other":
                queued[0] = 1  # calls of it may wait
            if kind == "meth":
                sig.disconnect(cb.meth)
            elif kind == "setattr":
                sig.disconnect_setattr(cb, "x")
            else:
                sig.disconnect(cb)
            cb = None
        elif k == "discall":
            sig.disconnect()
            queued[0] = queued[0] or any(c[0] == "other" for c in conns.values())
            conns.clear()
        elif k == "emit":
            emit(op[1])
        elif k == "blocked":
            with fire.blocked():
                emit()
        elif k == "paused":
            red = {None: (), "two": (lambda a, b: b,), "one": (lambda it: list(it)[-1],)}[op[2]]
            if paused[0]:
                red = ()
            try:
                with fire.paused(*red):
                    paused[0] += 1
                    for _ in range(op[1]):
                        emit()
                    paused[0] -= 1
            except EmitLoopError:
                pass
        elif k == "pause":
            if not paused[0]:
                fire.pause()
                paused[0] += 1
        elif k == "resume":
            budget[0] = 2
            if paused[0]:
                paused[0] = 0
            try:
                fire.resume()
            except EmitLoopError:
                pass
        elif k == "drain":
            threads.drain()
            queued[0] = 0
        elif k == "monitor":
            marker = w.new("a logger")

            def logger(info, marker=marker):
                pass

            marker = None
            if case["where"] == "owner":
                with monitor_events(keeper, logger):
                    emit()
            else:
                with monitor_events(logger=logger):
                    emit()
            logger = None
        clear_exc()
        if paused[0] == 0 and hasattr(fire, "_is_paused") and fire._is_paused:
            paused[0] = 1
        w.verify(op, waiting())
    # everything is let go
    fire.resume() if not any(c[0] == "raise" for c in conns.values()) else _quietly(fire.resume)
    paused[0] = 0
    threads.drain()
    queued[0] = 0
    for n, (kind, cb) in list(conns.items()):
        if kind != "setattr":
            conns.pop(n)
            if kind != "meth":
                sig.disconnect(cb)
        else:
            sig.disconnect_setattr(cb, "x")
            conns.pop(n)
        cb = None
    clear_exc()
    w.verify("disconnecting everything", waiting())
    w.add(sig, "the signal")
    if keeper is not None:
        w.add(keeper, "the owner of the signal")
    threads.drop()
    keeper = sig = fire = None
    w.verify("dropping the signal")


def _quietly(f):
    from psygnal import EmitLoopError

    try:
        f()
    except EmitLoopError:
        pass


def clear_exc():
    """Forget tracebacks, which hold frames."""
    sys.last_value = sys.last_traceback = sys.last_type = None


# ------------------------------------------------------------------ containers

_made = {}


def _classes():
    if _made:
        return _made
    from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, evented

    class Emitter(Probe):
        sig = Signal(object)

    @evented
    @dataclass(eq=False)
    class DC:
        x: Any = None
        y: Any = None

    class EM(EventedModel):
        model_config = {"arbitrary_types_allowed": True}
        x: Any = None
        y: Any = None

        def __eq__(self, o):
            return self is o

        __hash__ = object.__hash__

    @evented(cache_on_instance=False)
    @dataclass(eq=False)
    class DCN:
        x: Any = None
        y: Any = None

    import attrs
    import msgspec
    import pydantic

    @evented
    @attrs.define(eq=False)
    class AT:
        x: Any = None
        y: Any = None

    class MS(msgspec.Struct, weakref=True, eq=False, dict=True):
        x: Any = None
        y: Any = None
        events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()

    class PY(pydantic.BaseModel):
        x: Any = None
        y: Any = None
        events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()

    class EMP(EventedModel):
        model_config = {"allow_property_setters": True, "field_dependencies": {"both": ["x", "y"]}}
        x: Any = None
        y: Any = None

        @property
        def both(self):
            return (self.x, self.y)

        @both.setter
        def both(self, v):
            self.x, self.y = v

    class Owner:
        x = Signal(object)
        y = Signal(object)

    class Group(SignalGroup):
        x = Signal(object)
        y = Signal(object)

    class XY(SignalGroup):
        x = Signal(object, object)
        y = Signal(object, object)

    @dataclass(eq=False)
    class DG:
        events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(signal_group_class=XY, collect_fields=False)
        x: Any = None
        y: Any = None

    _made.update(emitter=Emitter, dc=DC, em=EM, dataclass=DC, dataclass_nocache=DCN, attrs=AT, msgspec=MS, pydantic=PY, model=EM,
                 model_prop=EMP, owner=Owner, group=Group, descr_group=DG)
    return _made


def _container(case, ctx):
    from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, SelectableEventedList

    K = _classes()
    w = Watch(ctx)
    kind = case["kind"]
    ctx.label(kind)
    kept = {}  # what the user holds
    count = [0]

    def item(spec):
        name, keep = spec
        if name == "probe":
            o = Probe()
        elif name == "elist":
            count[0] += 1
            o = EventedList([count[0]], child_events=True)  # (equal to no other)
        else:
            o = K[name]()
        w.add(o, f"a removed item ({name})")
        if keep and len(kept) < 3:
            kept[id(o)] = o
        return o

    first = [item(s) for s in case["init"]]
    if kind == "dict":
        c = EventedDict({str(j): v for j, v in enumerate(first)})
    elif kind == "set":
        c = EventedSet(first)
    elif kind == "oset":
        c = EventedOrderedSet(first)
    elif kind == "slist":
        c = SelectableEventedList(first)
    else:
        c = EventedList(first, child_events=kind == "list_child")
    first = None
    recv = Recv()
    mark = w.new("a callback of a dropped container")

    def listener(*a, mark=mark):
        return None

    mark_id = id(mark)
    mark = None
    if case["listen"] & 1:
        c.events.connect(listener)
        c.events.connect(recv.meth)
    if case["listen"] & 2:
        for n in c.events:
            c.events[n].connect(recv.meth)
            c.events[n].connect(listener)
    seq = kind in ("list", "list_child", "slist")

    def contents():
        if kind == "dict":
            return list(c.values())
        return list(c)

    def at(j):
        x = contents()
        return x[j % len(x)] if x else None

    def act(op):
        k = op[0]
        if k == "append":
            v = item(op[1])
            if seq:
                c.append(v)
            elif kind == "dict":
                c[f"k{len(c)}"] = v
            else:
                c.add(v)
        elif k == "insert" and seq:
            c.insert(op[1], item(op[2]))
        elif k == "set":
            if kind == "dict":
                c[str(op[1])] = item(op[2])
            elif seq and len(c):
                c[op[1] % len(c)] = item(op[2])
        elif k == "setslice" and seq:
            c[op[1]:op[2]] = [item(s) for s in op[3]]
        elif k == "del":
            if seq and len(c):
                del c[op[1] % len(c)]
            elif kind == "dict" and len(c):
                del c[list(c)[op[1] % len(c)]]
            elif len(c):
                c.discard(at(op[1]))
        elif k == "delslice" and seq:
            del c[op[1]:op[2]]
        elif k == "pop" and len(c):
            if seq:
                c.pop(op[1] % len(c))
            elif kind == "dict":
                c.pop(list(c)[op[1] % len(c)]) if op[1] % 2 else c.popitem()
            else:
                c.pop()
        elif k == "remove" and len(c) and kind != "dict":
            c.remove(at(op[1]))
        elif k == "clear":
            c.clear()
        elif k == "extend" and seq:
            c.extend([item(s) for s in op[1]])
        elif k == "reverse" and seq:
            c.reverse(emit_individual_events=op[1])
        elif k == "move" and seq and len(c):
            c.move(op[1] % len(c), op[2] % len(c))
        elif k == "update" and not seq:
            vs = [item(s) for s in op[1]]
            c.update({str(j): v for j, v in enumerate(vs)} if kind == "dict" else vs)
        elif k == "inplace" and kind in ("set", "oset"):
            vs = [item(s) for s in op[2]] + contents()[:1]
            x = c
            if op[1] == "|":
                x |= set(vs)
            elif op[1] == "&":
                x &= set(vs)
            elif op[1] == "-":
                x -= set(vs)
            else:
                x ^= set(vs)
        elif kind == "slist" and k == "select":
            c.selection = [c[j % len(c)] for j in op[1]] if len(c) else []
        elif kind == "slist" and k == "next":
            c.select_next()
        elif kind == "slist" and k == "rmsel":
            c.remove_selected()
        elif k == "same" and seq and len(c):
            j = op[1] % len(c)
            c[j] = c[j]
        elif k == "let" and kept:
            del kept[sorted(kept)[op[1] % len(kept)]]

    def held():
        return {id(x) for x in contents()} | set(kept) | {mark_id}

    for op in case["ops"]:
        if case["paused"]:
            with c.events.paused():
                act(op)
        else:
            act(op)
        w.verify(op, held())
        if kind == "list_child":
            inside = {id(x) for x in c}
            for o in kept.values():
                if id(o) not in inside and type(o) is K["emitter"]:
                    eq(len(o.sig), 0, "connections of an item that was removed")
            o = None
    # the container dies though items of it live
    if not case["keep"]:
        kept.clear()
    if kept and any(id(x) in kept for x in contents()):
        ctx.label("items outlive their container")
    w.add(c, "a dropped container")
    w.add(c.events, "the events of a dropped container")
    if kind == "slist":
        w.add(c.selection, "the selection of a dropped list")
    c = listener = None
    w.verify("dropping the container", set(kept))
    for o in kept.values():
        if type(o) is K["emitter"]:
            eq(len(o.sig), 0, "connections of an item of a dropped container")
            o.sig.emit(1)
        elif type(o) in (K["dc"], K["em"]):
            eq([len(o.events.x), len(o.events.all)], [0, 0], "connections of an item of a dropped container")
            o.x = 5


# ------------------------------------------------------------------ objects


def _object(case, ctx):
    from psygnal import EmitLoopError
    from psygnal.utils import monitor_events

    fl = case["flavour"]
    cls = _classes()[fl]
    ctx.label(fl)
    w = Watch(ctx)
    threads = Threads(w)
    plain = fl in ("owner", "group")
    obj = cls()

    def signal(f):
        return getattr(obj, f) if fl == "owner" else obj[f] if fl == "group" else obj.events[f]

    def group():
        return None if fl == "owner" else obj if fl == "group" else obj.events

    def assign(f, p):
        try:
            if plain:
                signal(f).emit(p)
            else:
                setattr(obj, f, p)
        except EmitLoopError:
            ctx.label("failed")

    conns = {}
    waits = [False]

    def held():
        ids = set()
        if not plain:
            ids |= {id(obj.x), id(obj.y)}
        for _f, kind, cb in conns.values():
            ids.add(id(cb))
            if kind in ("fn", "group", "other", "raise"):
                ids |= {id(c) for c in cb.__defaults__}
        if waits[0]:
            ids |= {id(r()) for r, _ in w.refs}
        return ids

    for op in case["ops"]:
        k = op[0]
        if k == "set":
            assign(op[1], w.new("a replaced value"))
            waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "again":
            if not plain:
                assign(op[1], getattr(obj, op[1]))
        elif k == "noeq":
            assign(op[1], w.new("a replaced value that cannot be compared", NoEq))
            waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "prop":
            if fl == "model_prop":
                try:
                    obj.both = (w.new("a replaced value"), w.new("a replaced value"))
                except EmitLoopError:
                    pass
                waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "conn":
            _, n, f, kind = op
            if n in conns or fl == "owner" and kind in ("group", "groupmeth"):
                continue
            where = group() if kind in ("group", "groupmeth") else signal(f)
            if kind in ("meth", "groupmeth"):
                r = w.add(Recv(), "a disconnected object")
                where.connect(r.meth)
                conns[n] = (f, kind, r)
                r = None
            else:
                mark = w.new("a disconnected callback")
                if kind == "raise":
                    def fn(v, mark=mark):
                        raise Boom(v)
                else:
                    def fn(v, mark=mark):
                        return [v]
                mark = None
                where.connect(fn, thread=threads.other if kind == "other" else None)
                conns[n] = (f, kind, fn)
                fn = None
            where = None
        elif k == "disc":
            if op[1] not in conns:
                continue
            f, kind, cb = conns.pop(op[1])
            where = group() if kind in ("group", "groupmeth") else signal(f)
            where.disconnect(cb.meth if "meth" in kind else cb)
            where = cb = None
        elif k == "discall":
            for n in [n for n, c in conns.items() if c[0] == op[1] and not c[1].startswith("group")]:
                f, kind, cb = conns.pop(n)
                signal(f).disconnect(cb.meth if "meth" in kind else cb)
                cb = None
        elif k == "paused":
            try:
                with signal(op[1]).paused():
                    for _ in range(op[2]):
                        assign(op[1], w.new("a value assigned in a pause"))
            except EmitLoopError:
                pass
            waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "blocked":
            with signal(op[1]).blocked() if fl == "owner" else group().blocked():
                assign(op[1], w.new("a value assigned while blocked"))
        elif k in ("monitor", "gmonitor"):
            mark = w.new("a logger")

            def logger(info, mark=mark):
                pass

            mark = None
            with monitor_events(obj, logger) if k == "monitor" else monitor_events(logger=logger):
                assign(op[1], w.new("a monitored value"))
            logger = None
            waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "reset":
            if fl.startswith("model"):
                _quietly(obj.reset)
                waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "update":
            if fl.startswith("model"):
                _quietly(lambda: obj.update({op[1]: w.new("an updated value")}))
                waits[0] = waits[0] or any(c[1] == "other" for c in conns.values())
        elif k == "drain":
            threads.drain()
            waits[0] = False
        clear_exc()
        w.verify(op, held())
    threads.drain()
    waits[0] = False
    keep = None
    if case["keep"] == "group":
        keep = group()
    elif case["keep"] == "signal":
        keep = signal("x")
    w.add(obj, "a dropped object")
    if keep is None and group() is not None:
        w.add(group(), "the events of a dropped object")
    conns.clear()
    threads.drop()
    obj = None
    if keep is None or fl == "group":
        keep = None
        w.verify("dropping the object")
    else:
        # the events alone do not keep their object
        o = next(x for x in w.refs if x[1] == "a dropped object")
        for _ in range(3):
            if o[0]() is not None:
                gc.collect()
        check(o[0]() is None, "the %s of a dropped object keep it alive", case["keep"])
        ctx.label("events outlive their object")
        o = keep = None
        w.verify("dropping the object's events")
    new = cls()
    for f in "xy":
        s = getattr(new, f) if fl == "owner" else new[f] if fl == "group" else new.events[f]
        eq(len(s), 0, "connections of a new object")
        check(fl in ("owner",) or len(new.all if fl == "group" else new.events.all) == 0, "connections of a new object's group")


REGRESSIONS = []

