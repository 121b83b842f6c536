"""Run by c34 in a fresh interpreter: JSON case on stdin, JSON results on stdout."""
import importlib
import json
import os
import sys
import types

SRC = sys.argv[1]


class Block:
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in self.roots:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def third_party():
    roots = {m.partition(".")[0] for m, v in sys.modules.items() if v is not None}
    return {r for r in roots - set(sys.stdlib_module_names) - {"psygnal"} if not r.startswith("_")}


def note(lst):
    def f(*a):
        lst.append(list(a))
    return f


# Each operation: packages the program itself imports, packages psygnal needs for it (and so may
# import, or fail with ImportError without), function, expected result.
OPS = {}


def op(expected, user=(), needs=()):
    def deco(f):
        OPS[f.__name__] = (f, expected, user, needs)
        return f
    return deco


@op([[1], [2]])
def signal():
    from psygnal import Signal

    class E:
        s = Signal(int)
    e, got = E(), []
    f = note(got)
    e.s.connect(f)
    e.s.emit(1)
    with e.s.blocked():
        e.s.emit(7)
    e.s(2)
    e.s.disconnect(f)
    e.s.emit(3)
    return got


@op([1, 0, [5]])
def weak_method():
    from psygnal import Signal

    class E:
        s = Signal(int)

    class T:
        x = []

        def m(self, v):
            self.x.append(v)
    e, t = E(), T()
    e.s.connect(t.m)
    e.s.emit(5)
    n = len(e.s)
    del t
    e.s.emit(6)
    return [n, len(e.s), T.x]


@op([3, {"k": 4}, 1])
def set_targets():
    from psygnal import Signal

    class E:
        s = Signal(int)

    class T:
        a = None

    class D(dict):
        __hash__ = object.__hash__
    e, t, d = E(), T(), D()
    e.s.connect_setattr(t, "a")
    e.s.emit(3)
    a = t.a
    e.s.disconnect_setattr(t, "a")
    e.s.connect_setitem(d, "k")
    e.s.emit(4)
    return [a, dict(d), len(e.s)]


@op([["a", [1]], ["b", ["x"]]])
def group():
    from psygnal import Signal, SignalGroup

    class G(SignalGroup):
        a = Signal(int)
        b = Signal(str)
    g, got = G(), []
    g.all.connect(lambda info: got.append([info.signal.name, list(info.args)]))
    g.a.emit(1)
    g["b"].emit("x")
    return got


@op([[2, 1], ["q", "p"], True, "events"])
def evented_dataclass():
    import dataclasses

    from psygnal import evented, get_evented_namespace, is_evented

    @evented
    @dataclasses.dataclass
    class D:
        x: int = 1
        y: "str" = "p"
    d, got = D(), []
    d.events.x.connect(note(got))
    d.events.y.connect(note(got))
    d.x = 2
    d.x = 2
    d.y = "q"
    return [*got, is_evented(d), get_evented_namespace(D)]


@op([["x", [2, 1]], [["x", "y"]]])
def evented_descriptor():
    from dataclasses import dataclass
    from typing import ClassVar

    from psygnal import SignalGroupDescriptor

    @dataclass
    class D:
        x: int = 1
        y: list = None
        c: ClassVar[int] = 3
        events: ClassVar = SignalGroupDescriptor(equality_operators={"y": lambda a, b: True})
    d, got = D(), []
    d.events.connect(lambda info: got.append([info.signal.name, list(info.args)]))
    d.x = 2
    d.y = [1]
    return [*got, [sorted(d.events)]]


class _Odd:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        if not isinstance(other, _Odd):
            return NotImplemented
        raise RuntimeError("cannot be compared")

    __hash__ = None


@op([1])
def odd_equality():
    from dataclasses import dataclass

    from psygnal import evented

    @evented
    @dataclass
    class D:
        x: object = None
    d, got = D(_Odd(0)), []
    d.events.x.connect(note(got))
    d.x = d.x
    d.x = _Odd(0)
    return [len(got)]


class _ArrayLike:
    def __init__(self, *v):
        self.v = list(v)

    def __array__(self, *a, **k):
        import numpy

        return numpy.asarray(self.v)

    def __eq__(self, other):
        return isinstance(other, _ArrayLike) and self.v == other.v

    __hash__ = None


class _Lazy:
    compared = 0

    def __eq__(self, other):
        _Lazy.compared += 1
        return True

    __hash__ = None


_Lazy.__module__ = "dask.somewhere"


@op([[1, 2], 1, 0])
def array_likes():
    from dataclasses import dataclass

    from psygnal import evented

    @evented
    @dataclass
    class D:
        x: _ArrayLike
        y: _Lazy
    d, got, lazy = D(_ArrayLike(1), _Lazy()), [], []
    d.events.x.connect(lambda new, old: got.append(new.v[-1]))
    d.events.y.connect(lambda new, old: lazy.append(1))
    d.x = _ArrayLike(1)
    d.x = _ArrayLike(2, 1)
    d.x = _ArrayLike(2, 1)
    d.x = _ArrayLike(2, 2)
    d.y = d.y
    d.y = _Lazy()
    return [got, len(lazy), _Lazy.compared]


@op([["extra"], [3], []])
def plain_class():
    from psygnal import Signal, SignalGroup, SignalGroupDescriptor, evented

    class G(SignalGroup):
        extra = Signal(int)

    class A:
        x: int = 1
        events = SignalGroupDescriptor(signal_group_class=G, warn_on_no_fields=False)

    @evented
    class B:
        x: int = 1
    a, got = A(), []
    a.events.extra.connect(got.append)
    a.events.extra.emit(3)
    a.x = 4
    return [list(a.events), got, list(B().events)]


@op([["x", 2, 1]], user=("attr",))
def evented_attrs():
    import attr

    from psygnal import evented

    @evented
    @attr.define
    class A:
        x: int = 1
    a, got = A(), []
    a.events.x.connect(lambda *v: got.append(["x", *v]))
    a.x = 2
    return got


@op([["x", 2, 1]], user=("msgspec",))
def evented_msgspec():
    import msgspec

    from psygnal import SignalGroupDescriptor, evented

    @evented
    class A(msgspec.Struct, weakref=True, dict=True):
        x: int = 1
    a, got = A(), []
    a.events.x.connect(lambda *v: got.append(["x", *v]))
    a.x = 2
    return got


@op([["x", 2, 1]], user=("pydantic",))
def evented_pydantic():
    import pydantic

    from psygnal import evented

    @evented
    class A(pydantic.BaseModel):
        x: int = 1
    a, got = A(), []
    a.events.x.connect(lambda *v: got.append(["x", *v]))
    a.x = 2
    return got


@op([[[1, 2], [1]], "{\"l\":[1,2]}"], user=("pydantic",))
def pydantic_list():
    import pydantic

    from psygnal.containers import EventedList

    class A(pydantic.BaseModel):
        l: EventedList[int]
    a = A(l=["1", 2])
    got = []
    a.l.events.removed.connect(lambda i, v: got.append(i))
    s = a.model_dump_json()
    first = list(a.l)
    a.l.pop()
    return [[first, got], s]


@op([1], user=("numpy",))
def numpy_field():
    from dataclasses import dataclass

    import numpy as np

    from psygnal import evented

    @evented
    @dataclass
    class A:
        x: np.ndarray
    a, got = A(np.arange(3)), []
    a.events.x.connect(note(got))
    a.x = np.arange(3)
    a.x = np.arange(3) + 1
    return [len(got)]


@op([[1, 5]], user=("toolz",))
def toolz_curry():
    import toolz

    from psygnal import Signal

    class E:
        s = Signal(int)
    got = []

    @toolz.curry
    def f(a, b):
        got.append([a, b])
    e = E()
    e.s.connect(f(1))
    e.s.emit(5)
    return got


@op([[0, 1], [1, 2], [0, 2], "del", [1]])
def evented_list():
    from psygnal.containers import EventedList

    got = []
    x = EventedList()
    x.events.inserted.connect(note(got))
    x.append(1)
    x.append(2)
    x.events.inserted.disconnect()
    x.events.removed.connect(note(got))
    x[:] = [2, 1]
    got[2:] = [[0, 2]]
    return [*got, "del", [v for v in x if v == 1]]


@op([{"a": 2}, [["a", 1]], [["a", 1, 2]], [1, 3], [2]])
def dict_and_set():
    from psygnal.containers import EventedDict, EventedOrderedSet, EventedSet

    add, chg = [], []
    d = EventedDict()
    d.events.added.connect(note(add))
    d.events.changed.connect(note(chg))
    d["a"] = 1
    d["a"] = 2
    s = EventedSet([1, 2])
    s ^= {2, 3}
    o = EventedOrderedSet([3, 2])
    o.remove(3)
    return [dict(d), add, chg, sorted(s), list(o)]


@op([[2], 2, [1, 3]])
def selectable():
    from psygnal.containers import SelectableEventedList

    x = SelectableEventedList([1, 2, 3])
    x.selection.active = 2
    sel, act = list(x.selection), x.selection.active
    x.remove_selected()
    return [sel, act, list(x)]


@op([[1], [3]])
def throttle():
    from psygnal import throttled

    got = []
    f = throttled(note(got), timeout=60000)
    f(1)
    f(2)
    f(3)
    f.flush()
    f.cancel()
    return got


@op([[2]])
def debounce():
    from psygnal import debounced

    got = []
    f = debounced(timeout=60000)(note(got))
    f(1)
    f(2)
    f.flush()
    f.cancel()
    return got


@op([True, True, "ZeroDivisionError"])
def failing():
    from psygnal import EmitLoopError, Signal

    class E:
        s = Signal(int)

    def bad(v):
        return v / 0
    e = E()
    e.s.connect(bad)
    try:
        e.s.emit(1)
    except EmitLoopError as err:
        return ["E.s" in str(err), "v / 0" in str(err) or "division" in str(err), type(err.__cause__).__name__]


@op([[7], 0, True])
def queued():
    import threading

    from psygnal import Signal, emit_queued

    class E:
        s = Signal(int)
    e, got = E(), []
    e.s.connect(lambda v: got.append([v, threading.current_thread() is threading.main_thread()]), thread="main")
    t = threading.Thread(target=e.s.emit, args=(7,))
    t.start()
    t.join()
    n = len(got)
    emit_queued()
    return [[got[0][0]], n, got[0][1]]


@op([["s", [1]], 0])
def monitor():
    from psygnal import Signal
    from psygnal.utils import monitor_events

    class E:
        s = Signal(int)
    e, got = E(), []
    with monitor_events(e, lambda info: got.append([info.signal.name, list(info.args)])):
        e.s.emit(1)
    e.s.emit(2)
    return [*got, len(e.s)]


@op([True, [1], [True, True]])
def typed():
    from psygnal import Signal

    class E:
        s = Signal(int)
    e, got = E(), []

    def good(v: int):
        got.append(v)

    def bad(v: "list"):
        pass

    def many(a, b):
        pass
    res = []
    e.s.connect(good, check_types=True)
    for f, kw in ((bad, {"check_types": True}), (many, {"check_nargs": True})):
        try:
            e.s.connect(f, **kw)
            res.append(False)
        except ValueError:
            res.append(True)
    e.s.emit(1, check_types=True)
    return [good in e.s, got, res]


@op([[1, 2], [3], True])
def copies():
    import copy
    import pickle

    from psygnal.containers import EventedList

    x = EventedList([1, 2])
    y = copy.deepcopy(x)
    y[:] = [3]
    z = pickle.loads(pickle.dumps(x))
    return [list(z), list(y), z.events is not x.events]


@op([[3], "(a: int)", "signal 's'"])
def introspect():
    import inspect

    from psygnal import Signal

    def f(a: int): ...

    class E:
        s = Signal(inspect.signature(f), description="signal 's'")
    e, got = E(), []
    e.s.connect(note(got))
    e.s.emit(a=3) if False else e.s.emit(3)
    str(e.s), repr(e.s), dir(__import__("psygnal"))
    return [got[0], str(e.s.signature), e.s.description]


@op([["call", 2], ["part", 1, 2], [2], [2, 2], 5, 0])
def callables():
    from functools import partial

    from psygnal import Signal

    class E:
        s = Signal(int)
        t = Signal(int)
    got, plain = [], []

    class C:
        def __call__(self, v):
            got.append(["call", v])

    def f(a, b):
        got.append(["part", a, b])
    e, c, p = E(), C(), partial(f, 1)
    twice = lambda v: got.append([v, v])  # noqa: E731
    e.s.connect(c)
    e.s.connect(p)
    e.s.connect(plain.append)
    e.s.connect(e.t.emit)
    e.t.connect(twice)
    e.s.connect(c, unique=True)
    e.s.emit(2)
    n = len(e.s) + len(e.t)
    got.insert(2, plain)
    for cb in (c, p, plain.append, e.t.emit):
        e.s.disconnect(cb)
    return [*got[:3], got[3], n, len(e.s)]


@op([[6], [1, 2, 3], [[3, 2]]])
def paused():
    from dataclasses import dataclass

    from psygnal import Signal, evented

    class E:
        s = Signal(int)

    @evented
    @dataclass
    class D:
        x: int = 0
    e, got, every = E(), [], []
    e.s.connect(lambda v: got.append(v))
    with e.s.paused(lambda a, b: (a[0] + b[0],)):
        for i in (1, 2, 3):
            e.s.emit(i)
    e.s.disconnect()
    e.s.connect(every.append)
    with e.s.paused():
        for i in (1, 2, 3):
            e.s.emit(i)
    d, last = D(), []
    d.events.x.connect(note(last))
    with d.events.all.paused(), d.events.x.blocked():
        d.x = 1
        d.x = 2
    d.x = 3
    return [got, every, last]


@op([[0, "x", [2, 1]], [[1, 2]]])
def children():
    from dataclasses import dataclass

    from psygnal import evented
    from psygnal.containers import EventedList, Selection

    @evented
    @dataclass(eq=False)
    class D:
        x: int = 1
    d, got, sel = D(), [], []
    x = EventedList([d], child_events=True)
    x.events.child_event.connect(
        lambda i, obj, sig, args: got.append([i, sig.name, list(args)]), check_nargs=False)
    d.x = 2
    s = Selection([1])
    s.events.items_changed.connect(lambda a, r: sel.append(sorted([*a, *s])[:2] if a else []))
    s.add(2)
    return [got[0], [sorted(s)]]


@op([["attribute_set", ["a", 2]], 2], needs=("wrapt",))
def proxy():
    from psygnal.containers import EventedObjectProxy

    class T:
        a = 1
    p, got = EventedObjectProxy(T()), []
    p.events.attribute_set.connect(lambda *a: got.append(["attribute_set", list(a)]))
    p.a = 2
    return [*got, p.a]


@op([[2], {"x": 2, "y": "b"}, ["x", "y"]], needs=("pydantic",))
def model():
    import inspect

    from psygnal import EventedModel

    class M(EventedModel):
        x: int = 1
        y: str = "b"
    m, got = M(), []
    m.events.x.connect(lambda v: got.append(v))
    m.x = 2
    return [got, m.model_dump(), list(inspect.signature(M).parameters)]


@op("function", needs=("qtpy",))
def qt():
    from psygnal.qt import start_emitting_from_queue

    return type(start_emitting_from_queue).__name__


FAMILY = {
    "pydantic": {"pydantic", "pydantic_core", "annotated_types", "typing_extensions", "typing_inspection"},
    "attr": {"attr", "attrs"},
    "qtpy": {"qtpy", "packaging", "PyQt6", "PyQt5", "PySide6", "PySide2", "shiboken6"},
    "toolz": {"toolz", "tlz", "cytoolz"},
}


def main():
    case = json.load(sys.stdin)
    sys.path.insert(0, SRC)
    missing = set()
    for m in case["missing"]:
        missing |= FAMILY.get(m, {m}) if m != "typing_extensions" else {m}
    out = {"problems": [], "labels": []}
    if case["how"] == "finder":
        sys.meta_path.insert(0, Block(missing))
    else:
        for m in missing:
            sys.modules[m] = None

    def available(names):
        for n in names:
            try:
                importlib.import_module(n)
            except ImportError:
                return False
        return True

    pre = [p for p in case["preload"] if p[0] not in case["missing"]]
    allowed = {"mypy_extensions"}  # (if it is there)
    import traceback

    ok = blocked = 0
    for i, name in enumerate([None, *case["ops"]]):
        for p, at in pre:
            if at == i:
                if p == "PySide2":  # not to be had for this Python: a stand-in that is there
                    sys.modules[p] = sys.modules.get(p) or types.ModuleType(p)
                if available([p]):
                    out["labels"].append("preloaded")
        f, expected, user, needs = OPS[name] if name else (lambda: importlib.import_module("psygnal") and None, None, (), ())
        if not available(user):
            out["labels"].append("skipped")
            continue
        before = third_party()
        # without importing them here: psygnal must do that
        lacks = [n for n in needs if n in missing]
        may_lack = any(FAMILY.get(n, {n}) & missing for n in needs)  # one of its own dependencies
        may = set(allowed)
        for n in (*needs, *user, *before):  # (a package may load its parts late)
            may |= FAMILY.get(n, {n})
        where = f"op {i} {name or 'import psygnal'} (missing: {sorted(missing)})"
        try:
            got = json.loads(json.dumps(f()))
        except BaseException as e:
            if may_lack and isinstance(e, ImportError):
                blocked += 1
                out["labels"].append("refused")
            else:
                out["problems"].append(f"{where}: {''.join(traceback.format_exception_only(e)).strip()[-700:]}; at "
                                       f"{traceback.format_tb(e.__traceback__)[-1].strip()[:200]}")
                break
        else:
            if lacks:
                out["problems"].append(f"{where}: works without {lacks}?")
                break
            want = json.loads(json.dumps(expected))
            if got != want:
                out["problems"].append(f"{where}: got {got!r}, expected {want!r}")
                break
            ok += 1
        new = third_party() - before - may
        if new:
            out["problems"].append(f"{where} loads {sorted(new)}")
            break
    out["ok"], out["blocked"] = ok, blocked
    json.dump(out, sys.stdout)
    sys.stdout.flush()
    os._exit(0)  # (timers may still be running)


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    main()
