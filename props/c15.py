"""C15: evented dataclasses emit (new, old) iff an attribute changed."""
from __future__ import annotations

import warnings

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C15"
RULE = (
    "A case is a generated dataclass-like class (12 flavours of dataclass/attrs/msgspec/pydantic/plain, 1-3 fields, "
    "optional frozen field, property, own __setattr__, equality operators, field aliases, inheritance with or without "
    "re-decoration, one or two groups) built twice, evented and undecorated, and a history of assignments, deletions, "
    "(dis)connections, new and dropped instances run on both. Results must be the same and the events those computed "
    "from the undecorated twin. Non-trivial: an event was expected and an assignment that must stay silent happened."
)
ASSUMPTIONS = ["a class is undecorated-equivalent: the twin is built by the same code without psygnal"]
QUICK, THOROUGH = 2200, 20000
QUICK_S = 25
FLAVOURS = ["dataclass", "dataclass_slots", "dataclass_frozen", "attrs", "attrs_noslots", "attrs_conv",
            "msgspec", "msgspec_weak", "pydantic", "pydantic_va", "pydantic_dc", "plain"]
TYPES = ["int", "int", "int", "str", "float", "arr", "any", "any", "list", "noann", "lazy", "obj"]
NAMES = ["a", "b", "c"]
POOL = {
    "int": [0, 1, 1, 2, 9, 7, True],
    "str": ["", "x", "y", "X"],
    "float": [0.0, 1.0, "nan", 2.5, 1],
    "arr": ["@12", "@12", "@13", "@123"],
    "any": [None, 1, "@12", "@12", "@13", "s", "#12", "#12", "(12", "#r", "#r", "!0", "!0", "!1", "&0", "&1", "1.5", "1.5"],
    "list": ["#", "#1", "#1", "#12"],
}
POOL["noann"] = POOL["obj"] = POOL["any"]
POOL["lazy"] = ["?0", "?0", "?1", "?2"]


def strategy(tier):
    f = st.integers(0, 4)
    inst = st.sampled_from([0, 0, 0, 0, 1, 2])
    setop = st.tuples(st.just("set"), inst, f, st.integers(0, 17)).map(list)
    ops = st.one_of(
        setop, setop, setop, setop, setop, setop, setop,
        st.tuples(st.just("again"), inst, f, st.integers(0, 17)).map(list),
        st.tuples(st.just("again"), inst, f, st.integers(0, 17)).map(list),
        st.tuples(st.just("prop"), inst, st.integers(0, 7)).map(list),
        st.tuples(st.just("extra"), inst, st.integers(0, 2)).map(list),
        st.tuples(st.just("del"), inst, f).map(list),
        st.tuples(st.just("listen"), inst, st.integers(0, 5), st.integers(0, 1)).map(list),
        st.tuples(st.just("unlisten"), inst, st.integers(0, 5), st.integers(0, 1)).map(list),
        st.tuples(st.just("glisten"), inst, st.integers(0, 1)).map(list),
        st.tuples(st.just("new"), inst).map(list),
        st.tuples(st.just("boom"), inst, f).map(list),
        st.tuples(st.just("react"), inst, f, f, st.integers(0, 7)).map(list),
        st.tuples(st.just("access"), inst).map(list),
        st.just(["base"]),
    )
    return st.fixed_dictionaries({
        "flavour": st.sampled_from(FLAVOURS),
        "types": st.lists(st.sampled_from(TYPES), min_size=1, max_size=3),
        "frozen0": st.sampled_from([False, False, False, True]),
        "via": st.sampled_from(["decorator", "decorator", "descriptor", "nocache", "two", "classic", "group"]),
        "alias": st.sampled_from([None, None, "map", "swap", "skip", "call", "base", "shift"]),
        "eqop": st.sampled_from([None, None, "arg", "attr"]),
        "strict": st.booleans(),
        "own": st.sampled_from([None, None, "super", "clamp", "raise", "after", "mirror"]),
        "inherit": st.sampled_from([None, None, "plain", "again", "other_ns"]),
        "sub_own": st.sampled_from([None, None, "super", "clamp"]),
        "sub_alias": st.booleans(),
        "start": st.lists(st.sampled_from(["all", "all", "group", "none"]), min_size=3, max_size=3),
        "ops": st.lists(ops, min_size=5, max_size=14 if tier == "quick" else 40),
    })


class Boom(Exception):
    pass


def close(a, b):
    if type(a) is int and type(b) is int:
        return abs(a - b) < 2
    return feq(a, b)


def strict(a, b):
    return abs(a - b) < 2  # raises for most types


class Incomparable:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise ValueError("not comparable")

    __hash__ = None

    def __repr__(self):
        return f"Incomparable({self.n})"


class Lazy:
    """Stands for a dask collection: comparing two of them would start a computation."""

    compared = 0

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        Lazy.compared += 1
        return True

    __hash__ = object.__hash__

    def __bool__(self):
        Lazy.compared += 1
        return True

    def __array__(self, *a, **k):
        Lazy.compared += 1
        raise ValueError("computed")

    def __repr__(self):
        return f"Lazy({self.n})"


Lazy.__module__ = "dask.lazy"
LAZY = [Lazy(0), Lazy(1), Lazy(2)]
INCOMPARABLE = [Incomparable(0), Incomparable(1)]
RAISING = []


def raising():
    import numpy as np

    for _ in range(0 if RAISING else 2):
        a = np.empty(2, dtype=object)
        a[0], a[1] = np.arange(2), 0
        RAISING.append(a)




def value(t, i):
    import numpy as np

    raising()
    v = POOL[t][i % len(POOL[t])]
    if v == "nan":
        return float("nan")
    if isinstance(v, str) and v.startswith("@"):
        return np.array([int(c) for c in v[1:]])
    if v == "1.5":
        return float(v)
    if isinstance(v, str) and v.startswith("&"):  # comparing two of them raises
        return RAISING[int(v[1:])]
    if v == "#r":
        return [[1], [1, 2]]
    if isinstance(v, str) and v.startswith("#"):
        return [int(c) for c in v[1:]]
    if isinstance(v, str) and v.startswith("("):
        return tuple(int(c) for c in v[1:])
    if isinstance(v, str) and v.startswith("?"):
        return LAZY[int(v[1:])]
    if isinstance(v, str) and v.startswith("!"):
        return INCOMPARABLE[int(v[1:])]
    return v


def feq(a, b, op=lambda a, b: a == b):
    import numpy as np

    if isinstance(a, Lazy) and isinstance(b, Lazy):
        return a is b
    try:
        return bool(op(a, b))
    except Exception:  # noqa: BLE001  (these two values cannot be compared so)
        pass
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            return bool(np.array_equal(a, b))
        except Exception:  # noqa: BLE001
            pass
    return a is b


def same(a, b):
    import numpy as np

    if isinstance(a, (Incomparable, Lazy)) or isinstance(b, (Incomparable, Lazy)):
        return a is b
    if any(a is x or b is x for x in RAISING):
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and bool(np.array_equal(a, b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return type(a) is type(b) and a == b


NO = "!missing"


def build(case, evented):
    """Return (Base, Cls, info) built the same way with or without psygnal."""
    import dataclasses
    from typing import Any, ClassVar

    import numpy as np

    flavour = case["flavour"]
    types = {"int": int, "str": str, "float": float, "arr": np.ndarray, "any": Any, "list": list, "noann": Any,
             "lazy": Lazy, "obj": object}
    if evented:
        import psygnal
        from psygnal import Signal, SignalGroup, SignalGroupDescriptor

    own = case["own"] if flavour != "dataclass_frozen" else None
    sub_own = case["sub_own"] if flavour != "dataclass_frozen" and case["inherit"] else None
    if flavour.startswith("attrs") and (own or sub_own):
        flavour = "attrs_noslots" if flavour == "attrs_noslots" else "attrs"  # no on_setattr hooks then
    frozen0 = case["frozen0"] and case["alias"] != "shift" and (flavour.startswith("pydantic") and flavour != "pydantic_dc"
                                   or flavour.startswith("attrs") and not own and not sub_own)

    def own_setattr(kind, parent, fields):
        if kind is None:
            return None

        def __setattr__(self, name, value):
            if kind == "clamp" and name == fields[0] and type(value) is int:
                value = min(value, 5)
            if kind == "raise" and name == fields[-1] and type(value) is int and value == 9:
                raise Boom("refused")
            parent().__setattr__(self, name, value)
            if kind == "after" and name == fields[0] and type(value) is int and value == 9:
                raise Boom("after")
            if kind == "mirror" and name == fields[0] and len(fields) > 1 and hasattr(self, fields[1]):
                setattr(self, fields[1], value)

        return __setattr__

    def default(t):
        return {"int": 0, "str": "", "float": 0.0, "any": None, "noann": None, "obj": None, "lazy": LAZY[0]}.get(t, NO)

    def make(name, bases, fields, tys, own, ns_extra, first):
        ns = {"__module__": __name__, "__qualname__": name, "__annotations__": {}}
        holder = []
        own_base = {"pydantic": None, "pydantic_va": None}

        def parent():
            return holder[0]

        fn = own_setattr(own, parent, fields if first else all_fields)
        if fn is not None:
            ns["__setattr__"] = fn
        for f, t in zip(fields, tys):
            ns["__annotations__"][f] = types[t]
            d = default(t)
            mk = (lambda: np.array([1, 2])) if t == "arr" else list
            frozen = frozen0 and first and f == fields[0]
            if flavour.startswith("dataclass") or flavour == "pydantic_dc":
                ns[f] = dataclasses.field(default_factory=mk) if d is NO else d
            elif flavour.startswith("attrs"):
                import attrs

                kw = {"factory": mk} if d is NO else {"default": d}
                if frozen:
                    kw["on_setattr"] = attrs.setters.frozen
                elif flavour == "attrs_conv" and t == "str":
                    kw["converter"] = lambda v: v.lower() if isinstance(v, str) else v
                elif flavour == "attrs_conv" and t == "int":
                    kw["validator"] = attrs.validators.instance_of(int)
                ns[f] = attrs.field(**kw)
            elif flavour.startswith("msgspec"):
                import msgspec

                ns[f] = msgspec.field(default_factory=mk) if d is NO else d
            elif flavour.startswith("pydantic"):
                import pydantic

                kw = {"default_factory": mk} if d is NO else {"default": d}
                ns[f] = pydantic.Field(frozen=True if frozen else None, **kw)
        if flavour == "plain":
            allf = list(zip(fields, tys)) if first else list(zip(all_fields, all_types))

            def __init__(self):
                for f, t in allf:
                    d = default(t)
                    setattr(self, f, (np.array([1, 2]) if t == "arr" else []) if d is NO else d)

            ns["__init__"] = __init__
            ns.pop("__annotations__")
        if first:
            f0 = fields[0]
            ns["twice"] = property(lambda self: (getattr(self, f0), 2), lambda self, v: setattr(self, f0, v))
            if case["eqop"] == "attr":
                ns["__eq_operators__"] = {f0: strict if case.get("strict") else close}
                if "__annotations__" in ns:
                    ns["__annotations__"]["__eq_operators__"] = ClassVar
        for k, v in ns_extra.items():
            ns[k] = v
            if "__annotations__" in ns:
                ns["__annotations__"][k] = ClassVar
        if flavour == "pydantic_va":
            ns["model_config"] = {"validate_assignment": True, "arbitrary_types_allowed": True}
        elif flavour == "pydantic":
            ns["model_config"] = {"arbitrary_types_allowed": True}
        if not bases:
            if flavour in ("pydantic", "pydantic_va"):
                import pydantic

                bases = (pydantic.BaseModel,)
            elif flavour.startswith("msgspec"):
                import msgspec

                bases = (msgspec.Struct,)
        kw = {"weakref": True} if flavour == "msgspec_weak" else {}
        import types as _t

        cls = _t.new_class(name, bases, kw, lambda d: d.update(ns))
        if flavour == "dataclass":
            cls = dataclasses.dataclass(cls)
        elif flavour == "dataclass_slots":
            cls = dataclasses.dataclass(slots=True, weakref_slot=first)(cls)
        elif flavour == "dataclass_frozen":
            cls = dataclasses.dataclass(frozen=True)(cls)
        elif flavour.startswith("attrs"):
            import attrs

            cls = attrs.define(slots=flavour != "attrs_noslots")(cls)
        elif flavour == "pydantic_dc":
            import pydantic

            cls = pydantic.dataclasses.dataclass(config={"arbitrary_types_allowed": True})(cls)
        holder.append(cls.__mro__[1] if cls.__mro__[1] is not object else object)
        return cls

    fields = NAMES[: len(case["types"])]
    all_fields = fields + (["s"] if case["inherit"] else [])
    all_types = case["types"] + (["int"] if case["inherit"] else [])
    alias_kind = case["alias"]
    # attrs fields frozen by on_setattr keep their signal, pydantic ones have none
    with_signal = [f for f in fields if not (frozen0 and f == fields[0] and flavour.startswith("pydantic"))]

    def alias_map(names):
        if alias_kind == "map":
            return {names[0]: "sig_" + names[0]}
        if alias_kind == "swap" and len(names) > 1:
            return {names[0]: names[1], names[1]: names[0]}
        if alias_kind == "skip":
            return {names[-1]: None}
        return None

    def call(f):
        if alias_kind == "shift":  # the first has no signal, the others that of the one before
            return None if f == "a" else chr(ord(f) - 1)
        return None if f == "b" else "sig_" + f

    def resolve(names, how):
        """field -> signal name, as documented"""
        out = {f: f for f in names}
        if how == "call":
            out = {f: call(f) for f in names}
        elif isinstance(how, dict):
            out.update({k: v for k, v in how.items() if k in out})
        return {k: v for k, v in out.items() if v is not None}

    how = "call" if alias_kind in ("call", "shift") else alias_map(with_signal) if with_signal else None
    arg = call if how == "call" else how
    eqops = {fields[0]: strict if case.get("strict") else close} if case["eqop"] == "arg" else None
    via = case["via"]
    if flavour == "plain" and via != "group":
        via = "group"
    groups = {"events": resolve(with_signal, how)}
    extra = {}
    if evented:
        kw = {"equality_operators": eqops, "signal_aliases": arg, "warn_on_no_fields": False}
        if via in ("descriptor", "two"):
            extra["events"] = SignalGroupDescriptor(**kw)
        elif via == "nocache":
            extra["events"] = SignalGroupDescriptor(cache_on_instance=False, **kw)
        elif via == "group":
            G = type("G", (SignalGroup,), {s: Signal(object, object) for s in groups["events"].values()})
            if how == "call":
                kw["signal_aliases"] = {f: call(f) for f in with_signal}
            extra["events"] = SignalGroupDescriptor(signal_group_class=G, collect_fields=False, **kw)
        if via == "two":
            extra["more"] = SignalGroupDescriptor(warn_on_no_fields=False)
    if via == "two":
        groups["more"] = resolve(with_signal, None)
    if via == "group" and how == "call":
        how = {f: call(f) for f in with_signal}
    Base = make("Cls", (), fields, case["types"], own, extra, True)
    if evented and via in ("decorator", "classic"):
        Base = psygnal.evented(Base, events_namespace="events", equality_operators=eqops, signal_aliases=arg,
                               warn_on_no_fields=False, cache_on_instance=via == "decorator")
    Cls, info = Base, groups
    base_info = groups
    if case["inherit"]:
        extra = {}
        info = {k: dict(v) for k, v in groups.items()}
        sub_how = {"s": "sub_s"} if case["sub_alias"] else None
        if via == "group":
            pass  # the given group class has no signal for s
        else:
            info["events"] = resolve(with_signal + ["s"], how)
            if "more" in info:
                info["more"]["s"] = "s"
        Cls = make("Cls", (Base,), ["s"], ["int"], sub_own, extra, False)
        if case["inherit"] == "again" and via != "group":
            if evented:
                Cls = psygnal.evented(Cls, events_namespace="events", signal_aliases=sub_how, warn_on_no_fields=False)
            info["events"] = resolve(with_signal + ["s"], sub_how)
        elif case["inherit"] == "other_ns" and via != "group":
            if evented:
                Cls = psygnal.evented(Cls, events_namespace="ev2", signal_aliases=sub_how, warn_on_no_fields=False)
            info["ev2"] = resolve(with_signal + ["s"], sub_how)
    fieldtypes = dict(zip(all_fields, all_types))
    return Base, Cls, info, base_info, fieldtypes


def run_case(case, ctx):
    import numpy as np
    from psygnal import EmitLoopError

    if case["eqop"] == "arg" and (case["inherit"] == "other_ns" or case["via"] == "two"):
        case = {**case, "eqop": None}  # two descriptors with different operators: not specified
    if case["flavour"] == "plain" or case["via"] == "group" or case["own"] == "mirror":  # no annotations are looked at
        case = {**case, "types": ["any" if t == "lazy" else t for t in case["types"]]}
    if case["eqop"] and case["types"][0] == "lazy":
        case = {**case, "types": ["any", *case["types"][1:]]}
    Lazy.compared = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        EBase, ECls, groups, base_groups, ftypes = build(case, True)
        TBase, TCls, *_ = build(case, False)
    fields = list(ftypes)
    f0 = fields[0]
    # which equality applies to the first field (of the instance's class)?
    via_group = case["via"] == "group" or case["flavour"] == "plain"
    eq0 = feq
    given = (lambda a, b: feq(a, b, strict)) if case.get("strict") else close
    if case["eqop"] == "attr":
        eq0 = given
    elif case["eqop"] == "arg":
        eq0 = given
        if case["inherit"] == "again" and not via_group:
            eq0 = feq  # the new descriptor of the subclass was given no operators

    def equal(f, a, b):
        if a is NO or b is NO:
            return False
        if f == f0 and eq0 is not feq:
            return eq0(a, b)
        if ftypes[f] == "arr" and not via_group:
            return feq(a, b, np.array_equal)
        return feq(a, b)

    log = []
    insts, twins, listeners = [], [], []

    def new(i):
        e, t = ECls(), TCls()
        if i < len(insts):
            insts[i] = twins[i] = listeners[i] = None
            insts[i], twins[i], listeners[i] = e, t, {}
        else:
            insts.append(e)
            twins.append(t)
            listeners.append({})

    for i in range(3):
        new(i)
    pre = {n: g for n, g in groups.items()}

    def get(o, n):
        try:
            return getattr(o, n)
        except AttributeError:
            return NO

    def listen(i, gi, si):
        gname = sorted(groups)[gi % len(groups)]
        sigs = sorted(set(groups[gname].values()))
        if not sigs:
            return
        s = sigs[si % len(sigs)]
        key = (gname, s)
        if key in listeners[i]:
            return
        grp = getattr(insts[i], gname)
        cb = lambda *a, k=(id(insts[i]), gname, s): log.append((k, a))  # noqa: E731
        listeners[i][key] = cb
        grp[s].connect(cb)

    def glisten(i, gi):
        gname = sorted(groups)[gi % len(groups)]
        key = (gname, "*")
        if key in listeners[i]:
            return
        cb = lambda info, k=(id(insts[i]), gname): log.append((k + ("*", info.signal.name), info.args))  # noqa: E731
        listeners[i][key] = cb
        getattr(insts[i], gname).connect(cb)

    def unlisten(i, gi, si):
        gname = sorted(groups)[gi % len(groups)]
        sigs = sorted(set(groups[gname].values()))
        if not sigs:
            return
        key = (gname, sigs[si % len(sigs)])
        cb = listeners[i].pop(key, None)
        if cb is not None:
            getattr(insts[i], gname)[key[1]].disconnect(cb)

    def compare(i, what):
        for f in [*fields, "twice", "extra"]:
            a, b = get(insts[i], f), get(twins[i], f)
            if f == "twice":
                if (a is NO) != (b is NO) or (a is not NO and not same(a[0], b[0])):
                    raise Violation(f"{what}: property is {a!r}, undecorated {b!r}")
                continue
            check(same(a, b), "%s: %s is %r, on the undecorated class %r", what, f, a, b)
        if case["flavour"] != "plain":
            ra, rb = rep(insts[i]), rep(twins[i])
            check(ra == rb, "%s: repr %s, undecorated %s", what, ra, rb)

    def rep(o):
        try:
            return repr(o)
        except AttributeError as e:
            return str(type(e))

    seen_event, seen_silent = [False], [False]
    shots = []  # one-shot callbacks: (inst index, signal key)
    fired = []

    def run(i, f, do, what):
        """do(obj) on both; compare result, state and events"""
        before = {g: {n: get(t, n) for n in fields} for g, t in enumerate(twins)}
        log.clear()
        fired.clear()
        terr = eerr = None
        try:
            do(twins[i])
        except Exception as e:  # noqa: BLE001
            terr = e
        try:
            do(insts[i])
        except Exception as e:  # noqa: BLE001
            eerr = e
        if "boom" in fired:
            check(isinstance(eerr, EmitLoopError), "%s: a listener raised, but the assignment gave %r", what, eerr)
        elif fired:
            pass
        else:
            check(type(terr).__name__ == type(eerr).__name__, "%s: gives %r, on the undecorated class %r", what, eerr, terr)
        if "react" in fired:
            # a listener assigned another field: let the twin follow, only the last values are compared
            for (k, a) in log:
                pass
            for n in fields:
                v = get(insts[i], n)
                lastf = [a for (k, a) in log if k[0] == id(insts[i]) and k[-1] in [m.get(n) for m in groups.values()]]
                unique = sum(1 for m in groups.values() for s in m.values() if s == groups.get("events", {}).get(n)) <= len(groups)
                if lastf and unique and case["alias"] not in ("swap", "shift") and eerr is None:
                    if not any(same(a[0], v) or equal(n, v, a[0]) for a in lastf):
                        raise Violation(f"{what}: {n} is {v!r} but its listeners only saw {lastf!r}")
            for n in fields:
                v = get(insts[i], n)
                if v is not NO and not same(get(twins[i], n), v):
                    try:
                        object.__setattr__(twins[i], n, v)
                    except TypeError:
                        import msgspec

                        msgspec.Struct.__setattr__(twins[i], n, v)
            return
        for g in range(3):
            compare(g, what)
        want = {}
        for g, t in enumerate(twins):
            for n in fields:
                b, a = before[g][n], get(t, n)
                changed = (g == i and touched(n, b, a, f))
                for gname, m in groups.items():
                    if n not in m:
                        continue
                    for key in ((gname, m[n]), (gname, "*")):
                        if key not in listeners[g]:
                            continue
                        if changed:
                            k = (id(insts[g]), gname) + (("*", m[n]) if key[1] == "*" else (m[n],))
                            want.setdefault(k, []).append((a, b))
                            seen_event[0] = True
                        elif g == i and n == f:
                            seen_silent[0] = True
        got = {}
        for k, a in log:
            got.setdefault(k, []).append(a)
        for k in {*want, *got}:
            w, x = want.get(k, []), got.get(k, [])
            okk = len(w) == len(x) and all(
                len(p) == 2 and same(p[0], q[0]) and (q[1] is NO or same(p[1], q[1])) for p, q in zip(x, w)
            )
            if not okk and "boom" in fired and len(x) <= len(w):
                continue  # listeners after the raising one are not called
            check(okk, "%s: listener of %s got %r, expected (new, old) %r", what, k[1:], x, w)

    def touched(n, b, a, f):
        """did this operation assign field n, with an effect?"""
        if f == "del":
            return False
        assigned = [f0 if f == "twice" else f]
        mirror = case["own"] == "mirror" and case["flavour"] != "dataclass_frozen"
        if mirror and assigned[0] == f0 and len(fields) > 1:
            assigned.append(fields[1] if len(case["types"]) > 1 else None)
        if n not in assigned:
            return False
        if a is b or (a is not NO and b is not NO and same(a, b)):
            # a NaN assigned over a NaN counts as a change, an equal value does not
            if not (isinstance(a, float) and a != a):
                return not equal(n, a, b) if a is not NO else False
            return state_assigned[0]
        return not equal(n, a, b)

    state_assigned = [True]
    for i, how in enumerate(case["start"]):
        for gi in range(len(groups) if how != "none" else 0):
            if how == "group":
                glisten(i, gi)
            else:
                for si in range(4):
                    listen(i, gi, si)
    steps = []
    for op in case["ops"]:
        if op[0] == "again":  # the same value (a new object, maybe) twice
            steps += [["set", *op[1:]], ["set", *op[1:]]]
        else:
            steps.append(op)
    for op in steps:
        k = op[0]
        if k == "set":
            i, f = op[1], fields[op[2] % len(fields)]
            v = value(ftypes[f], op[3])
            state_assigned[0] = True

            def do(o, f=f, v=v):
                setattr(o, f, v)

            # did the assignment itself go through on the twin?
            probe = []
            run(i, f, do, f"{f} = {v!r}")
        elif k == "prop":
            i = op[1]
            v = value(ftypes[f0], op[2])
            run(i, "twice", lambda o: setattr(o, "twice", v), f"twice = {v!r}")
        elif k == "extra":
            run(op[1], "extra", lambda o: setattr(o, "extra", op[2]), f"extra = {op[2]!r}")
        elif k == "del":
            i, f = op[1], fields[op[2] % len(fields)]
            run(i, "del", lambda o: delattr(o, f), f"del {f}")
        elif k == "listen":
            listen(op[1], op[3], op[2])
        elif k == "unlisten":
            unlisten(op[1], op[3], op[2])
        elif k == "glisten":
            glisten(op[1], op[2])
        elif k == "new":
            new(op[1])
        elif k == "access":
            for gname in groups:
                getattr(insts[op[1]], gname)
        elif k == "base" and case["inherit"]:
            b = EBase()
            for gname in base_groups:
                eq(sorted(getattr(b, gname)), sorted(set(base_groups[gname].values())), f"signals of base {gname}")
        elif k in ("boom", "react"):
            i, f = op[1], fields[op[2] % len(fields)]
            names = [(g, m[f]) for g, m in sorted(groups.items()) if f in m]
            if not names:
                continue
            sig = getattr(insts[i], names[0][0])[names[0][1]]
            done = []
            dst = fields[op[3] % len(fields)] if k == "react" else None
            v = value(ftypes[dst], op[4]) if dst else None

            def cb(*a, k=k, done=done, o=insts[i] if k == "react" else None, dst=dst, v=v):
                if done:
                    return
                done.append(1)
                fired.append(k)
                if k == "boom":
                    raise Boom("listener")
                try:
                    setattr(o, dst, v)
                except EmitLoopError:
                    raise
                except Exception:  # noqa: BLE001
                    pass

            if k == "react" and case["own"] in ("raise", "after"):
                continue
            sig.connect(cb)
    eq(Lazy.compared, 0, "comparisons of lazy collections")
    for i, o in enumerate(insts):
        for gname, m in groups.items():
            g1 = getattr(o, gname)
            check(g1 is getattr(o, gname), "%s is not stable", gname)
            eq(sorted(g1), sorted(set(m.values())), f"signals of {gname}")
            check(g1.instance is None or g1.instance is o, "%s.instance is another object", gname) if hasattr(g1, "instance") else None
    ctx.nontrivial(seen_event[0] and seen_silent[0])
    ctx.label(case["flavour"], f"via:{case['via']}", f"alias:{case['alias']}", f"eqop:{case['eqop']}",
              f"own:{case['own']}", f"inherit:{case['inherit']}", *(f"op:{o[0]}" for o in case["ops"]))


_B = {"flavour": "dataclass", "types": ["int"], "frozen0": False, "via": "decorator", "alias": None, "eqop": None,
      "own": None, "inherit": None, "sub_own": None, "sub_alias": False, "start": ["none"] * 3}
REGRESSIONS = [
    {**_B, "via": "two", "ops": [["listen", 0, 0, 0], ["listen", 0, 0, 1], ["set", 0, 0, 1], ["set", 0, 0, 1]]},
    {**_B, "own": "super", "inherit": "again", "sub_own": "super",
     "ops": [["base"], ["listen", 0, 0, 0], ["listen", 0, 1, 0], ["set", 0, 0, 1], ["set", 0, 1, 1]]},
    {**_B, "inherit": "again", "sub_alias": True, "ops": [["base"], ["listen", 0, 1, 0], ["set", 0, 1, 1], ["set", 0, 1, 1]]},
    {**_B, "eqop": "attr", "ops": [["listen", 0, 0, 0], ["set", 0, 0, 1], ["set", 0, 0, 4]]},
    {**_B, "eqop": "arg", "via": "group", "ops": [["listen", 0, 0, 0], ["set", 0, 0, 1], ["set", 0, 0, 4]]},
]
