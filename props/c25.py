"""C25: a signal group has exactly the declared signals."""
from __future__ import annotations

import warnings

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C25"
RULE = (
    "A case is either a hierarchy of 1-5 SignalGroup classes and plain mixin classes (signals with 0-2 typed arguments, "
    "redeclared and reserved names, explicit signal names, strict) or a hierarchy of 1-3 dataclass-like classes (7 "
    "flavours, class variables, init-only variables, private, frozen and redeclared fields) with the options of "
    "SignalGroupDescriptor (aliases as mapping or function, own group class, collect_fields, patch_setattr, namespace). "
    "Oracle: the declared signals computed from the description. Non-trivial: inherited as well as own signals, a "
    "reserved or repeated name, or an alias."
)
ASSUMPTIONS = ["names of signals are not redeclared as something that is no signal",
               "mixin classes that are no SignalGroup have no reserved names"]
QUICK, THOROUGH = 1200, 30000
QUICK_S = 15

NAMES = ["a", "b", "c", "x_1", "_p", "connect", "all", "signals", "psygnal_z", "disconnect"]
FREE = NAMES[:5]
TYPES = [[], ["int"], ["str"], ["int", "str"], ["str", "int"], ["int", "int"], ["object"], ["list"],
         ["list[int]"], ["list[str]"], ["int2"], ["'int'"]]
NEAR = [[3, 4], [1, 5], [0, 1], [3, 5], [1, 1], [3, 3], [8, 9], [7, 8], [1, 10], [8, 8], [1, 11], [10, 11]]  # types often used together
FIELDS = ["a", "b", "c", "_p", "x_1", "all", "connect"]
FLAVOURS = ["dataclass", "dataclass_slots", "attrs", "msgspec", "pydantic", "plain", "pydantic_dc"]


def strategy(tier):
    def near(d):
        pair = d.pop("near")
        if pair is not None:
            for x in d["sigs"]:
                x[1] = pair[x[1] % 2]
        return d

    gcls = st.fixed_dictionaries({
        "near": st.one_of(st.none(), st.sampled_from(NEAR)),
        "bases": st.lists(st.integers(0, 4), max_size=2),
        "mixin": st.sampled_from([False, False, False, True]),
        "sigs": st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, len(TYPES) - 1), st.sampled_from([None, None, None, "nm"])
                                   ).map(list), max_size=4, unique_by=lambda x: x[0]),
        "strict": st.sampled_from([False, False, True]),
        "bad": st.sampled_from([None] * 12 + ["attr", "signal"]),
    }).map(near)
    groups = st.fixed_dictionaries({
        "kind": st.just("group"),
        "classes": st.lists(gcls, min_size=1, max_size=5),
        "owner": st.booleans(),
    })
    # a name declared at the top and in one of two arms of a diamond
    two = st.lists(st.tuples(st.sampled_from(["connect", "all", "a"]), st.integers(0, 3), st.none()).map(list),
                   max_size=2, unique_by=lambda x: x[0])
    diamond = st.tuples(st.lists(two, min_size=4, max_size=4), st.sampled_from([[2, 1], [1, 2]])).map(lambda x: {
        "kind": "group", "owner": False,
        "classes": [{"bases": b, "mixin": False, "sigs": s, "strict": False, "bad": None}
                    for b, s in zip([[], [0], [0], x[1]], x[0])]})
    groups = st.one_of(groups, groups, groups, diamond)
    field = st.tuples(st.sampled_from(FIELDS), st.sampled_from(["field", "field", "field", "field", "classvar", "initvar",
                                                               "frozen", "prop"]),
                      st.sampled_from(["int", "str", "list"])).map(list)
    fcls = st.lists(field, max_size=4, unique_by=lambda x: x[0])
    alias = st.one_of(
        st.none(), st.none(),
        st.dictionaries(st.sampled_from(FIELDS), st.sampled_from([None, "z", "y", "a", "b", "gs"]), max_size=3),
        st.sampled_from(["strip", "none", "upper", "const"]))
    fields = st.fixed_dictionaries({
        "kind": st.just("fields"),
        "flavour": st.sampled_from(FLAVOURS),
        "classes": st.lists(fcls, min_size=1, max_size=3),
        "at": st.integers(0, 2),  # the class that gets the descriptor
        "via": st.sampled_from(["decorator", "attr"]),
        "ns": st.sampled_from(["events", "events", "ev", "_events_x"]),
        "alias": alias,
        "group": st.one_of(st.none(), st.none(), st.fixed_dictionaries({
            "sigs": st.lists(st.sampled_from(["gs", "a", "b", "connect"]), max_size=2, unique=True),
            "aliases": st.dictionaries(st.sampled_from(FIELDS), st.sampled_from([None, "y", "gs"]), max_size=2),
            "base": st.one_of(st.none(), st.dictionaries(st.sampled_from(FIELDS), st.sampled_from([None, "z", "y"]), max_size=2)),
        })),
        "collect": st.sampled_from([True, True, True, False]),
        "patch": st.sampled_from([True, True, False]),
        "warn": st.booleans(),
        "cache": st.booleans(),
    })
    return st.one_of(groups, fields)


def run_case(case, ctx):
    ctx.label(case["kind"])
    if case["kind"] == "group":
        run_group(case, ctx)
    else:
        run_fields(case, ctx)


T = {"int": int, "str": str, "object": object, "list": list, "list[int]": list[int], "list[str]": list[str],
     "int2": type("int", (), {"__module__": "elsewhere"}), "'int'": "int"}


def run_group(case, ctx):
    from psygnal import Signal, SignalGroup, SignalInstance

    try:
        SignalGroup()
    except TypeError:
        pass
    else:
        raise Violation("SignalGroup() without a subclass did not fail")
    reserved = set(dir(SignalGroup))
    made = []  # (class, is group, all signals {name: (types, explicit name)}, spec)
    for i, spec in enumerate(case["classes"]):
        bases = []
        for b in spec["bases"]:
            b = b % i if i else None
            if b is not None and made[b] is not None and made[b] not in bases:
                bases.append(made[b])
        bases = [b for b in bases if not spec["mixin"] or not b[1]]
        sigs = {n: (tuple(TYPES[t]), nm) for n, t, nm in spec["sigs"]
                if not (spec["mixin"] and n not in FREE)}
        ns = {n: Signal(*[T[x] for x in ts], name=nm) for n, (ts, nm) in sigs.items()}
        pybases = tuple(b[0] for b in bases)
        if not spec["mixin"] and not any(b[1] for b in bases):
            pybases += (SignalGroup,)
        if spec["mixin"]:
            try:
                cls = type(f"M{i}", pybases or (object,), dict(ns))
            except TypeError:
                made.append(None)  # inconsistent bases
                continue
            made.append((cls, False, {k: v for c in reversed(cls.__mro__) for m in made if m and m[0] is c
                                      for k, v in m[3].items()} | sigs, sigs))
            continue
        bad = spec["bad"]
        if len(pybases) > 1:
            ctx.label("mixed" if not all(issubclass(b, SignalGroup) for b in pybases) else "multiple")
        if bad:
            try:
                type(f"G{i}", pybases, {**ns, "_psygnal_x": Signal() if bad == "signal" else 1})
            except TypeError:
                ctx.label("forbidden")
            else:
                raise Violation("a SignalGroup with an attribute starting with _psygnal was accepted")
        try:
            order = type(f"O{i}", tuple(b for b in pybases), {}).__mro__
        except TypeError:
            made.append(None)
            continue
        want = {}
        for c in reversed(order):
            for m in made:
                if m and m[0] is c:
                    want.update(m[3])
        inherited = dict(want)
        want.update(sigs)
        uniform = len({ts for ts, _ in want.values()}) <= 1
        conflicts = {n for n in want if n in reserved or n.startswith("psygnal")}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                cls = type(SignalGroup)(f"G{i}", pybases, dict(ns), strict=spec["strict"])
            except TypeError as e:
                check(spec["strict"] and not uniform, "a SignalGroup class was refused: %r", e)
                ctx.label("strict")
                made.append(None)
                continue
        check(not spec["strict"] or uniform, "a strict SignalGroup with different signatures was accepted")
        if conflicts & set(sigs):
            ctx.nontrivial()
            texts = [str(w.message) for w in ws if issubclass(w.category, UserWarning)]
            check(any(all(repr(n) in t for n in conflicts & set(sigs)) for t in texts),
                  "no warning about reserved names %s: %s", sorted(conflicts), texts)
        if not conflicts:
            eq([str(w.message) for w in ws], [], "warnings of a class without reserved names")
        eq(cls.psygnals_uniform(), uniform, "psygnals_uniform()")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", FutureWarning)
            old = getattr(cls, "is_uniform", None)  # (deprecated)
            if callable(old) and "is_uniform" not in want:
                eq(old(), uniform, "is_uniform()")
        if len(want) > 1:
            ctx.label("uniform" if uniform else "not-uniform")
            if not uniform and len({tuple(sorted(ts)) for ts, _ in want.values()}) == 1:
                ctx.label("same-types-in-other-order")
        if inherited and sigs:
            ctx.nontrivial()
        if set(inherited) & set(sigs):
            ctx.label("redeclared")
        made.append((cls, True, want, sigs))
    # all classes are complete now; later classes must not have changed earlier ones
    owner = type("Owner", (), {})() if case["owner"] else None
    for m in made:
        if m is None or not m[1]:
            continue
        cls, _, want, _ = m
        check_group(cls, want, reserved, owner, ctx)


def check_group(cls, want, reserved, owner, ctx):
    from psygnal import EmissionInfo, SignalInstance

    g, h = cls(owner), cls()
    eq(sorted(g), sorted(want), "iteration of a group")
    eq(len(g), len(want), "len(group)")
    eq(sorted(g.signals), sorted(want), "group.signals")
    check(g.all.instance is owner, "group.all.instance is %r", g.all.instance)
    log = []
    g.connect(log.append)
    hlog = []
    h.connect(hlog.append)
    seen = {}
    for n, (ts, nm) in want.items():
        check(n in g, "%s in group is False", n)
        s = g[n]
        check(isinstance(s, SignalInstance), "group[%r] is no signal instance", n)
        check(g[n] is s and g.signals[n] is s, "group[%r] is not stable", n)
        check(h[n] is not s, "two groups share the signal %r", n)
        check(id(s) not in seen, "%r and %r of a group are the same signal", n, seen.get(id(s)))
        seen[id(s)] = n
        if n not in reserved and not n.startswith("psygnal"):
            check(getattr(g, n) is s, "group.%s is not group[%r]", n, n)
        else:
            check(getattr(g, n, None) is not s, "group.%s is the signal", n)
        eq(s.name, nm or n, "name of group[%r]" % n)
        eq([p.annotation for p in s.signature.parameters.values()], [T[x] for x in ts], "signature of group[%r]" % n)
        args = tuple(range(len(ts)))
        s.emit(*args)
        eq([(i.signal is s, i.args) for i in log], [(True, args)], "events of group[%r]" % n)
        log.clear()
    eq(hlog, [], "events of another group")
    for n in ("zz", "nosuch"):
        check(n not in g, "%s in group", n)
        for f, E in ((lambda: g[n], KeyError), (lambda: getattr(g, n), AttributeError)):
            try:
                f()
            except E:
                pass
            else:
                raise Violation(f"access to the missing signal {n!r} did not raise {E.__name__}")
    for n in reserved - set(FREE):
        if not n.startswith("__"):
            check(not isinstance(getattr(g, n), SignalInstance) or n in ("all", "_psygnal_relay"),
                  "group.%s is a signal", n)


FN = {"strip": lambda s: s.lstrip("_"), "none": lambda s: None, "upper": lambda s: s.upper(), "const": lambda s: "k"}


def run_fields(case, ctx):
    import dataclasses
    from typing import ClassVar

    import psygnal
    from psygnal import Signal, SignalGroup, SignalGroupDescriptor

    fl = case["flavour"]
    ns_name = case["ns"]
    at = case["at"] % len(case["classes"])
    via = case["via"]
    if fl in ("msgspec", "pydantic") and ns_name.startswith("_"):
        ns_name = "events"  # private names are no class variables there
    grp = case["group"]
    alias = case["alias"]
    # a field's own group class
    gcls = None
    gsigs, galias = [], {}
    if grp is not None:
        gsigs, galias = grp["sigs"], grp["aliases"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gbase = SignalGroup
            if grp.get("base") is not None:  # its aliases are inherited
                gbase = type(SignalGroup)("BaseGroup", (SignalGroup,), {"bs": Signal(str)}, signal_aliases=grp["base"])
                ctx.label("group-base")
            gcls = type(SignalGroup)("MyGroup", (gbase,), {n: Signal(str) for n in gsigs}, signal_aliases=galias)
            if gbase is not SignalGroup:
                galias = {**grp["base"], **galias}
                gsigs = [*gsigs, "bs"]
    collect = case["collect"] or gcls is None
    kw = dict(warn_on_no_fields=case["warn"], cache_on_instance=case["cache"])
    if alias is not None:
        kw["signal_aliases"] = FN[alias] if isinstance(alias, str) else dict(alias)
    dkw = dict(kw, signal_group_class=gcls, collect_fields=collect, patch_setattr=case["patch"])
    if not collect and isinstance(alias, str):
        try:
            SignalGroupDescriptor(**dkw)
        except ValueError:
            ctx.label("refused")
        else:
            raise Violation("collect_fields=False with a function as signal_aliases was accepted")
        return
    if gcls is not None or not case["patch"]:
        via = "attr"
    for no_class in (3, None, run_fields):
        try:
            psygnal.evented(no_class, events_namespace=ns_name, **kw)(3) if no_class is None else psygnal.evented(no_class)
        except TypeError:
            pass
        else:
            raise Violation(f"evented() accepted {no_class!r}, which is no class")
    # fields: name -> type or "frozen"
    fields = {}
    cls = None
    chain = []
    for depth, spec in enumerate(case["classes"]):
        ann, ns = {}, {}
        for name, kind, t in spec:
            if fl in ("pydantic", "pydantic_dc") and name.startswith("_"):
                continue
            if name in fields and kind not in ("field", "frozen") or name in _nonfields(chain):
                continue  # not redeclared as something else
            ty = T[t]
            if kind in ("frozen",) and fl != "pydantic":
                kind = "field"
            if kind == "initvar" and not fl.startswith("dataclass"):
                kind = "classvar"
            if fl == "plain" and kind in ("field", "classvar"):
                ann[name] = ty
                ns[name] = ty()
            elif kind == "field":
                ann[name] = ty
                ns[name] = _default(fl, ty)
                if name in fields:
                    ctx.label("redeclared")
                fields[name] = ty
            elif kind == "frozen":
                import pydantic

                ann[name] = ty
                ns[name] = pydantic.Field(default_factory=ty, frozen=True)
                fields.pop(name, None)
            elif kind == "classvar":
                ann[name] = ClassVar[ty]
                ns[name] = ty()
            elif kind == "initvar":
                ann[name] = dataclasses.InitVar[ty]
                ns[name] = None
            elif kind == "prop":
                ns[name] = property(lambda self: 3)
        if fl.startswith("dataclass"):
            ns["__post_init__"] = lambda self, *a: None
        if depth == at and via == "attr":
            ann[ns_name] = ClassVar[SignalGroupDescriptor]
            ns[ns_name] = SignalGroupDescriptor(**dkw)
        ns["__annotations__"] = ann
        ns["__module__"] = __name__
        cls = _make(fl, f"C{depth}", cls, ns)
        if depth == at and via == "decorator":
            cls = psygnal.evented(cls, events_namespace=ns_name, **kw)
        chain.append({"cls": cls, "fields": dict(fields), "ns": set(ns) | set(ann)})

    for depth, c in enumerate(chain):
        k = c["cls"]
        ev = depth >= at
        if not ev:
            check(not psygnal.is_evented(k), "a class without events is_evented")
            check(psygnal.get_evented_namespace(k) is None, "namespace of a class without events")
            check(not psygnal.is_evented(k()), "an object without events is_evented")
            continue
        eq(psygnal.is_evented(k), True, "is_evented(class)")
        eq(psygnal.get_evented_namespace(k), ns_name, "get_evented_namespace(class)")
        want, dup = {}, []
        if collect:
            for name, ty in c["fields"].items():
                if isinstance(alias, dict) and name in alias:
                    sn = alias[name]
                elif isinstance(alias, str):
                    sn = FN[alias](name)
                elif name in galias:
                    sn = galias[name]
                else:
                    sn = name
                if sn != name:
                    ctx.nontrivial()
                if sn is None:
                    continue
                if sn in want or sn in gsigs:
                    dup.append(sn)
                    continue
                want[sn] = ty
        if len(chain) > 1 and want:
            ctx.nontrivial()
        names = sorted(set(want) | set(gsigs))
        before = k.__setattr__
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            obj, obj2 = k(), k()
            own = set(vars(obj)) if hasattr(obj, "__dict__") else set()
            g = getattr(obj, ns_name)
            if not case["cache"] and hasattr(obj, "__dict__"):
                eq(set(vars(obj)), own, "attributes of an object whose events are not cached on it")
        texts = [str(w.message) for w in ws]
        eq(any("No mutable fields" in t for t in texts), bool(case["warn"] and not names), "warning about no fields")
        for sn in dup:
            check(any(repr(sn) in t for t in texts), "no warning about the repeated signal %r: %s", sn, texts)
        if not dup and not any(n in dir(SignalGroup) for n in names):
            eq([t for t in texts if "No mutable fields" not in t], [], "warnings")
        check(isinstance(g, SignalGroup), "the events of an object are %r", type(g))
        if gcls is not None:
            check(isinstance(g, gcls), "the group is no %r", gcls)
            if not collect and not alias:
                check(type(g) is gcls, "the group is of class %r", type(g))
        eq(sorted(g), names, "signals of %s" % k)
        eq(len(g), len(names), "len(group)")
        check(getattr(obj, ns_name) is g, "the events of an object changed")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g2 = getattr(obj2, ns_name)
        check(g2 is not g, "two objects share their events")
        check(isinstance(getattr(k, ns_name), SignalGroupDescriptor), "the events of the class")
        eq(psygnal.is_evented(obj), True, "is_evented(object)")
        eq(psygnal.get_evented_namespace(obj), ns_name, "get_evented_namespace(object)")
        check(g.all.instance is obj, "group.all.instance is not the object")
        if not case["patch"] and via == "attr":
            check(k.__setattr__ is before and not psygnal.is_evented(k.__setattr__), "__setattr__ patched")
            ctx.label("unpatched")
        else:
            check(psygnal.is_evented(k.__setattr__), "__setattr__ not evented")
        for sn, ty in want.items():
            s = g[sn]
            eq(s.name, sn, "name of a signal")
            ps = list(s.signature.parameters.values())
            eq(len(ps), 2, "arguments of a field's signal")
            if sn not in dup:
                eq([p.annotation for p in ps], [ty, ty], "types of the signal of %s" % sn)
            t = type("Target", (), {})()
            t.x = None
            s.connect_setattr(t, "x")
            s.emit(5, 4)
            eq(t.x, 5, "value set by connect_setattr of a field's signal")
            s.emit(6, 5)
            eq(t.x, 6, "value set by connect_setattr of a field's signal")
            check(len(g2[sn]) == 0, "the connection to one object is at another one")
    # the group class given is not changed
    if gcls is not None:
        eq(sorted(gcls()), sorted(gsigs), "signals of the group class given")


def _nonfields(chain):
    return {n for c in chain for n in c["ns"] if n not in c["fields"]}


def _default(fl, ty):
    import dataclasses

    if fl.startswith("dataclass") or fl == "pydantic_dc":
        return dataclasses.field(default_factory=ty)
    if fl == "attrs":
        import attrs

        return attrs.field(factory=ty)
    if fl == "msgspec":
        import msgspec

        return msgspec.field(default_factory=ty)
    import pydantic

    return pydantic.Field(default_factory=ty)


def _make(fl, name, base, ns):
    import dataclasses

    if fl == "msgspec":
        import msgspec

        kw = {"dict": True, "weakref": True}
        return type(msgspec.Struct)(name, (base or msgspec.Struct,), ns, **kw)
    if fl == "pydantic":
        import pydantic

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return type(pydantic.BaseModel)(name, (base or pydantic.BaseModel,), ns)
    c = type(name, (base,) if base else (), ns)
    if fl == "dataclass":
        return dataclasses.dataclass(c)
    if fl == "dataclass_slots":
        return dataclasses.dataclass(slots=True, weakref_slot=base is None)(c)
    if fl == "attrs":
        import attrs

        return attrs.define(slots=False)(c)
    if fl == "pydantic_dc":
        import pydantic

        return pydantic.dataclasses.dataclass(c)
    return c
