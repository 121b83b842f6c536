"""C28: an EventedModel class has the events its fields and configuration declare."""
from __future__ import annotations

import warnings
from collections import Counter

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C28"
RULE = (
    "A case is a hierarchy of 1-4 EventedModel classes (also with two bases and diamonds; 0-3 fields of 5 kinds, frozen "
    "and redeclared ones; properties and computed fields with and without setter, overridden ones) with any "
    "configuration (allow_property_setters, field_dependencies on fields, properties and unknown names, also under its "
    "old key, guess_property_dependencies, reemission as mode or mapping, also invalid), and, for each class, sets of "
    "fields and properties and comparisons of models. Oracle: the signals, dependencies, modes and refusals computed "
    "from the description (MRO and configuration inheritance as of Python and pydantic). Non-trivial: an inherited "
    "field or property with own ones, and an event of a dependent property or a refused class."
)
ASSUMPTIONS = [
    "property setters of a base class that does not allow property setters are not claimed to have signals",
    "equality of unrelated model classes is not claimed",
]
QUICK, THOROUGH = 700, 20000
QUICK_S = 20

F = ["a", "b", "c", "d"]
P = ["p", "q", "r"]
KINDS = ["int", "int", "str", "list", "arr", "any"]
MODES = ["immediate", "queued", "latest-only"]
VALS = {
    "int": [0, 1, 2], "str": ["", "x", "y"], "list": [[], [1], [1, 2]], "any": [None, 0, "x"], "arr": [[1, 2], [3, 4], [1, 2, 3]],
}


def strategy(tier):
    f, p, v = st.integers(0, 3), st.integers(0, 2), st.integers(0, 2)
    field = st.tuples(st.sampled_from(F), st.sampled_from(KINDS), st.sampled_from([False, False, False, True]), v).map(list)
    prop = st.tuples(st.sampled_from(P), st.lists(f, max_size=2), st.sampled_from(["plain", "plain", "computed"]),
                     st.sampled_from([True, True, True, False]), st.lists(f, max_size=2, unique=True)).map(list)
    dep = st.tuples(st.sampled_from(P + P + P + F[:2] + ["zz"] * 1), st.lists(st.sampled_from(F + F + F + F + ["zz"]), max_size=3)).map(list)
    mode = st.sampled_from(MODES * 8 + ["bad"])
    cls = st.fixed_dictionaries({
        "bases": st.lists(st.integers(0, 3), max_size=2),
        "fields": st.lists(field, max_size=3, unique_by=lambda x: x[0]),
        "props": st.lists(prop, max_size=2, unique_by=lambda x: x[0]),
        "allow": st.sampled_from([None, None, True, True, True, False]),
        "deps": st.one_of(st.none(), st.lists(dep, max_size=3, unique_by=lambda x: x[0])),
        "oldkey": st.sampled_from([False, False, False, True]),
        "guess": st.sampled_from([None, None, True, False]),
        "reem": st.one_of(st.none(), st.none(), mode, st.dictionaries(st.sampled_from(F + P), mode, max_size=3)),
    })
    op = st.one_of(
        st.tuples(st.just("set"), f, v).map(list), st.tuples(st.just("set"), f, v).map(list),
        st.tuples(st.just("setp"), p, st.lists(v, min_size=2, max_size=2)).map(list),
        st.tuples(st.just("mode"), st.integers(0, 6)).map(list),
        st.tuples(st.just("eq"), st.integers(0, 3), st.integers(0, 3), st.lists(v, min_size=4, max_size=4), st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=4, max_size=4)).map(list),
    )
    return st.fixed_dictionaries({
        "classes": st.lists(cls, min_size=1, max_size=4),
        "ops": st.lists(op, min_size=2, max_size=10 if tier == "quick" else 25),
        "listen": st.sampled_from(["all", "all", "signals", "group", "some"]),
    })


def value(kind, i):
    import numpy as np

    v = VALS[kind][i % 3]
    return np.array(v) if kind == "arr" else list(v) if kind == "list" else v


def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return bool(np.array_equal(a, b))
    return bool(a == b)


def key(v):
    return (type(v).__name__, repr(v))


def getter(names):
    """A property getter that reads the fields (and whose code names them)."""
    ns = {}
    exec("def fget(self):\n    return repr([%s])" % ", ".join("self.%s" % n for n in names), ns)
    return ns["fget"]


def setter(names):
    def fset(self, vals):
        for n, v in zip(names, vals):
            setattr(self, n, v)

    return fset


class Info:
    """What a class is expected to be."""


def build(case, ctx):
    import numpy as np
    from typing import Any

    import psygnal
    import pydantic

    types = {"int": int, "str": str, "list": list, "any": Any, "arr": np.ndarray}
    made = []
    for i, spec in enumerate(case["classes"]):
        bases = []
        for b in spec["bases"]:
            b = made[b % i] if i else None
            if b is not None and b not in bases:
                bases.append(b)
        try:  # the order of resolution
            probe = type(f"P{i}", tuple(b.probe for b in bases), {})
        except TypeError:
            made.append(None)
            continue
        n = Info()
        n.probe = probe
        mro = [m for c in probe.__mro__[1:] for m in made if m is not None and m.probe is c]
        # configuration: as pydantic inherits it
        own = {}
        if spec["allow"] is not None:
            own["allow_property_setters"] = spec["allow"]
        if spec["guess"] is not None:
            own["guess_property_dependencies"] = spec["guess"]
        if spec["reem"] is not None:
            own["reemission"] = spec["reem"]
        if spec["deps"] is not None:
            own["property_dependencies" if spec["oldkey"] else "field_dependencies"] = {k: list(v) for k, v in spec["deps"]}
        n.cfg = {}
        for b in bases:
            n.cfg.update(b.cfg)
        n.cfg.update(own)
        # fields and properties visible in this class
        known = {}
        for m in reversed(mro):
            known.update(m.own_fields)
        n.own_fields = {}
        ann, ns = {}, {}
        for name, kind, frozen, dflt in spec["fields"]:
            if name in known:
                kind = known[name][0]  # redeclared: of the same type
            n.own_fields[name] = (kind, frozen, dflt)
            ann[name] = types[kind]
            ns[name] = pydantic.Field(default_factory=lambda kind=kind, dflt=dflt: value(kind, dflt), frozen=frozen)
        kinds = {**known, **n.own_fields}
        n.own_props = {}
        for name, reads, style, has_set, writes in spec["props"]:
            reads = [F[x] for x in reads if F[x] in kinds]
            writes = [F[x] for x in writes if F[x] in kinds]
            fget = getter(reads)
            prop = property(fget, setter(writes) if has_set else None)
            if style == "computed":
                fget.__annotations__["return"] = str
                prop = pydantic.computed_field(prop)
            n.own_props[name] = (reads, writes if has_set else None)
            ns[name] = prop
        n.props = {}
        for m in reversed(mro):
            n.props.update(m.own_props)
        n.props.update(n.own_props)
        n.kinds = {k: v[0] for k, v in kinds.items()}
        # what is expected
        error, warned = None, set()
        r = n.cfg.get("reemission", {})
        if r == "bad" or isinstance(r, dict) and "bad" in r.values():
            error = ValueError
        allow = n.cfg.get("allow_property_setters", False)
        names = set()
        if allow:
            for b in bases:
                names |= b.setter_names
            names |= set(n.own_props)
        elif any(b.cfg.get("allow_property_setters", False) for b in bases):
            error = error or ValueError
        n.provider = {k: (n if k in n.own_props else next(m for m in mro if k in m.own_props)) for k in n.props}
        if any(n.provider[k] is not n and not n.provider[k].cfg.get("allow_property_setters", False) for k in names):
            made.append(None)  # not claimed
            continue
        n.setters = {k for k in names if n.props[k][1] is not None}
        n.setter_names = names
        deps = {}
        cfg_deps = n.cfg.get("field_dependencies", {}) or n.cfg.get("property_dependencies", {})
        for prop, fs in cfg_deps.items():
            if prop not in kinds and prop not in n.setters:
                error = error or ValueError
            for x in fs:
                if x not in kinds:
                    warned.add(x)
                deps.setdefault(x, set()).add(prop)
        if n.cfg.get("guess_property_dependencies"):
            for k in n.setters:
                for x in n.props[k][0]:
                    deps.setdefault(x, set()).add(k)
        n.deps = deps
        own["arbitrary_types_allowed"] = True
        ns.update(__annotations__=ann, __module__=__name__, model_config=own)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                cls = type(psygnal.EventedModel)(f"M{i}", tuple(b.cls for b in bases) or (psygnal.EventedModel,), ns)
            except ValueError as e:
                check(error is not None, "class %d: refused: %r", i, e)
                ctx.label("refused")
                ctx.nontrivial()
                made.append(None)
                continue
        check(error is None, "class %d: accepted (configuration %s)", i, n.cfg)
        texts = [str(w.message) for w in ws]
        for x in warned:
            check(any(repr(x) in t for t in texts), "class %d: no warning about the unknown field %r: %s", i, x, texts)
        old = not n.cfg.get("field_dependencies", {}) and n.cfg.get("property_dependencies")
        eq(len([t for t in texts if "deprecated" in t]), int(bool(old)), f"class {i}: deprecation warnings {texts}")
        eq([t for t in texts if "deprecated" not in t and not any(repr(x) in t for x in warned)
            and "shadows an attribute" not in t], [], f"class {i}: warnings")
        n.cls = cls
        n.frozen = {k for k, f in cls.model_fields.items() if f.frozen}
        eq(sorted(cls.model_fields), sorted(kinds), "fields")
        n.inherited = bool(mro and (n.own_fields or n.own_props) and (known or len(n.props) > len(n.own_props)))
        if len(bases) > 1:
            ctx.label("two-bases")
        made.append(n)
    return made


def run_case(case, ctx):
    made = build(case, ctx)
    for i, n in enumerate(made):
        if n is not None:
            use(case, n, made, f"class {i}", ctx)


def use(case, n, made, where, ctx):
    from psygnal import SignalGroup

    m, other = n.cls(), n.cls()
    ev = m.events
    names = sorted(set(n.kinds) - n.frozen | n.setters)
    check(isinstance(ev, SignalGroup) and ev is m.events, "%s: events %r", where, ev)
    check(ev is not other.events, "%s: two models share their events", where)
    eq(sorted(ev), names, f"{where}: signals")
    for k in names:
        ps = list(ev[k].signature.parameters.values())
        eq(len(ps), 1, f"{where}: arguments of {k}")
        eq(ps[0].annotation, n.cls.model_fields[k].annotation if k in n.kinds else object, f"{where}: type of {k}")
        check(ev[k].instance is ev or ev[k].instance is m, "%s: instance of %s", where, k)
    log, glog = [], []
    listened = set()
    listen = case["listen"]
    for j, k in enumerate(names):
        if listen in ("all", "signals") or listen == "some" and j % 2:
            ev[k].connect(lambda v, k=k: log.append((k, v)))
            listened.add(k)
    if listen in ("all", "group"):
        ev.connect(lambda info: glog.append((info.signal.name, info.args[0])))
    stray = []
    other.events.connect(stray.append)
    state = {k: getattr(m, k) for k in n.kinds}
    settable = set(n.kinds) - n.frozen
    for op in case["ops"]:
        w = f"{where}, {op}"
        log.clear()
        glog.clear()
        if op[0] == "mode":
            if not names:
                continue
            k = names[op[1] % len(names)]
            r = n.cfg.get("reemission", {})
            mode = r.get(k, "latest-only") if isinstance(r, dict) else r
            check_mode(n.cls, k, mode, w)
            ctx.label(mode)
            continue
        if op[0] == "eq":
            check_eq(op, n, made, w, ctx)
            continue
        assign = {}
        if op[0] == "set":
            k = F[op[1]]
            if k not in n.kinds:
                continue
            v = value(n.kinds[k], op[2])
            if k in n.frozen:
                try:
                    setattr(m, k, v)
                except ValueError:
                    ctx.label("frozen")
                else:
                    raise Violation(f"{w}: a frozen field was set")
            else:
                assign[k] = v
                prim = {k}
        else:
            k = P[op[1]]
            if k not in n.props:
                continue
            reads, writes = n.props[k]
            if writes is None:
                try:
                    setattr(m, k, [])
                except (AttributeError, ValueError):
                    ctx.label("read-only")
                else:
                    raise Violation(f"{w}: a property without setter was set")
            elif k not in n.setters or set(writes) & n.frozen:
                continue
            else:
                assign = {x: value(n.kinds[x], y) for x, y in zip(writes, op[2])}
                prim = {k, *assign}
                if not assign:
                    m_before = getattr(m, k)
                    setattr(m, k, [])
                    eq(getattr(m, k), m_before, f"{w}: value")
                v = list(assign.values())
        want, maybe = [], set()
        if assign:
            before = {x: getattr(m, x) for x in n.setters}
            setattr(m, k, v)
            cand = set(prim)
            for x in assign:
                cand |= n.deps.get(x, set())
            if k in n.props:
                cand |= n.deps.get(k, set())
            changed = {x for x in assign if not same(state[x], assign[x])}
            state.update(assign)
            # properties may change through a dependency that was not declared, they may be announced then
            maybe = {x for x in cand - prim if x in n.props
                     and any(x not in n.deps.get(y, ()) for y in changed if y in n.props[x][0])}
            for x in cand:
                if x in settable:
                    if x in changed:
                        want.append((x, state[x]))
                elif x in n.setters and getattr(m, x) != before[x]:
                    want.append((x, getattr(m, x)))
                    if x not in prim:
                        ctx.label("dependent")
                        if n.inherited:
                            ctx.nontrivial()
        for x in n.kinds:
            check(same(getattr(m, x), state[x]), "%s: %s is %r, not %r", w, x, getattr(m, x), state[x])
        for x, (reads, _) in n.props.items():
            eq(getattr(m, x), repr([state[y] for y in reads]), f"{w}: value of {x}")
        for got, mine, what in ((log, listened, "events"), (glog, names if listen in ("all", "group") else (), "events of the group")):
            full = Counter((x, key(v)) for x, v in want if x in mine)
            seen = Counter((x, key(v)) for x, v in got)
            sure = Counter({q: c for q, c in full.items() if q[0] not in maybe})
            check(not sure - seen and not seen - full, "%s: %s: got %r, expected %r", w, what, seen, full)
    eq(stray, [], f"{where}: events of another model")


def check_mode(cls, k, mode, w):
    """Tell the mode by the order of the calls of a reentrant emission."""
    s = cls().events[k]
    log = []

    def first(v):
        log.append((1, v))
        if v == 0:
            s.emit(1)

    s.connect(first)
    s.connect(lambda v: log.append((2, v)))
    s.emit(0)
    eq(log, {"immediate": [(1, 0), (1, 1), (2, 1), (2, 0)], "queued": [(1, 0), (2, 0), (1, 1), (2, 1)],
             "latest-only": [(1, 0), (1, 1), (2, 1)]}[mode], f"{w}: calls of a reentrant emission of {k} ({mode})")


def check_eq(op, n, made, w, ctx):
    _, i, _, va, delta = op
    j = made[i % len(made)]
    if j is None or not (issubclass(j.cls, n.cls) or issubclass(n.cls, j.cls)):
        j = n
    x = n.cls(**{k: value(kd, va[F.index(k)]) for k, kd in n.kinds.items()})
    y = j.cls(**{k: value(kd, va[F.index(k)] + delta[F.index(k)]) for k, kd in j.kinds.items()})
    sub = j if issubclass(j.cls, n.cls) else n
    want = set(n.kinds) == set(j.kinds) and all(same(getattr(x, k), getattr(y, k)) for k in sub.kinds)
    if j is not n:
        ctx.label("subclass-eq")
    eq(x == y, want, f"{w}: equality of {x!r} and {y!r}")
    eq(y == x, want, f"{w}: equality of {y!r} and {x!r}")
    eq(x != y, not want, f"{w}: inequality")
    check(x == x and not x != x, "%s: a model differs from itself", w)
    for z in (None, 1, "x"):
        check(not x == z and x != z, "%s: a model equals %r", w, z)
    if "arr" not in n.kinds.values():
        eq(x == {**x.model_dump()}, True, f"{w}: equality with the own dump")
        if n.kinds:
            k = sorted(n.kinds)[0]
            eq(x == {**x.model_dump(), k: object()}, False, f"{w}: equality with another dict")


REGRESSIONS = []
