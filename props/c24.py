"""C24: evented containers in pydantic behave as the plain containers do."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import check, eq

ID = "C24"
RULE = (
    "A case is a (nested) annotation of evented containers with element types, used as a field of a BaseModel or an "
    "EventedModel or in a TypeAdapter, and input data: valid, coercible, invalid, as plain containers, tuples, sets, "
    "generators or evented containers. Oracle: the same annotation with list, dict and set in a plain pydantic model: same "
    "acceptance and errors (python, JSON and strict input), same elements in containers of the annotated types, same "
    "dumps and JSON schema, round trips, and every container held emits for its own changes only. Non-trivial: nested or "
    "coerced data was accepted, or an error below the top level was reported."
)
ASSUMPTIONS = [
    "a validated container is a new one (as pydantic does for lists): selection, child_events and basetype of the input are not kept",
    "members of unions are only None or a container and one scalar type (errors of which are compared only in their presence); elements of sets are scalars; the items of selectable lists must be hashable; ordered sets are compared with lists without duplicates",
]
QUICK, THOROUGH = 1500, 40000
QUICK_S = 20
SCAL = ["int", "str", "float", "bool"]


CONT = ("list", "slist", "set", "oset", "sel", "uoset", "dict")


def strategy(tier):
    scal = st.sampled_from(SCAL).map(lambda t: {"t": t})
    leaf = st.one_of(scal, scal, st.just({"t": "any"}), st.just({"t": "node"}), st.just({"t": "model"}), st.just({"t": "emodel"}))

    def cont(kids):
        of = st.one_of(leaf, kids, kids)
        return st.one_of(
            st.builds(lambda of: {"t": "list", "of": of}, of), st.builds(lambda of: {"t": "list", "of": of}, of),
            st.builds(lambda of: {"t": "slist", "of": of}, st.one_of(scal, st.builds(lambda of: {"t": "list", "of": of}, of))),
            st.builds(lambda t, of: {"t": t, "of": of}, st.sampled_from(["set", "oset", "sel", "uoset"]), scal),
            st.builds(lambda k, of: {"t": "dict", "key": k, "of": of}, st.sampled_from(["int", "str"]), of),
            st.builds(lambda k, of: {"t": "dict", "key": k, "of": of}, st.sampled_from(["int", "str"]), of),
            st.builds(lambda of: {"t": "opt", "of": of}, kids) if kids is not leaf else leaf,
            st.builds(lambda of, alt, first: {"t": "union", "of": of, "alt": alt, "first": first}, kids.filter(lambda s: s["t"] in CONT),
                      st.sampled_from(["int", "str"]), st.booleans()) if kids is not leaf else leaf,
            st.sampled_from([{"t": "list", "of": None}, {"t": "dict", "key": None, "of": None}, {"t": "set", "of": None}, {"t": "oset", "of": None}]),
        )

    top = cont(cont(cont(leaf))).filter(lambda s: s["t"] in ("list", "slist", "set", "oset", "sel", "uoset", "dict", "opt", "union"))
    good = {"int": [0, 1, 2, -5, "3", 4.0, True], "str": ["", "a", "b", "1"], "float": [0.5, 1, "2.5", "nope" and 3.0], "bool": [True, False, 1, 0, "true"]}
    bad = ["x", 1.5, None, [], {}, "", -1, [1], {"a": 1}, b"".decode() + "zz"]

    def data(draw, spec, depth=0):
        t = spec["t"] if spec else "any"
        if draw(st.integers(0, 24)) == 0:
            return draw(st.sampled_from(bad))
        if t in good:
            return draw(st.sampled_from(good[t]))
        if t == "any":
            return draw(st.sampled_from([0, 1, "a", "1", None, 2.5, True] + ([[1, "x"], {"q": 1}] if spec is not None and spec.get("deep", 1) else [])))
        if t in ("model", "emodel"):
            return draw(st.sampled_from([{}, {"n": 3}, {"n": "4", "s": ["1", 2]}, {"s": []}, {"n": 3}, {"n": "bad"}, {"s": [1, "x"]}, {"d": {"a": [1]}}, {"d": {"a": ["x"]}}]))
        if t == "node":
            d = {k: draw(st.sampled_from(v)) for k, v in {"n": [0, 1, "2", "bad"][:4 if depth == 9 else 3]}.items() if draw(st.booleans())}
            for k in ("kids", "named"):
                if depth < 5 and draw(st.booleans()):
                    sub = [data(draw, spec, depth + 2) for _ in range(draw(st.integers(0, 2)))]
                    d[k] = sub if k == "kids" else {"ab"[i]: x for i, x in enumerate(sub)}
            return d
        if t == "opt":
            return None if draw(st.integers(0, 2)) == 0 else data(draw, spec["of"], depth)
        if t == "union":
            return draw(st.sampled_from(good[spec["alt"]])) if draw(st.integers(0, 2)) == 0 else data(draw, spec["of"], depth)
        n = draw(st.integers(0, 3))
        if t == "dict":
            key = st.sampled_from([1, 2, "3", "4"] if spec["key"] == "int" else ["a", "b", "c", ""])
            items = [[draw(key), data(draw, spec["of"], depth + 1)] for _ in range(n)]
            return {"w": draw(st.sampled_from(["pdict", "pdict", "edict"])), "v": items}
        of = spec["of"] if spec["of"] is not None or t not in ("set", "oset") else {"t": "any", "deep": 0}
        items = [data(draw, of, depth + 1) for _ in range(n)]
        simple = all(not isinstance(i, (list, dict)) for i in items)
        w = ["plist", "plist", "plist", "tuple", "elist", "gen", "deque"] + (["pset", "fset", "eset", "oset"] if simple else [])
        return {"w": draw(st.sampled_from(w)), "v": items}

    @st.composite
    def case(draw):
        spec = draw(top)
        return {"spec": spec, "base": draw(st.sampled_from(["BaseModel", "EventedModel", "EventedModel", "adapter"])), "con": draw(st.sampled_from([None, None, None, 0, 1, 2])),
                "data": [data(draw, spec) for _ in range(draw(st.integers(1, 3)))]}

    return case()


_CACHE: dict = {}


def _types():
    if not _CACHE:
        import pydantic

        from psygnal import EventedModel
        from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, OrderedSet, Selection, SelectableEventedList

        from props.c24_types import ESub, PSub, Sub

        _CACHE.update(
            Sub=Sub, ESub=ESub, PSub=PSub, pydantic=pydantic, EventedModel=EventedModel,
            cont={"list": EventedList, "slist": SelectableEventedList, "set": EventedSet, "oset": EventedOrderedSet, "sel": Selection, "uoset": OrderedSet, "dict": EventedDict},
        )
    return _CACHE


def _freeze(v):
    if isinstance(v, dict):
        return tuple((k, _freeze(x)) for k, x in v.items())
    return v


def run_case(case, ctx):
    import collections
    import json
    import warnings
    from typing import Annotated, Any, Optional, Union

    C = _types()
    pydantic, cont = C["pydantic"], C["cont"]
    Field, ValidationError = pydantic.Field, pydantic.ValidationError
    scal = {"int": int, "str": str, "float": float, "bool": bool}
    spec, base = case["spec"], case["base"]

    def annotation(s, plain):
        t = s["t"] if s else "any"
        if t in scal:
            return scal[t]
        if t == "any":
            return Any
        if t == "model":
            return C["PSub"] if plain else C["Sub"]
        if t == "emodel":
            return C["PSub"] if plain else C["ESub"]
        if t == "node":
            from props.c24_node import Node, PNode

            return PNode if plain else Node
        if t == "opt":
            return Optional[annotation(s["of"], plain)]
        if t == "union":
            u = [annotation(s["of"], plain), scal[s["alt"]]]
            return Union[tuple(u[::-1] if s["first"] else u)]
        of = None if s["of"] is None else annotation(s["of"], plain)
        if t == "dict":
            c = dict if plain else cont[t]
            return c if of is None else c[scal[s["key"]], of]
        if plain:
            if t in ("oset", "sel", "uoset"):
                return Annotated[list if of is None else list[of], Field(json_schema_extra={"uniqueItems": True}), pydantic.AfterValidator(unique)]
            c = set if t == "set" else list
        else:
            c = cont[t]
        return c if of is None else c[of]

    def unique(v):
        try:
            return list(dict.fromkeys(v))
        except TypeError as e:
            raise ValueError(str(e)) from e

    def make(d, plain):
        """The input data."""
        if isinstance(d, dict) and "w" in d:
            w = d["w"]
            if w in ("pdict", "edict"):
                v = {k: make(x, plain) for k, x in d["v"]}
                return v if w == "pdict" or plain else cont["dict"](v)
            v = [make(x, plain) for x in d["v"]]
            if w == "plist" or plain and w == "elist":
                return v
            if plain and w == "eset":
                w = "pset"
            if plain and w == "oset":
                return list(dict.fromkeys(v))
            return {
                "tuple": tuple, "gen": lambda v: (i for i in v), "deque": collections.deque, "pset": set, "fset": frozenset,
                "elist": cont["list"], "eset": cont["set"], "oset": cont["oset"],
            }[w](v)
        return json.loads(json.dumps(d))

    def pure(d):
        """The input as JSON data, or raises."""
        if isinstance(d, dict) and "w" in d:
            if d["w"] == "pdict":
                return {str(k): pure(x) for k, x in d["v"]}
            if d["w"] == "plist":
                return [pure(x) for x in d["v"]]
            raise LookupError
        return d

    def shape(v):
        n = type(v).__name__
        if isinstance(v, (str, int, float, type(None))):
            return (n, v)
        if isinstance(v, pydantic.BaseModel):
            return (n, [(f, shape(getattr(v, f))) for f in type(v).model_fields])
        if hasattr(v, "items"):
            return (n, [(shape(k), shape(x)) for k, x in v.items()])
        items = [shape(i) for i in v]
        return (n, sorted(items, key=repr) if n in ("EventedSet", "set", "frozenset") else items)

    def expected(s, v):
        """The shape for the value v held by the plain model."""
        t = s["t"] if s else "any"
        if t == "opt":
            return shape(v) if v is None else expected(s["of"], v)
        if t == "union":
            return shape(v) if isinstance(v, scal[s["alt"]]) else expected(s["of"], v)
        if t in ("model", "emodel"):
            return ("Sub" if t == "model" else "ESub", [
                ("n", shape(v.n)), ("s", ("EventedSet", shape(v.s)[1])), ("d", ("EventedDict", [(shape(k), ("EventedList", shape(x)[1])) for k, x in v.d.items()]))])
        if t == "node":
            sub = {"t": "node"}
            return ("Node", [("n", shape(v.n)), ("kids", ("EventedList", [expected(sub, i) for i in v.kids])), ("named", ("EventedDict", [(shape(k), expected(sub, x)) for k, x in v.named.items()]))])
        if t == "dict":
            return ("EventedDict", [(shape(k), expected(s["of"], x)) for k, x in v.items()])
        if t in cont:
            items = [expected(s["of"], i) for i in v]
            return (cont[t].__name__, sorted(items, key=repr) if t == "set" else items)
        return shape(v)

    con = case["con"] if spec["t"] in ("list", "slist", "dict", "set") and base != "adapter" else None
    key = (_freeze(spec), base, con)
    if key not in _CACHE:
        if len(_CACHE) > 3000:
            for k in [k for k in _CACHE if isinstance(k, tuple)]:
                del _CACHE[k]
        ann = [annotation(spec, False), annotation(spec, True)]
        if con is not None:
            ann = [Annotated[a, Field(max_length=con)] for a in ann]
        if base == "adapter":
            _CACHE[key] = [pydantic.TypeAdapter(a) for a in ann]
        else:
            P = pydantic.create_model("M", __config__=pydantic.ConfigDict(validate_assignment=True), f=(ann[1], ...))
            if base == "BaseModel":
                M = pydantic.create_model("M", __config__=pydantic.ConfigDict(validate_assignment=True), f=(ann[0], ...))
            else:
                M = type("M", (C["EventedModel"],), {"__annotations__": {"f": ann[0]}, "__module__": __name__, "model_config": {"validate_assignment": True}})
            _CACHE[key] = [M, P]
    A, P = _CACHE[key]
    adapter = base == "adapter"
    validate = (lambda M, v, **kw: M.validate_python(v, **kw)) if adapter else (lambda M, v, **kw: M.model_validate({"f": v}, **kw))
    validate_json = (lambda M, v: M.validate_json(json.dumps(v))) if adapter else (lambda M, v: M.model_validate_json(json.dumps({"f": v})))
    value = (lambda m: m) if adapter else (lambda m: m.f)
    containers = tuple(cont.values())
    union = '"union"' in json.dumps(spec)  # (errors have the name of the member)

    def attempt(f, *args, **kw):
        try:
            return f(*args, **kw), None
        except ValidationError as e:
            return None, sorted(((tuple(x["loc"]), x["type"]) for x in e.errors()), key=repr)
        except TypeError:  # (pydantic for a plain set with an unhashable item)
            return None, [((), "TypeError")]

    def same(got, want, what):
        """Same errors or same values; True if accepted."""
        if con is None and not union:
            eq(got[1], want[1], f"errors of {what}")
        else:  # (the length is validated last, or first)
            eq(got[1] is None, want[1] is None, f"acceptance in {what} {got} {want}")
        if got[1] is None:
            eq(shape(value(got[0])), expected(spec, value(want[0])), f"value of {what}")
        return got[1] is None

    def unordered(d):
        """With the order of what is a set in python left open (dumped as list in JSON)."""
        if isinstance(d, list):
            return sorted((unordered(i) for i in d), key=repr)
        if isinstance(d, (set, frozenset)):
            return (type(d).__name__, sorted((repr(i) for i in d)))
        if isinstance(d, dict):
            return {k: unordered(v) for k, v in d.items()}
        return d

    def has_set(s):
        return bool(s) and (s["t"] in ("set", "model", "emodel") or has_set(s.get("of")))

    norm = unordered if has_set(spec) else (lambda d: d)

    def dumps(M, m):
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            if adapter:
                return norm(M.dump_python(m)), norm(M.dump_python(m, mode="json")), norm(json.loads(M.dump_json(m))), norm(M.dump_python(m, exclude_unset=True))
            return norm(m.model_dump()), norm(m.model_dump(mode="json")), norm(json.loads(m.model_dump_json())), norm(m.model_dump(exclude_defaults=True))

    def inner(v, out):
        """All evented containers in v."""
        if isinstance(v, pydantic.BaseModel):
            for f in type(v).model_fields:
                inner(getattr(v, f), out)
        elif isinstance(v, containers):
            if hasattr(v, "events"):
                out.append(v)
            for i in list(v.values()) if hasattr(v, "values") else list(v):
                inner(i, out)
        return out

    schema = (lambda M, mode: M.json_schema(mode=mode)) if adapter else (lambda M, mode: M.model_json_schema(mode=mode))

    def clean(s):
        s = json.dumps(s)
        for n in ("ESub", "PSub", "PNode"):
            s = s.replace(n, n[1:])
        return json.loads(s)

    for mode in ("validation", "serialization") if con is None else ():
        try:
            want = clean(schema(P, mode))
        except pydantic.errors.PydanticInvalidForJsonSchema:
            continue
        if not ("Sub" in repr(want) and "ESub" in repr(schema(A, mode))):  # (two definitions of one name)
            eq(clean(schema(A, mode)), want, f"JSON schema ({mode})")

    last = None
    for d in case["data"]:
        try:
            given, twin = make(d, False), make(d, True)
        except TypeError:  # an unhashable member of a set
            ctx.label("not buildable")
            continue
        calls = []
        given_events = inner(given, [])
        for g in given_events:
            g.events.connect(lambda *a: calls.append(a), check_nargs=False)
        got, want = attempt(validate, A, given), attempt(validate, P, twin)
        ok = same(got, want, "validation")
        ctx.label("accepted" if ok else "rejected", base)
        ctx.nontrivial(not ok and any(len(loc) > (0 if adapter else 1) for loc, _ in want[1]))
        try:
            p = pure(d)
        except LookupError:
            pass
        else:
            ctx.label("JSON input")
            same(attempt(validate_json, A, p), attempt(validate_json, P, p), "JSON validation")
            if base != "EventedModel" and "emodel" not in json.dumps(spec):  # (pydantic is not strict in a model with an __init__)
                same(attempt(validate, A, make(d, False), strict=True), attempt(validate, P, make(d, True), strict=True), "strict validation")
        if not ok:
            if last is not None and not adapter:
                before = shape(last.f)
                try:
                    last.f = make(d, False)
                except (ValidationError, TypeError):
                    pass
                else:
                    check(False, "an assignment was accepted that is invalid")
                eq(shape(last.f), before, "value after a refused assignment")
            continue
        m, q = got[0], want[0]
        eq(dumps(A, m), dumps(P, q), "dumps (python, json mode, JSON text, exclude)")
        # round trips
        py = A.dump_python(m) if adapter else m.model_dump()["f"]
        eq(shape(value(validate(A, py))), shape(value(m)), "round trip of the python dump")
        js = json.loads(A.dump_json(m)) if adapter else json.loads(m.model_dump_json())["f"]
        again = validate_json(A, js)
        ordered = shape(value(again)) == shape(value(m))
        unscal = '"any"' in json.dumps(spec) or "null" in json.dumps(spec)
        check(ordered or unscal or "float" in json.dumps(spec), "round trip of the JSON dump: %r and %r", again, m)
        if not adapter and not unscal:
            check(again == m and not (again != m), "the round tripped model is not equal: %r %r", again, m)
        # assignment
        if not adapter:
            if last is not None:
                seen = []
                before = last.f
                if base == "EventedModel":
                    last.events.f.connect(seen.append)
                last.f = make(d, False)
                eq(shape(last.f), shape(m.f), "assigned value")
                if base == "EventedModel":
                    check(all(s is last.f for s in seen) and len(seen) <= 1, "events of an assignment: %r", seen)
                    if shape(before) != shape(last.f) and not unscal and not (before == last.f):
                        eq(len(seen), 1, "number of events of an assignment")
            last = m
        # containers that work, independent of the input
        held = inner(value(m), [])
        check(len({id(h) for h in held}) == len(held), "one container is held twice")
        check(not any(h is g for h in held for g in given_events) or "any" in json.dumps(spec) or "null" in json.dumps(spec), "the given container is held")
        if "any" not in json.dumps(spec) and "null" not in json.dumps(spec):
            calls.clear()
            gshape = [shape(g) for g in given_events]
            for h in held:
                logs = [[] for _ in held]
                subs = []
                for o, log in zip(held, logs):
                    f = (lambda log: lambda *a: log.append(a))(log)
                    o.events.connect(f, check_nargs=False)
                    subs.append(f)
                if hasattr(h, "items"):
                    h[987] = 1
                    eq(h[987], 1, "item of a validated dict")
                    del h[987]
                elif hasattr(h, "append"):
                    h.append(987)
                    eq(h[-1], 987, "appended item")
                    h.pop()
                else:
                    h.add(987)
                    check(987 in h, "added item")
                    h.discard(987)
                for o, log, f in zip(held, logs, subs):
                    check(bool(log) == (o is h), "events of %r for a change of %r: %r", o, h, log)
                    o.events.disconnect(f)
            check(not calls and gshape == [shape(g) for g in given_events], "the container given was changed")
        ctx.nontrivial(bool(held) and shape(value(m)) != shape(given) and len(held) > 1)
        ctx.label(*{"held " + type(h).__name__ for h in held})


REGRESSIONS = [
    {"spec": {"t": "union", "of": {"t": "dict", "key": "str", "of": {"t": "emodel"}}, "alt": "str", "first": False}, "base": "BaseModel", "con": None, "data": [{"w": "pdict", "v": [["a", {"n": 3}]]}]},
    {"spec": {"t": "list", "of": {"t": "node"}}, "base": "BaseModel", "con": None, "data": [{"w": "plist", "v": [{"kids": [{"n": "3"}], "named": {"a": {"kids": [{}]}}}]}]},
    {"spec": {"t": "oset", "of": {"t": "int"}}, "base": "BaseModel", "con": None, "data": [{"w": "plist", "v": [3, "2", 1]}]},
    {"spec": {"t": "dict", "key": "str", "of": {"t": "list", "of": {"t": "model"}}}, "base": "EventedModel", "con": None, "data": [{"w": "pdict", "v": [["a", {"w": "plist", "v": [{"n": "3"}]}]]}]},
]
