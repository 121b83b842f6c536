"""C11: every object has its own, stable signal instance for each Signal it declares."""
from __future__ import annotations

import copy
import gc
import inspect

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C11"
RULE = (
    "A case is a generated class hierarchy (plain / slotted / weakref-less slotted, default / constant / value / "
    "missing hash and equality, falsy objects, own __setattr__ that redirects, drops or refuses, overriding, aliased, "
    "shared, explicitly named and late-assigned signals) and a history of creating, dropping and re-creating objects (also crowds of them), "
    "attribute accesses (also super()), connections, disconnections and emissions. Oracle: a table (object, Signal) -> "
    "instance and its callbacks. Non-trivial: two objects or two Signals of one object are used."
)
ASSUMPTIONS = []
QUICK, THOROUGH = 1300, 50000
QUICK_S = 20

NAMES = ["a", "b", "c", "name", "changed"]
TYPES = [[], ["int"], ["int", "str"], ["object"]]


def strategy(tier):
    decl = st.fixed_dictionaries({
        "attr": st.sampled_from(NAMES),
        "name": st.sampled_from([None, None, None, "explicit", "a", "b"]),
        "types": st.sampled_from(TYPES),
        "desc": st.sampled_from(["", "", "text"]),
        "mode": st.sampled_from(["immediate", "queued", "latest-only"]),
        "alias": st.sampled_from([None] * 6 + NAMES),
        "late": st.sampled_from([False] * 5 + [True]),
    })
    cls = st.fixed_dictionaries({
        "base": st.sampled_from([None, None, 0, 1, 2]),
        "share": st.sampled_from([None, None, None, 0, 1]),
        "slots": st.sampled_from(["none", "none", "weak", "noweak"]),
        "eq": st.sampled_from(["default", "default", "const", "true", "unhashable"]),
        "falsy": st.booleans(),
        "setattr": st.sampled_from(["default"] * 5 + ["redirect", "ignore", "reject", "typed"]),
        "sigs": st.lists(decl, min_size=1, max_size=3),
    })
    o = st.integers(0, 5)
    op = st.one_of(
        st.tuples(st.just("new"), st.integers(0, 3)).map(list),
        st.tuples(st.just("get"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("conn"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("conn"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("emit"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("emit"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("super"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("drop"), o).map(list),
        st.tuples(st.just("discall"), o, st.integers(0, 5)).map(list),
        st.tuples(st.just("deepcopy"), o).map(list),
        st.tuples(st.just("crowd"), st.integers(0, 3), st.sampled_from([3, 9, 30]), st.booleans()).map(list),
    )
    return st.fixed_dictionaries({
        "classes": st.lists(cls, min_size=1, max_size=4),
        "init": st.lists(st.tuples(st.just("new"), st.integers(0, 3)).map(list), min_size=1, max_size=4),
        "ops": st.lists(op, min_size=4, max_size=25 if tier == "quick" else 60),
        "shallow": st.just(False),
    })


def run_case(case, ctx):
    from psygnal import Signal, SignalInstance

    T = {"int": int, "str": str, "object": object}
    classes, table, everywhere = [], [], []  # table: per class {attr: Signal}
    decl_of = {}

    for ci, c in enumerate(case["classes"]):
        base = classes[c["base"]] if c["base"] is not None and c["base"] < len(classes) else object
        attrs = dict(table[classes.index(base)]) if base is not object else {}
        ns = {"__module__": "props.c11"}
        if c["slots"] == "weak" and (base is object or base.__dict__.get("__slots__") == ()):
            ns["__slots__"] = ("__weakref__",) if not hasattr(base, "__weakref__") else ()
        elif c["slots"] == "noweak":
            ns["__slots__"] = ()
        if c["eq"] == "const":
            ns["__eq__"] = lambda s, o: isinstance(o, type(s))
            ns["__hash__"] = lambda s: 7
        elif c["eq"] == "true":
            ns["__eq__"] = lambda s, o: True
            ns["__hash__"] = lambda s: 1
        elif c["eq"] == "unhashable":
            ns["__eq__"] = lambda s, o: s is o
            ns["__hash__"] = None
        if c["falsy"]:
            ns["__bool__"] = lambda s: False
            ns["__len__"] = lambda s: 0
        if c["setattr"] == "redirect":
            def f(s, k, v, ci=ci):
                store[id(s), k] = v
            ns["__setattr__"] = f
        elif c["setattr"] == "ignore":
            ns["__setattr__"] = lambda s, k, v: None
        elif c["setattr"] == "reject":
            def f(s, k, v):
                raise AttributeError(k)
            ns["__setattr__"] = f
        elif c["setattr"] == "typed":
            def f(s, k, v):
                object.__setattr__(s, k, v)
            ns["__setattr__"] = f
        late = []
        own = {}
        for d in c["sigs"]:
            if d["attr"] in own:
                continue
            if d["alias"] in own and d["attr"] not in own:
                own[d["attr"]] = own[d["alias"]]
                ctx.label("alias")
                continue
            name = d["name"]
            if d["late"]:
                name = d["attr"]
            s = Signal(*[T[t] for t in d["types"]], name=name, description=d["desc"], reemission=d["mode"])
            decl_of[s] = (d, name)
            if d["late"]:
                late.append((d["attr"], s))
                ctx.label("late")
            own[d["attr"]] = s
        if c["share"] is not None and c["share"] < ci:
            for k, s in table[c["share"]].items():
                other = NAMES[(NAMES.index(k) + 1) % len(NAMES)]
                if other not in own:
                    own[other] = s
                    ctx.label("shared-between-classes")
                    break
        lates = dict(late)
        for k, s in own.items():
            if k not in lates:
                ns[k] = s
        cls = type(f"C{ci}", (base,), ns)
        for k, s in own.items():
            if k in lates:
                setattr(cls, k, s)
        attrs.update(own)
        classes.append(cls)
        table.append(attrs)
        if any(table[i].get(k) not in (None, s) for i in range(ci) for k, s in own.items()):
            ctx.label("override")

    # the name a Signal gets: explicit, or the first attribute it was assigned to
    first_attr = {}
    for ci, c in enumerate(classes):
        for k, v in c.__dict__.items():
            if isinstance(v, Signal):
                first_attr.setdefault(id(v), k)
    for s, (d, name) in decl_of.items():
        pass

    store = {}
    objs = {}  # slot -> [class idx, obj, {id(Signal): [instance, [tags]]}]
    log = []
    n = [0]
    used = set()

    def get_obj(o):
        return objs.get(o)

    def access(o, k):
        rec = objs[o]
        attrs = table[rec[0]]
        attr = sorted(attrs)[k % len(attrs)]
        return attr, getattr(rec[1], attr)

    def register(o, sig, inst, what):
        """inst was got as Signal sig of object o."""
        rec = objs[o]
        known = rec[2].get(id(sig))
        check(isinstance(inst, SignalInstance), "%s is %r", what, inst)
        if known is None:
            for o2, r2 in objs.items():
                for sid, (i2, _) in r2[2].items():
                    if i2 is inst:
                        raise Violation(f"{what} is also the signal of "
                                        + ("another object" if o2 != o else "another Signal of the same object"))
            if len(inst) and not rec[3]:
                raise Violation(f"{what} is new, but has {len(inst)} connections")
            rec[2][id(sig)] = known = [inst, []]
        elif known[0] is not inst:
            raise Violation(f"{what} is not the signal instance that the same access gave before")
        if inst.instance is not rec[1]:
            raise Violation(f"{what}.instance is not the owner")
        d, name = decl_of[sig]
        eq(inst.name, name or first_attr[id(sig)], f"name of {what}")
        eq(inst.description, d["desc"], f"description of {what}")
        eq(inst.signature, sig.signature, f"signature of {what}")
        eq([p.annotation for p in inst.signature.parameters.values()], [T[t] for t in d["types"]], "types")
        eq(len(inst), len(known[1]), f"len of {what}")
        used.add((o, id(sig)))
        return known

    def crowd(ci, them, backwards):
        """Many objects of a class at once, each with its own signals."""
        mine, got = [], []
        for j, x in enumerate(them):
            mine.append({a: getattr(x, a) for a in table[ci]})
            for a, i in mine[-1].items():
                if i.instance is not x:
                    raise Violation(f"{a}.instance of one of many objects is another one")
                if len(i) == 0:  # (not an alias of one that was connected)
                    i.connect(lambda *args, j=j, i=i: got.append((j, i)))
        for j, x in list(enumerate(them))[:: -1 if backwards else 1]:
            for a, sig in table[ci].items():
                i = getattr(x, a)
                if i is not mine[j][a]:
                    raise Violation(f"{a} of one of many objects is not the signal instance that it had before")
                got.clear()
                i.emit(*args_for(sig))
                check(len(got) == 1 and got[0][0] == j and got[0][1] is i, "callbacks called for %s of object %s: %s", a, j, got)
        ctx.label("crowd")

    def args_for(sig):
        return tuple({"int": 1, "str": "s", "object": None}[t] for t in decl_of[sig][0]["types"])

    for op in case.get("init", []) + case["ops"]:
        w = op[0]
        if w == "new":
            slot = n[0] % 6
            n[0] += 1
            ci = op[1] % len(classes)
            objs.pop(slot, None)
            objs[slot] = [ci, classes[ci](), {}, False]
            continue
        if w == "crowd":
            ci = op[1] % len(classes)
            crowd(ci, [classes[ci]() for _ in range(op[2])], op[3])
            continue
        if not objs:
            continue
        o = sorted(objs)[op[1] % len(objs)]
        rec = objs[o]
        if w == "drop":
            del objs[o]
            rec = None
            ctx.label("drop")
            gc.collect(0)
            continue
        if w == "deepcopy":
            if inspect.getattr_static(type(rec[1]), "__setattr__") is not object.__setattr__:
                continue
            if type(rec[1]).__eq__ is not object.__eq__ and type(rec[1]).__hash__ is None:
                pass
            slot = n[0] % 6
            if slot == o:
                continue
            n[0] += 1
            objs.pop(slot, None)
            new = copy.deepcopy(rec[1])
            objs[slot] = [rec[0], new, {}, True]
            # a copy's function slots come along (C23): here only instances matter
            for attr, sig in table[rec[0]].items():
                i = getattr(new, attr)
                i.disconnect()
                known = register(slot, sig, i, f"copy.{attr}")
            ctx.label("deepcopy")
            continue
        attrs = table[rec[0]]
        attr = sorted(attrs)[op[2] % len(attrs)]
        sig = attrs[attr]
        what = f"C{rec[0]}().{attr}"
        if w == "super":
            base = type(rec[1]).__mro__[1]
            if base is object or base not in classes:
                continue
            battrs = table[classes.index(base)]
            if attr not in battrs:
                continue
            sig = battrs[attr]
            inst = getattr(super(type(rec[1]), rec[1]), attr)
            register(o, sig, inst, f"super().{attr}")
            ctx.label("super")
            continue
        check(getattr(type(rec[1]), attr) is sig, "class access of %s gives another Signal", attr)
        known = register(o, sig, getattr(rec[1], attr), what)
        inst = known[0]
        if w == "conn":
            tag = f"{o}.{attr}.{len(known[1])}"

            def f(*a, tag=tag):
                log.append((tag, a))

            inst.connect(f)
            known[1].append(tag)
        elif w == "emit":
            log.clear()
            a = args_for(sig)
            inst.emit(*a)
            eq(log, [(t, a) for t in known[1]], f"callbacks called by an emission of {what}")
        elif w == "discall":
            inst.disconnect()
            known[1].clear()
        # nothing else changed
        for o2, r2 in objs.items():
            for sid, (i2, tags) in r2[2].items():
                eq(len(i2), len(tags), "len of another signal")
    ctx.nontrivial(len(used) >= 2)
    if case["shallow"]:
        x = type("X", (), {"sig": Signal(int)})()
        x.sig.connect(lambda v: None)
        y = copy.copy(x)
        if y.sig is x.sig:
            raise Violation("copy.copy(obj): the copy uses the signal instance of the original")


REGRESSIONS = []
