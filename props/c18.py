"""C18: evented sets are sets whose items_changed events are exact."""
from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C18"
RULE = (
    "A case is an EventedSet, EventedOrderedSet or OrderedSet (possibly a subclass whose hook converts or refuses items) "
    "and a history of set methods and operators with arguments of any kind (none, several, repeated items, iterators, "
    "generators that fail, unhashable items, other evented sets, the set itself), run also on a built-in set. Oracle: "
    "that set, an insertion order model, and the difference of contents before and after each operation, which "
    "must be reported by exactly one event. Non-trivial: an operation added and another removed members and one with "
    "at least two changed members was reported."
)
ASSUMPTIONS = [
    "operators are used with sets only (collections.abc also accepts other iterables there, by design)",
    "which member pop() removes and the order of results of operators are not specified",
]
QUICK, THOROUGH = 3000, 80000
QUICK_S = 20
VALS = [0, 1, 2, 3, 4, 5, "t", "f1", "x", "y", None, "nan", "tup", "fs", "big"]


def strategy(tier):
    v = st.sampled_from(VALS)
    vb = st.one_of(v, v, v, v, st.just("#list"))
    items = st.lists(v, max_size=6)
    src = st.one_of(
        st.tuples(st.sampled_from(["list", "list", "tuple", "iter", "gen", "set", "fset", "evented", "ordered", "dict"]), items).map(list),
        st.tuples(st.sampled_from(["boom", "unhash", "self", "selfiter", "five"]), items).map(list),
        st.tuples(st.just("list"), st.lists(v, min_size=3, max_size=8).map(lambda x: x + x[:2])).map(list),
    )
    srcs = st.lists(src, max_size=3)
    setsrc = st.tuples(st.sampled_from(["set", "fset", "evented", "ordered", "self"]), items).map(list)
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    op = st.one_of(
        T("add", vb), T("add", v), T("discard", vb), T("remove", vb), T("pop",), T("clear",),
        T("update", srcs), T("update", srcs), T("difference_update", srcs), T("intersection_update", srcs),
        T("symmetric_difference_update", src), T("symmetric_difference_update", src),
        T("iop", st.sampled_from(["|", "&", "-", "^"]), setsrc), T("iop", st.sampled_from(["|", "&", "-", "^"]), setsrc),
        T("union", srcs), T("difference", srcs), T("intersection", srcs), T("symmetric_difference", src),
        T("op", st.sampled_from(["|", "&", "-", "^"]), setsrc, st.booleans()),
        T("pred", st.sampled_from(["issubset", "issuperset", "isdisjoint"]), src),
        T("cmp", setsrc), T("copy", v), T("in", vb),
    )
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["evented", "eordered", "eordered", "ordered"]),
        "hook": st.sampled_from([None, None, None, "map", "refuse"]),
        "init": src.filter(lambda s: s[0] not in ("self", "selfiter")),
        "ops": st.lists(op, min_size=3, max_size=18 if tier == "quick" else 60),
    })


def run_case(case, ctx):
    import copy
    import operator

    from psygnal.containers import EventedOrderedSet, EventedSet, OrderedSet

    nan = float("nan")
    pool = {"t": True, "f1": 1.0, "nan": nan, "tup": (1, "x"), "fs": frozenset([1, 2]), "big": 10**20}
    val = lambda v: [1] if v == "#list" else (pool.get(v, v) if isinstance(v, str) else v)
    hook = case["hook"]

    def conv(v):
        if hook == "refuse" and v == "x":
            raise LookupError("refused")
        return 50 if hook == "map" and v is 5 else v  # noqa: F632

    base = {"evented": EventedSet, "eordered": EventedOrderedSet, "ordered": OrderedSet}[case["kind"]]
    evented = case["kind"] != "ordered"
    ordered = case["kind"] != "evented"
    cls = base
    if hook:
        cls = type("Sub", (base,), {"_pre_add_hook": lambda self, item: base._pre_add_hook(self, conv(item))})

    class OSet(set):  # iterates in the order of the evented set it stands for
        def __iter__(self):
            return iter(self.order)

    mat = []  # items of the sources used by the current operation, in order

    def source(spec, me):
        kind, raw = spec
        items = [val(v) for v in raw]
        if kind == "self":
            mat.append(list(me))
            return me
        if kind == "selfiter":
            mat.append(list(me))
            return iter(list(me))
        if kind == "five":
            return 5
        if kind == "unhash":
            mat.append(items[:2])
            return [*items[:2], [1], *items[2:]]
        if kind == "boom":
            mat.append(items[:2])

            def g():
                yield from items[:2]
                raise ZeroDivisionError
            return g()
        if kind == "gen":
            r = (x for x in items)
            mat.append(items)
            return r
        if kind == "iter":
            mat.append(items)
            return iter(items)
        r = {"list": list, "tuple": tuple, "set": set, "fset": frozenset, "dict": dict.fromkeys,
             "evented": EventedSet, "ordered": EventedOrderedSet}[kind](items)
        mat.append(list(r))
        if isinstance(me, set) and kind in ("evented", "ordered"):
            o = OSet(items)
            o.order = list(r)
            return o
        return r

    class Ref(set):  # a set with the hook for the methods that add
        if hook:
            def add(self, v):
                set.add(self, conv(v))

            def update(self, *o):
                for x in o:
                    for v in (list(x) if x is self else x):
                        self.add(v)

    def both(what, f, g):
        try:
            want = ("ok", g())
        except Exception as e:
            want = ("raise", type(e))
        try:
            got = ("ok", f())
        except Exception as e:
            got = ("raise", type(e))
        if "raise" in (want[0], got[0]):
            eq(got, want, what)
            ctx.label("raises")
            return False, None, None
        if isinstance(want[1], (bool, int, type(None))):
            eq((type(got[1]), got[1]), (type(want[1]), want[1]), what)
        return True, got[1], want[1]

    ispec = case["init"]
    ref = Ref()
    if hook and (ispec[0] == "evented" or base is EventedSet):
        ispec = [ispec[0], [v for v in ispec[1] if v not in ("x", 5)]]  # the constructor need not use the hook
    ok, s, _ = both("constructor", lambda: cls(source(ispec, None)), lambda: [ref.update(source(ispec, ref))])
    if not ok:
        s, ref = cls(), Ref()
    mat.clear()
    if ok and ordered:
        # insertion order of the first occurrences
        source(ispec, None)
        eq(list(s), list(dict.fromkeys(conv(x) for x in mat[0])), "order after construction")
    order = list(s)
    log = []
    if evented:
        s.events.items_changed.connect(lambda a, r: log.append((a, r, list(s))))

    def same_set(a, b, what):
        check(len(a) == len(b) and set(a) == set(b), "%s: got %r, expected %r", what, a, b)

    same_set(list(s), ref, "members after construction")
    stats = Counter()
    OPS = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor}
    IOPS = {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor}

    for op in case["ops"]:
        k = op[0]
        if hook and (k.startswith("symm") or k == "op" or (k == "iop" and op[1] == "^")):
            continue
        if not evented and ((k == "discard" and op[1] == "#list") or (k == "difference_update" and "unhash" in str(op))):
            continue  # an empty dict (in the plain OrderedSet) does not hash what it discards
        ctx.label(k)
        before = set(ref)
        border = list(order)
        del log[:], mat[:]
        result = None
        if k in ("add", "discard", "remove"):
            v = val(op[1])
            mat.append([v])
            both(k, lambda: getattr(s, k)(v), lambda: getattr(ref, k)(v))
        elif k == "pop":
            if not ref:
                both(k, lambda: s.pop(), lambda: ref.pop())
            else:
                x = s.pop()
                check(x in ref, "pop() returned %r, no member", x)
                ref.remove(x)
        elif k == "clear":
            both(k, lambda: s.clear(), lambda: ref.clear())
        elif k in ("update", "difference_update", "intersection_update"):
            src = [source(x, ref) for x in op[1]]
            mat.clear()
            mine = [source(x, s) for x in op[1]]
            both(f"{k}{tuple(op[1])}", lambda: getattr(s, k)(*mine), lambda: getattr(ref, k)(*src))
        elif k == "symmetric_difference_update":
            src = source(op[1], ref)
            mat.clear()
            mine = source(op[1], s)
            both(f"{k}({op[1]})", lambda: getattr(s, k)(mine), lambda: getattr(ref, k)(src))
        elif k == "iop":
            src = source(op[2], ref)
            mat.clear()
            mine = source(op[2], s)

            def f():
                r = IOPS[op[1]](s, mine)
                check(r is s, "%s= returned another object", op[1])

            def g():
                if hook and op[1] == "|":
                    ref.update(src)
                else:
                    IOPS[op[1]](ref, src)
            both(f"{op[1]}= {op[2]}", f, g)
        elif k in ("union", "difference", "intersection"):
            src = [source(x, ref) for x in op[1]]
            mat.clear()
            mine = [source(x, s) for x in op[1]]
            if hook and k == "union":
                def g():
                    r = Ref(ref)
                    r.update(*src)
                    return r
            else:
                g = lambda: getattr(ref, k)(*src)
            ok, a, b = both(f"{k}{tuple(op[1])}", lambda: getattr(s, k)(*mine), g)
            if ok:
                result = (a, b, list(dict.fromkeys([*order, *(conv(x) for m in mat for x in m)])) if k == "union"
                          else [x for x in order if x in b])
        elif k == "symmetric_difference":
            src, mine = source(op[1], ref), source(op[1], s)
            ok, a, b = both(f"{k}({op[1]})", lambda: s.symmetric_difference(mine), lambda: ref.symmetric_difference(src))
            result = (a, b, None) if ok else None
            if ok and ordered:  # the items of each in the order they had
                has, new = list(a), list(dict.fromkeys(x for m in mat for x in m))
                eq([x for x in has if x in ref], [x for x in order if x in b], "order of own items in the symmetric difference")
                eq([x for x in has if x not in ref], [x for x in new if x in b and x not in ref],
                   "order of new items in the symmetric difference")
        elif k == "op":
            src, mine = source(op[2], ref), source(op[2], s)
            if op[3]:
                if op[2][0] in ("evented", "ordered"):
                    continue  # the other operand decides
                ok, a, b = both(f"{op[2]} {op[1]} s", lambda: OPS[op[1]](mine, s), lambda: OPS[op[1]](src, ref))
            else:
                ok, a, b = both(f"s {op[1]} {op[2]}", lambda: OPS[op[1]](s, mine), lambda: OPS[op[1]](ref, src))
            result = (a, b, None) if ok else None
        elif k == "pred":
            src, mine = source(op[2], ref), source(op[2], s)
            both(f"{op[1]}({op[2]})", lambda: getattr(s, op[1])(mine), lambda: getattr(ref, op[1])(src))
        elif k == "cmp":
            src, mine = source(op[1], ref), source(op[1], s)
            for o in (operator.eq, operator.ne, operator.le, operator.lt, operator.ge, operator.gt):
                both(f"s {o.__name__} {op[1]}", lambda: o(s, mine), lambda: o(ref, src))
                both(f"{op[1]} {o.__name__} s", lambda: o(mine, s), lambda: o(src, ref))
            eq(s == list(ref), False, "== list")
            both("hash", lambda: hash(s), lambda: hash(ref))
        elif k == "copy":
            for c in (s.copy(), copy.copy(s)):
                result = (c, set(ref), list(order))
                check(c is not s, "copy is the original")
                check(type(c) is type(s), "type of a copy")
                same_set(list(c), ref, "copy")
                if op[1] != "x":
                    c.add(val(op[1]))
                c.clear()
                c = s.copy()
            result = (c, set(ref), list(order))
        elif k == "in":
            v = val(op[1])
            both(k, lambda: v in s, lambda: v in ref)
        if result is not None:
            a, b, o = result
            check(type(a) is type(s), "%s: type of the result: %s", k, type(a))
            check(a is not s, "%s returned the set itself", k)
            same_set(list(a), b, f"result of {op}")
            if ordered and o is not None:
                eq(list(a), o, f"order of the result of {op}")
            if isinstance(a, EventedSet):  # detached
                a.add("new")
                a.clear()
        # ------------------------------------------------ after every operation
        same_set(list(s), ref, f"members after {op}")
        eq((len(s), bool(s)), (len(ref), bool(ref)), "len")
        added, removed = set(ref) - before, before - set(ref)
        if ordered:
            order = [x for x in border if x in ref]
            order += [x for x in dict.fromkeys(conv(y) if hook else y for m in mat for y in m if not isinstance(y, list)
                                               and not (hook == "refuse" and y == "x")) if x in added]
            eq(list(s), order, f"order after {op}")
        order = list(s)
        if evented:
            if not added and not removed:
                eq(log, [], f"events of {op}, which changed nothing")
            else:
                eq(len(log), 1, f"number of events of {op}: {log}")
                a, r, snap = log[0]
                check(type(a) is tuple and type(r) is tuple, "types of the event's arguments")
                same_set(a, added, f"added by {op}")
                same_set(r, removed, f"removed by {op}")
                same_set(snap, ref, "members when the event was emitted")
        stats["a"] += bool(added)
        stats["r"] += bool(removed)
        stats["m"] += len(added) + len(removed) >= 2
    ctx.nontrivial(stats["a"] and stats["r"] and stats["m"])


REGRESSIONS = [
    {"kind": k, "hook": None, "init": ["list", [1, 2, 3]],
     "ops": [["symmetric_difference_update", ["list", [4, 4, 1, 1]]], ["symmetric_difference_update", ["iter", [2, 5, 5]]],
             ["difference_update", [["self", []]]], ["iop", "|", ["set", [0, 1, 2]]], ["symmetric_difference_update", ["self", []]],
             ["update", [["list", [1, 2, 3]]]], ["intersection", []], ["intersection_update", []],
             ["symmetric_difference", ["iter", [1, 5]]], ["update", [["unhash", [8, 9]]]], ["iop", "^", ["set", [1, 9]]]]}
    for k in ("evented", "eordered", "ordered")
]
