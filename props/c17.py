"""C17: EventedDict is a dict whose events replay its history."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C17"
RULE = (
    "A case is an EventedDict (constructor form, basetype: none, a type, several, an abstract one) and a history of "
    "mapping operations with keys that are equal but not identical, nan, unhashable, and values that are equal, "
    "identical, or refused, run also on a built-in dict that checks the value type. Oracle: that dict, and a replica "
    "driven only by the events and compared at every event. Non-trivial: at least three mutations happened, among them "
    "a change or removal, and an operation failed or changed nothing."
)
ASSUMPTIONS = ["operations are those of collections.abc.MutableMapping plus copy() (no |, |= and fromkeys)"]
QUICK, THOROUGH = 3000, 80000
QUICK_S = 20
KEYS = ["a", "b", "c", 0, 1, "t", "f1", 2, "nan", "nan2", "tup", None, "fs", "K"]
BADKEYS = ["#list", "#dict"]
VALS = [0, 1, 1, 2, "t", "f1", "x", "big", "big2", None, "l", "l2", "nan"]
TYPES = {"none": None, "int": [int], "intstr": [int, str], "num": ["number"], "object": [object], "list": [list]}


def strategy(tier):
    k = st.sampled_from(KEYS)
    kb = st.one_of(k, k, k, k, st.sampled_from(BADKEYS))
    v = st.sampled_from(VALS)
    pairs = st.lists(st.tuples(kb, v).map(list), max_size=4)
    src = st.sampled_from(["dict", "dict", "pairs", "iter", "keysobj", "evented", "boom", "self", "bad1", "bad2", "none", "proxy", "zero", "empty", "falsy"])
    kws = st.lists(st.tuples(st.sampled_from(["a", "b", "self", "other"]), v).map(list), max_size=2)
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    op = st.one_of(
        T("set", kb, v), T("set", k, v), T("set", k, v), T("setsame", kb), T("del", kb), T("del", k), T("pop", kb, st.sampled_from([0, 1, 2])),
        T("popitem",), T("clear",), T("setdefault", kb, v, st.booleans()), T("setdefault", k, v, st.booleans()),
        T("update", src, pairs, kws), T("update", src, pairs, kws), T("read", kb, v), T("views", k, v), T("copy", k, v), T("eq", k, v),
    )
    return st.fixed_dictionaries({
        "init": st.tuples(src.filter(lambda s: s not in ("self",)), pairs, kws.map(lambda x: [p for p in x if p[0] != "self"])).map(list),
        "types": st.sampled_from(["none", "none", *TYPES]),
        "tform": st.sampled_from(["tuple", "list", "single"]),
        "cls": st.sampled_from(["evented", "evented", "evented", "sub", "typed"]),
        "ops": st.lists(op, min_size=3, max_size=20 if tier == "quick" else 60),
    })


def run_case(case, ctx):
    import collections
    import copy
    import numbers
    import types

    from psygnal.containers import EventedDict
    from psygnal.containers._evented_dict import TypedMutableMapping

    nan, big = float("nan"), 10**20
    pool = {"t": True, "f1": 1.0, "nan": nan, "nan2": float("nan"), "tup": (1, "x"), "fs": frozenset([1]),
            "big": big, "big2": 10**19 * 10, "l": [1], "l2": [1]}

    def key(k):
        if isinstance(k, str) and k.startswith("#"):
            return [1] if k == "#list" else {}
        return pool.get(k, k) if isinstance(k, str) else k

    val = lambda v: pool.get(v, v) if isinstance(v, str) else v
    ts = TYPES[case["types"]]
    ts = ts and tuple(numbers.Number if t == "number" else t for t in ts)

    class Ref(dict):
        """A dict that refuses values of other types; only what EventedDict documents is used."""

        def __setitem__(self, k, v):
            if ts and not isinstance(v, ts):
                raise TypeError("refused")
            super().__setitem__(k, v)

        update = collections.abc.MutableMapping.update  # so that update() uses __setitem__

        def setdefault(self, k, d=None):
            if k in self:
                return self[k]
            self[k] = d
            return d

        def copy(self):
            r = Ref()
            r.update(self)
            return r

    base = {"evented": EventedDict, "typed": TypedMutableMapping}.get(case["cls"]) or type("SubDict", (EventedDict,), {})
    kw = {}
    if ts:
        kw["basetype"] = ts[0] if case["tform"] == "single" and len(ts) == 1 else (list(ts) if case["tform"] == "list" else ts)

    def source(kind, ps, me):
        ps = [(key(k), val(v)) for k, v in ps]
        ok = [(k, v) for k, v in ps if not isinstance(k, (list, dict))]
        if kind == "self":
            return me
        if kind == "dict":
            return dict(ok)
        if kind == "proxy":
            return types.MappingProxyType(dict(ok))
        if kind == "evented":
            return EventedDict(dict(ok)) if not isinstance(me, Ref) else dict(ok)
        if kind == "pairs":
            return ps
        if kind == "iter":
            return iter(ps)
        if kind == "keysobj":
            class KO:
                def keys(self):
                    return [k for k, _ in ok]

                def __getitem__(self, k):
                    return dict(ok)[k]
            return KO()
        if kind == "falsy":  # (but not empty)
            return type("FD", (dict,), {"__bool__": lambda self: False})(ok)
        if kind in ("zero", "empty"):
            return 0 if kind == "zero" else ""
        if kind == "bad1":
            return [*ps, 5]
        if kind == "bad2":
            return [*ps, (1, 2, 3)]
        if kind == "none":
            return 5

        def g():
            yield from ps[:2]
            raise ZeroDivisionError
        return g()

    def same_items(a, b):
        return [(id(k), id(v)) for k, v in a] == [(id(k), id(v)) for k, v in b]

    def ids(d):
        return [(id(k), id(v)) for k, v in d.items()]

    def both(what, f, g):
        try:
            want = ("ok", g())
        except Exception as e:
            want = ("raise", type(e))
        try:
            got = ("ok", f())
        except Exception as e:
            got = ("raise", type(e))
        if "raise" in (want[0], got[0]):
            # a key and a value may both be refused: any of the two TypeErrors
            eq(got, want, what)
            ctx.label("raises")
        else:
            check(got[1] is want[1] or got == want or (isinstance(want[1], tuple) and same_items([got[1]], [want[1]])),
                  "%s: got %r, expected %r", what, got[1], want[1])
        return want[0] == "ok"

    # ------------------------------------------------------------- construction
    kind, ps, kws = case["init"]
    kws = {k: val(v) for k, v in kws}
    ref = Ref()
    try:
        if kind == "none":
            ref.update({}, **kws)
        else:
            ref.update(source(kind, ps, ref), **kws)
        want = None
    except Exception as e:
        want = type(e)
    try:
        d = base(**kw, **kws) if kind == "none" else base(source(kind, ps, None), **kw, **kws)
        got = None
    except Exception as e:
        got = type(e)
    eq(got, want, "constructor")
    if got is not None:
        ctx.label("constructor refused")
        ref = Ref()
        d = base(**kw)
    eq(ids(d), ids(ref), "items after construction")

    log, errs, pend = [], [], []
    rep = dict(ref)

    def guard(fn):
        def f(*a):
            try:
                fn(*a)
            except Violation as e:
                errs.append(str(e))
            except Exception as e:
                errs.append(f"replaying {fn.__name__}{a!r}: {e!r}")
        return f

    def now(what):
        eq(ids(d), ids(rep), f"contents when {what} was emitted")

    def adding(k):
        log.append("adding")
        now("adding")
        check(k not in rep, "adding(%r), which is there", k)
        pend.append(("a", k))

    def added(k, v):
        log.append("added")
        p = pend.pop() if pend else None
        check(p and p[0] == "a" and p[1] is k, "added without its adding")
        check(k not in rep, "added(%r), which was there", k)
        rep[k] = v
        now("added")

    def changing(k):
        log.append("changing")
        now("changing")
        rep[k]
        pend.append(("c", k))

    def changed(k, old, new):
        log.append("changed")
        p = pend.pop() if pend else None
        check(p and p[0] == "c" and p[1] is k, "changed without its changing")
        check(rep[k] is old, "changed(%r): old value %r", k, old)
        rep[k] = new
        now("changed")

    def removing(k):
        log.append("removing")
        now("removing")
        rep[k]
        pend.append(("r", k))

    def removed(k, v):
        log.append("removed")
        p = pend.pop() if pend else None
        check(p and p[0] == "r" and p[1] is k, "removed without its removing")
        check(rep.pop(k) is v, "removed(%r) with another value", k)
        now("removed")

    evented = case["cls"] != "typed"
    if evented:
        for fn in (adding, added, changing, changed, removing, removed):
            getattr(d.events, fn.__name__).connect(guard(fn))

    muts, kinds, quiet = 0, set(), 0
    for op in case["ops"]:
        k = op[0]
        del log[:], pend[:]
        before = dict(ref)
        ctx.label(k)
        ok = True
        if k == "set":
            kk, v = key(op[1]), val(op[2])
            ok = both(k, lambda: d.__setitem__(kk, v), lambda: ref.__setitem__(kk, v))
        elif k == "setsame":
            kk = key(op[1])
            ok = both(k, lambda: d.__setitem__(kk, d[kk]), lambda: (ref[kk], None)[1])
        elif k == "del":
            kk = key(op[1])
            ok = both(k, lambda: d.__delitem__(kk), lambda: ref.__delitem__(kk))
        elif k == "pop":
            kk = key(op[1])
            a = [(), (None,), (7,)][op[2]]
            if ref or not isinstance(kk, (list, dict)):  # an empty dict does not even hash
                ok = both(k, lambda: d.pop(kk, *a), lambda: ref.pop(kk, *a))
        elif k == "popitem":
            ok = both(k, lambda: d.popitem(), lambda: ref.popitem())
        elif k == "clear":
            ok = both(k, lambda: d.clear(), lambda: ref.clear())
        elif k == "setdefault":
            kk, v = key(op[1]), val(op[2])
            a = (v,) if op[3] else ()
            ok = both(k, lambda: d.setdefault(kk, *a), lambda: ref.setdefault(kk, *a))
        elif k == "update":
            kws = {x: val(v) for x, v in op[3]}
            ok = both(k, lambda: d.update(source(op[1], op[2], d), **kws), lambda: ref.update(source(op[1], op[2], ref), **kws))
        elif k == "read":
            kk, v = key(op[1]), val(op[2])
            both("getitem", lambda: d[kk], lambda: ref[kk])
            both("get", lambda: d.get(kk), lambda: ref.get(kk))
            both("get", lambda: d.get(kk, v), lambda: ref.get(kk, v))
            both("contains", lambda: kk in d, lambda: kk in ref)
            both("hash", lambda: hash(d), lambda: hash(ref))
        elif k == "views":
            kk, v = key(op[1]), val(op[2])
            eq([id(x) for x in d], [id(x) for x in ref], "iteration")
            eq([id(x) for x in d.keys()], [id(x) for x in ref], "keys()")
            eq([id(x) for x in d.values()], [id(x) for x in ref.values()], "values()")
            eq(len(d.items()), len(ref), "len(items())")
            eq(kk in d.keys(), kk in ref.keys(), "in keys()")
            eq(v in d.values(), v in ref.values(), "in values()")
            eq((kk, v) in d.items(), (kk, v) in ref.items(), "in items()")
            eq(d.keys() & {kk, "a"}, ref.keys() & {kk, "a"}, "keys() & set")
            eq(d.keys() - {kk}, ref.keys() - {kk}, "keys() - set")
            eq(bool(d), bool(ref), "truth value")
        elif k == "copy":
            for c in (d.copy(), copy.copy(d)):
                check(type(c) is type(d) and c is not d, "type of a copy")
                eq(ids(c), ids(ref), "copy")
                r = ref.copy()
                kk, v = key(op[1]), val(op[2])
                both("setitem of a copy", lambda: c.__setitem__(kk, v), lambda: r.__setitem__(kk, v))
                eq(ids(c), ids(r), "copy after setitem")
                c.clear()
        elif k == "eq":
            kk, v = key(op[1]), val(op[2])
            for other in (dict(ref), {**ref, kk: v}, EventedDict(ref), {**ref, "zzz": 1}):
                eq(d == other, dict(ref) == dict(other), f"== {other!r}")
                eq(other == d, dict(ref) == dict(other), f"{other!r} ==")
                eq(d != other, dict(ref) != dict(other), f"!= {other!r}")
            eq(d == list(ref), False, "== list")
        # ------------------------------------------------ after every operation
        if errs:
            raise Violation(f"{op}: {errs[0]}")
        eq(ids(d), ids(ref), f"items after {op}")
        eq(len(d), len(ref), "len")
        if not evented:
            rep = dict(ref)
        eq(ids(rep), ids(ref), f"replica after {op} (events {log})")
        eq(pend, [], "events announced but not done")
        new = [x for x in ref if x not in before]
        gone = [x for x in before if x not in ref]
        diff = [x for x in ref if x in before and ref[x] is not before[x]]
        if evented:
            for pre, post, n in (("adding", "added", new), ("removing", "removed", gone), ("changing", "changed", diff)):
                if k == "update":  # the same key may come twice
                    check(log.count(pre) == log.count(post) >= len(n), "%s: %s events", op, pre)
                else:
                    eq((log.count(pre), log.count(post)), (len(n), len(n)), f"number of {pre}/{post} events of {op}")
            if not (new or gone or diff) and k != "update":
                eq(log, [], f"events of {op}, which changed nothing")
        if new or gone or diff:
            muts += 1
        if gone or diff:
            kinds.add(1)
        elif not new:
            quiet += 1
    ctx.nontrivial(muts >= 3 and kinds and quiet)


REGRESSIONS = [
    {"init": ["dict", [["a", 1], ["b", 2]], []], "types": "int", "tform": "single", "cls": "evented",
     "ops": [["popitem"], ["set", "a", "x"], ["set", "c", "x"], ["update", "boom", [["c", 1], ["K", 2]], []],
             ["setdefault", "zz", 1, False], ["setsame", "a"], ["del", "nope"]]},
]
