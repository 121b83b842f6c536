"""C16: EventedList is a list whose events replay its history."""
from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C16"
RULE = (
    "A case is an EventedList (initial items, constructor form, child_events, hashable, _pre_insert hook) and a history "
    "of list operations with any index or slice, move/move_multiple, and emissions of evented children, run also on a "
    "built-in list. Items repeat, may be equal but not identical, lists, evented objects or nested EventedLists. Oracle: "
    "the built-in list; a replica driven only by the events, compared at every event; identity-based positions of "
    "children. Non-trivial: at least three mutations happened and one operation failed or used a slice or moved items."
)
ASSUMPTIONS = ["'+' and '+=' are only used with lists (EventedList accepts any iterable there by design)"]
QUICK, THOROUGH = 2200, 60000
QUICK_S = 20

VALS = [0, 1, 2, 3, 4, 5, "f1", "t", None, "e0", "e0", "e1", "e2", "q0", "q1", "l0", "n0", "n0", "n1", "g0"]
BADIDX = ["x", 1.5, None]


def strategy(tier):
    v = st.sampled_from(VALS)
    vs = st.lists(v, max_size=5)
    i = st.one_of(st.integers(-7, 7), st.integers(-7, 7), st.sampled_from([-100, 100, "np1", "np-2", "idx0", True]))
    ib = st.one_of(i, i, i, i, i, st.sampled_from(BADIDX))
    sl = st.tuples(st.one_of(st.none(), st.integers(-7, 7)), st.one_of(st.none(), st.integers(-7, 7)),
                   st.sampled_from([None, None, 1, 2, 3, -1, -2, 0])).map(list)
    src = st.sampled_from(["list", "list", "tuple", "iter", "gen", "evented", "boom", "self"])
    child = st.sampled_from(["e0", "e1", "e2", "q0", "q1", "n0", "n1", "g0"])
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    op = st.one_of(
        T("append", v), T("append", v), T("insert", ib, v), T("insert", i, v),
        T("extend", src, vs), T("iadd", src, vs),
        T("set", ib, v), T("set", i, v), T("setsame", i), T("setsl", sl, src, vs), T("setsl", sl, src, vs),
        T("del", ib), T("del", i), T("delsl", sl), T("pop", ib), T("pop0",), T("remove", v), T("clear",),
        T("reverse", st.booleans()),
        T("move", i, i), T("move", i, i), T("movem", st.lists(st.one_of(i, sl), max_size=5), i),
        T("movem", st.lists(st.integers(0, 5), max_size=5), st.integers(-6, 6)),
        T("read", ib, sl, v), T("index", v, st.one_of(st.none(), st.integers(-7, 7)), st.one_of(st.none(), st.integers(-7, 7))),
        T("add", vs), T("copy", v), T("emit", child, st.integers(0, 3)), T("emit", child, st.integers(0, 2)),
    )
    return st.fixed_dictionaries({
        "init": vs, "form": st.sampled_from(["list", "tuple", "gen", "evented", "kw"]),
        "child": st.sampled_from([True, True, False]), "hashable": st.booleans(),
        "pre": st.sampled_from([None, None, None, "refuse", "map"]),
        "ops": st.lists(op, min_size=3, max_size=20 if tier == "quick" else 60),
    })


class _Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def _pool():
    from psygnal import Signal, SignalGroup
    from psygnal.containers import EventedList

    class Grp(SignalGroup):
        a = Signal(int)
        b = Signal(int, str)

    class E:
        sig = Signal(int)

        def __init__(self):
            self.grp = Grp(self)

    class Q(E):
        def __eq__(self, o):
            return isinstance(o, Q)

        __hash__ = None

    class G:  # a group that knows nothing of its owner
        def __init__(self):
            self.events = Grp()

    out = {"f1": 1.0, "t": True, "l0": [1, 2], "n0": EventedList([1]), "n1": EventedList()}
    out.update({f"e{k}": E() for k in range(3)})
    out.update({"q0": Q(), "q1": Q(), "g0": G()})
    return out


def _ids(x):
    return [id(v) for v in x]


def run_case(case, ctx):
    import numpy as np

    from psygnal import EmissionInfo
    from psygnal.containers import EventedList

    pool = _pool()
    val = lambda v: pool[v] if isinstance(v, str) and v in pool else v
    emb = [[7, 8]]  # what "map" turns 4 into

    def conv(v):
        if case["pre"] == "refuse" and v is 5:  # noqa: F632 (small int)
            raise KeyError("refused")
        if case["pre"] == "map" and v is 4:  # noqa: F632
            return emb[0]
        return v

    L = EventedList if not case["pre"] else type("L", (EventedList,), {"_pre_insert": lambda self, v: conv(v)})
    init = [val(v) for v in case["init"]]
    if case["pre"] == "refuse":
        init = [v for v in init if v is not 5]  # noqa: F632
    form = {"list": lambda: init, "tuple": lambda: tuple(init), "gen": lambda: (v for v in init),
            "evented": lambda: EventedList(init), "kw": lambda: init}[case["form"]]()
    kw = {"child_events": case["child"], "hashable": case["hashable"]}
    lst = L(data=form, **kw) if case["form"] == "kw" else L(form, **kw)
    ref = [conv(v) for v in init]

    def same(where):
        eq(_ids(lst), _ids(ref), f"items after {where} ({list(lst)!r} != {ref!r})")
        eq(len(lst), len(ref), "len")

    same("construction")

    # -------------------------------------------------------------- the replica
    rep = list(ref)
    log = []
    errs = []
    kids = []
    pend = []

    def guard(fn):
        def f(*a):
            try:
                fn(*a)
            except Violation as e:
                errs.append(str(e))
            except Exception as e:
                errs.append(f"replaying {fn.__name__}{a!r}: {e!r}")
        return f

    def now(what):
        eq(_ids(list(lst)), _ids(rep), f"contents when {what} was emitted")

    def inserting(i):
        log.append("inserting")
        now("inserting")
        pend.append(("i", i))

    def inserted(i, v):
        log.append("inserted")
        eq(pend.pop() if pend else None, ("i", i), "inserted without its inserting")
        rep.insert(i, v)
        now("inserted")

    def removing(i):
        log.append("removing")
        now("removing")
        rep[i]
        pend.append(("r", i))

    def removed(i, v):
        log.append("removed")
        eq(pend.pop() if pend else None, ("r", i), "removed without its removing")
        check(rep.pop(i) is v, "removed(%s) with another item", i)
        now("removed")

    def moving(s, d):
        log.append("moving")
        now("moving")
        pend.append(("m", s, d))

    def moved(s, d, v):
        log.append("moved")
        p = pend.pop() if pend else (None, None, None)
        check(p[0] == "m" and p[1] == s and d == (p[2] - 1 if p[2] > s else p[2]), "moved%s after moving%s", (s, d), p)
        it = rep.pop(s)
        check(it is v, "moved(%s) with another item", s)
        rep.insert(d, it)
        now("moved")

    def changed(k, old, new):
        log.append("changed")
        cur = rep[k]
        if isinstance(k, slice):
            eq(_ids(old), _ids(cur), "old items of changed")
        else:
            check(old is cur, "old item of changed(%s): %r", k, old)
        rep[k] = new
        now("changed")

    def reordered():
        log.append("reordered")
        eq(Counter(_ids(lst)), Counter(_ids(rep)), "items when reordered")
        rep[:] = list(lst)

    for fn in (inserting, inserted, removing, removed, moving, moved, changed, reordered):
        getattr(lst.events, fn.__name__).connect(guard(fn))
    lst.events.child_event.connect(lambda i, o, em, a: kids.append((i, o, em, a)))

    # ------------------------------------------------------------------ helpers
    def index(i):
        if isinstance(i, str) and i.startswith("np"):
            return np.int64(int(i[2:]))
        return _Idx(0) if i == "idx0" else i

    def source(kind, items, tgt):
        if kind == "self":
            return tgt
        if kind == "evented" and tgt is lst:
            return EventedList(items)
        if kind == "tuple":
            return tuple(items)
        if kind == "iter":
            return iter(items)
        if kind == "gen":
            return (x for x in items)
        if kind == "boom":
            def g():
                yield from items[:2]
                raise ZeroDivisionError
            return g()
        return list(items)

    def both(what, f, g):
        """f on the evented list, g on the reference: same result or exception type."""
        try:
            want = ("ok", g())
        except Exception as e:
            want = ("raise", type(e))
        try:
            got = ("ok", f())
        except Exception as e:
            got = ("raise", type(e))
        if want[0] == "raise" or got[0] == "raise":
            # several reasons to refuse: which one comes first is not specified
            eq(got[: 1 if case["pre"] == "refuse" else 2], want[: 1 if case["pre"] == "refuse" else 2], what)
            ctx.label("raises")
        elif want[1] is not got[1]:
            gi, wi = got[1], want[1]
            if isinstance(wi, list) and (isinstance(gi, EventedList)):
                eq(_ids(gi), _ids(wi), what)
            else:
                check(type(gi) is type(wi) and gi == wi, "%s: got %r, expected %r", what, gi, wi)
        return want[0] == "ok"

    def pre_many(items):  # the items list.extend() would append before a refusal
        for x in items:
            yield conv(x)

    mutations = 0
    special = 0
    children = {k: o for k, o in pool.items() if k[0] in "eqng" and k[0] != "f"}

    for op in case["ops"]:
        k = op[0]
        before = list(ref)
        del log[:], kids[:], pend[:]
        ctx.label(k)
        ok, shape = True, "none"
        if k == "append":
            v = val(op[1])
            ok = both(k, lambda: lst.append(v), lambda: ref.append(conv(v)))
            shape = "ins"
        elif k == "insert":
            i, v = index(op[1]), val(op[2])
            ok = both(k, lambda: lst.insert(i, v), lambda: ref.insert(i, conv(v)))
            shape = "ins"
        elif k in ("extend", "iadd"):
            items = [val(x) for x in op[2]]

            def ext(tgt, f):
                s = source(op[1], items, tgt)
                if k == "extend":
                    tgt.extend(f(s))
                else:
                    t0 = tgt
                    tgt += f(s)
                    check(tgt is t0, "+= returned another object")
            ok = both(k, lambda: ext(lst, lambda s: s), lambda: ext(ref, lambda s: pre_many(list(s) if s is ref else s)))
            shape = "ins"
        elif k == "set":
            i, v = index(op[1]), val(op[2])

            def f():
                lst[i] = v

            def g():
                ref[i] = v if ref[i] is v else conv(v)
            ok = both(k, f, g)
            shape = "set"
        elif k == "setsame":
            i = index(op[1])

            def f():
                lst[i] = lst[i]
            ok = both(k, f, lambda: (ref[i], None)[1])
            shape = "none"
        elif k == "setsl":
            s, items = slice(*op[1]), [val(x) for x in op[3]]
            special += 1

            def f():
                lst[s] = source(op[2], items, lst)

            def g():
                ref[s]
                ref[s] = list(pre_many(source(op[2], items, ref)))
            if op[2] == "list" and len(items) == 1 and items[0] == 3:
                ok = both(k, lambda: lst.__setitem__(s, 3), lambda: ref.__setitem__(s, 3))
            else:
                ok = both(k, f, g)
            shape = "setsl"
        elif k == "del":
            i = index(op[1])
            ok = both(k, lambda: lst.__delitem__(i), lambda: ref.__delitem__(i))
            shape = "del"
        elif k == "delsl":
            s = slice(*op[1])
            special += 1
            ok = both(k, lambda: lst.__delitem__(s), lambda: ref.__delitem__(s))
            shape = "del"
        elif k == "pop":
            i = index(op[1])
            ok = both(k, lambda: lst.pop(i), lambda: ref.pop(i))
            shape = "del"
        elif k == "pop0":
            ok = both(k, lambda: lst.pop(), lambda: ref.pop())
            shape = "del"
        elif k == "remove":
            v = val(op[1])
            ok = both(k, lambda: lst.remove(v), lambda: ref.remove(v))
            shape = "del"
        elif k == "clear":
            ok = both(k, lambda: lst.clear(), lambda: ref.clear())
            shape = "del"
        elif k == "reverse":
            if case["pre"] and op[1]:
                continue  # setting items again converts them again
            both(k, lambda: lst.reverse(emit_individual_events=op[1]) if op[1] else lst.reverse(), lambda: ref.reverse())
            shape = "rev1" if op[1] else "rev"
        elif k == "move":
            s, d = index(op[1]), index(op[2])
            if not isinstance(op[2], int):
                d = 0
            n = len(ref)

            def g():
                ss, dd = range(n)[s], d + n + 1 if d < 0 else d
                dd = max(0, min(dd, n))
                if dd in (ss, ss + 1):
                    return False
                it = ref[ss]
                ref.insert(dd, it)
                del ref[ss if ss < dd else ss + 1]
                return True
            ok = both(k, lambda: lst.move(s, d), g)
            shape = "move"
            special += 1
        elif k == "movem":
            special += 1
            n = len(ref)
            d = op[2] if isinstance(op[2], int) else 0
            srcs = [slice(*x) if isinstance(x, list) else (x if isinstance(x, int) else 0) for x in op[1]]

            def g():
                dd = max(0, min(d + n + 1 if d < 0 else d, n))
                idx = []
                for x in srcs:
                    for y in (range(n)[x] if isinstance(x, slice) else [range(n)[x]]):
                        if y not in idx:
                            idx.append(y)
                ref[:] = ([ref[j] for j in range(dd) if j not in idx] + [ref[j] for j in idx]
                          + [ref[j] for j in range(dd, n) if j not in idx])
            use = {0: srcs, 1: tuple(srcs), 2: iter(srcs)}[len(srcs) % 3]
            ok = both(k, lambda: (lst.move_multiple(use, d), None)[1], g)
            shape = "movem"
        elif k == "read":
            i, s, v = index(op[1]), slice(*op[2]), val(op[3])
            both("getitem", lambda: lst[i], lambda: ref[i])
            try:
                part = lst[s]
            except ValueError:
                eq(op[2][2], 0, "step of a refused slice")
            else:
                check(type(part) is type(lst) and part is not lst, "type of a slice: %s", type(part))
                if case["pre"] is None:
                    eq(_ids(part), _ids(ref[s]), "slice")
            both("contains", lambda: v in lst, lambda: v in ref)
            both("count", lambda: lst.count(v), lambda: ref.count(v))
            eq(_ids(reversed(lst)), _ids(reversed(ref)), "reversed")
            check(lst == ref and ref == lst and lst == EventedList(ref), "equality")
            check(not (lst == [*ref, 0]) and lst != [*ref, 0] and lst != tuple(ref), "inequality")
            if case["hashable"]:
                check(hash(lst) == hash(lst) and {lst: 1}[lst] == 1, "hash")
            else:
                both("hash", lambda: hash(lst), lambda: hash(ref))
        elif k == "index":
            v = val(op[1])
            args = [v, *[x for x in (op[2] if op[2] is not None else 0, op[3]) if x is not None]]
            both(k, lambda: lst.index(*args), lambda: ref.index(*args))
        elif k == "add":
            items = [val(x) for x in op[1]]
            if case["pre"] is None:
                new = lst + items
                check(type(new) is type(lst), "type of a sum")
                eq(_ids(new), _ids(ref + items), "sum")
                eq(_ids(lst + EventedList(items)), _ids(ref + items), "sum of evented lists")
                new.append(1)
            both("tuple + list", lambda: tuple(items) + lst, lambda: tuple(items) + ref)
            both("dict + list", lambda: {} + lst, lambda: {} + ref)
            r = items + lst
            check(type(r) is list, "type of list + EventedList")
            eq(_ids(r), _ids(items + ref), "reflected sum")
        elif k == "copy":
            import copy

            for c in (lst.copy(), copy.copy(lst)):
                check(type(c) is type(lst) and c is not lst, "type of a copy")
                if case["pre"] is None:
                    eq(_ids(c), _ids(ref), "copy")
                if val(op[1]) is not 5:  # noqa: F632
                    c.append(val(op[1]))
                c.clear()
        elif k == "emit":
            o, kind = pool[op[1]], op[2]
            pos = [j for j, x in enumerate(ref) if x is o]
            if op[1][0] == "n":
                sigs = [o.events.inserting, o.events.inserted] if kind else [o.events.reordered]
                args = [(0,), (0, 3)] if kind else [()]
                o.insert(0, 3) if kind else o.reverse()
            else:
                grp = o.events if op[1] == "g0" else o.grp
                sigs, args = {0: lambda: ([o.sig], [(1,)]) if op[1] != "g0" else ([grp.a], [(1,)]),
                              1: lambda: ([grp.a], [(2,)]), 2: lambda: ([grp.b], [(3, "x")]),
                              3: lambda: ([grp.a if op[1] == "g0" else o.sig], [(EmissionInfo(grp.a, (9,)),)])}[kind]()
                sigs[0].emit(*args[0])
            for sg, ar in zip(sigs, args):
                got = [x for x in kids if x[2] is sg]
                if not pos or not case["child"]:
                    eq(len(got), 0, f"child_event for an object not in the list or without child_events ({op[1]})")
                    continue
                ctx.label("relayed")
                check(1 <= len(got) <= len(pos), "%s child events for %s in the list %s times", len(got), op[1], len(pos))
                for i, ob, _, a in got:
                    check(ob is o, "child_event with another object: %r", ob)
                    check(i in pos, "child_event with index %s of an object at %s", i, pos)
                    eq(a, ar, "args of child_event")
            eq([x for x in kids if not any(x[2] is s for s in sigs)], [], "child_event of other signals")
            kids.clear()
        # ------------------------------------------------ after every operation
        if errs:
            raise Violation(f"{op}: {errs[0]}")
        same(k)
        eq(_ids(rep), _ids(ref), f"replica after {op} (events {log})")
        eq(pend, [], "events announced but not done")
        eq(kids, [], "child_event without a child's emission")
        n0, n1 = len(before), len(ref)
        unchanged = _ids(before) == _ids(ref)
        if shape == "ins":
            want = ["inserting", "inserted"] * (n1 - n0)
        elif shape == "del":
            want = ["removing", "removed"] * (n0 - n1)
        elif shape == "set":
            want = ["changed"] if not unchanged else (log if ok and case["pre"] and log == ["changed"] else [])
        elif shape == "setsl":
            want = ["changed"] if not unchanged else (log if ok and log == ["changed"] else [])
        elif shape == "rev":
            want = ["reordered"]
        elif shape == "rev1":
            want = ["changed"] * (len(log) - 1) + ["reordered"]
        elif shape == "move":
            want = ["moving", "moved", "reordered"] if ok and log else []
            check(unchanged or log, "move without events")
        elif shape == "movem":
            want = ["moving", "moved"] * ((len(log) - 1) // 2) + ["reordered"] if ok else []
        else:
            want = []
        eq(log, want, f"events of {op}")
        if not unchanged:
            mutations += 1
        if not ok:
            special += 1
        for name, o in children.items():
            if not any(x is o for x in ref):
                sigs = [o.events.inserted] if name[0] == "n" else [o.events.a] if name == "g0" else [o.sig, o.grp.a, o.grp.b]
                for sg in sigs:
                    eq(len(sg), 0, f"connections left on {name}, which is not in the list")
    ctx.nontrivial(mutations >= 3 and special >= 1)


REGRESSIONS = [
    {"init": ["l0", "e0", 1], "form": "list", "child": True, "hashable": True, "pre": None,
     "ops": [["read", 0, [None, None, None], 1], ["set", 1, "e1"], ["emit", "e1", 0], ["emit", "e0", 0], ["pop", 0],
             ["del", -4], ["del", 7], ["insert", "x", 1], ["move", -1, 0], ["movem", [0, 1], -2]]},
    {"init": ["q0", "q1", "n0", None], "form": "gen", "child": True, "hashable": False, "pre": "map",
     "ops": [["emit", "q1", 2], ["emit", "n0", 1], ["append", 4], ["setsl", [0, 2, None], "list", ["q1"]],
             ["emit", "q0", 1], ["emit", "q1", 1], ["movem", [0, 1, 2], 1]]},
]
