"""C32: listeners that raise or that modify the container leave it consistent."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C32"
RULE = (
    "A case is an EventedList (also with child events), SelectableEventedList (also converting its items), EventedDict, "
    "EventedSet, EventedOrderedSet or Selection, and a history of operations of one or many steps; during some of them "
    "a listener of the n-th event (before or after the step; of list, selection or active item) raises, or modifies the "
    "container itself. Oracle: a replica driven by the events a listener before that one saw equals the content after each "
    "operation, for sets also one that the last listener drives; the failure reaches the caller; undisturbed operations and nested ones give what the built-in gives; "
    "children emit once iff in the list; selection, active and current item stay in the list. Non-trivial: a listener "
    "raised or modified the container in an operation, and a later operation emitted."
)
ASSUMPTIONS = [
    "operations in listeners are made after single steps (the steps of slices, updates and moves are not interrupted by others)",
    "listeners of the private event _current do not raise",
]
QUICK, THOROUGH = 2500, 60000
QUICK_S = 20

KINDS = ["list", "clist", "clist", "slist", "slist", "cslist", "sconv", "dict", "set", "oset", "selection"]


class Boom(Exception):
    pass


def strategy(tier):
    i = st.integers(0, 11)
    k = st.integers(-4, 6)
    sl = st.tuples(k, k, st.sampled_from([1, 1, 2, -1])).map(list)
    vals = st.lists(i, max_size=4)
    lop = st.one_of(
        st.tuples(st.just("append"), i).map(list),
        st.tuples(st.just("insert"), k, i).map(list),
        st.tuples(st.just("set"), k, i).map(list),
        st.tuples(st.just("set"), k, i).map(list),
        st.tuples(st.just("del"), k).map(list),
        st.tuples(st.just("pop")).map(list),
        st.tuples(st.just("remove"), k).map(list),
        st.tuples(st.just("extend"), vals).map(list),
        st.tuples(st.just("setslice"), sl, vals).map(list),
        st.tuples(st.just("delslice"), sl).map(list),
        st.tuples(st.just("clear")).map(list),
        st.tuples(st.just("reverse")).map(list),
        st.tuples(st.just("move"), k, k).map(list),
        st.tuples(st.just("moves"), st.lists(k, max_size=3), k).map(list),
        st.tuples(st.just("sel"), st.sampled_from(["add", "add", "discard", "toggle", "only", "clear", "active", "assign",
                                                   "update", "next", "prev", "remove", "all"]), k, vals).map(list),
        st.tuples(st.just("sel"), st.sampled_from(["add", "discard", "only", "active"]), k, vals).map(list),
    )
    mop = st.one_of(
        st.tuples(st.just("set"), i, i).map(list),
        st.tuples(st.just("set"), i, i).map(list),
        st.tuples(st.just("del"), i).map(list),
        st.tuples(st.just("pop"), i).map(list),
        st.tuples(st.just("popitem")).map(list),
        st.tuples(st.just("update"), st.lists(st.tuples(i, i).map(list), max_size=4)).map(list),
        st.tuples(st.just("setdefault"), i, i).map(list),
        st.tuples(st.just("clear")).map(list),
    )
    sop = st.one_of(
        st.tuples(st.sampled_from(["add", "add", "discard", "remove"]), i).map(list),
        st.tuples(st.sampled_from(["update", "difference_update", "intersection_update", "symmetric_difference_update"]),
                  vals).map(list),
        st.tuples(st.just("clear")).map(list),
        st.tuples(st.just("pop")).map(list),
        st.tuples(st.sampled_from(["toggle", "only", "active"]), i).map(list),
    )

    def case(kind):
        op = mop if kind == "dict" else sop if kind in ("set", "oset", "selection") else lop
        trouble = st.one_of(
            st.none(),
            st.tuples(st.just("raise"), st.one_of(st.integers(0, 2), st.integers(0, 7))).map(list),
            st.tuples(st.just("raise"), st.one_of(st.integers(0, 2), st.integers(0, 7))).map(list),
            st.tuples(st.just("op"), st.integers(0, 1), op).map(list),
        )
        return st.fixed_dictionaries({
            "kind": st.just(kind),
            "init": st.lists(i, max_size=5),
            "act": st.booleans(),
            "ops": st.lists(st.tuples(op, trouble).map(list), min_size=2, max_size=12),
        })

    return st.sampled_from(KINDS).flatmap(case)


class Child:
    _cls = None

    @classmethod
    def make(cls, n):
        if cls._cls is None:
            from psygnal import Signal

            cls._cls = type("Child", (), {"sig": Signal(int), "__lt__": lambda self, other: self.n < other.n, "__repr__": lambda self: f"child{self.n}"})
        c = cls._cls()
        c.n = n
        return c


SINGLE = {"append", "insert", "set", "del", "pop", "remove", "add", "discard"}
POST = {"inserted", "removed", "changed", "added", "items_changed"}


def run_case(case, ctx):
    from psygnal import EmitLoopError
    from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, SelectableEventedList, Selection

    kind = case["kind"]
    ctx.label(kind)
    selectable = kind in ("slist", "cslist", "sconv")
    islist = kind in ("list", "clist") or selectable
    children = [Child.make(n) for n in range(12)] if kind in ("clist", "cslist") else None

    def val(n):
        return children[n] if children else f"v{n}" if kind == "sconv" else n

    def raw(n):
        return children[n] if children else n

    if kind == "list":
        x = EventedList()
    elif kind == "clist":
        x = EventedList(child_events=True)
    elif kind in ("slist", "cslist"):
        x = SelectableEventedList(child_events=kind == "cslist")
    elif kind == "sconv":
        class Conv(SelectableEventedList):
            def _pre_insert(self, value):
                return value if isinstance(value, str) else f"v{value}"
        x = Conv()
    elif kind == "dict":
        x = EventedDict()
    else:
        x = {"set": EventedSet, "oset": EventedOrderedSet, "selection": Selection}[kind]()
    if selectable:
        x._activate_on_insert = case["act"]
    for n in dict.fromkeys(case["init"]):
        if islist:
            x.append(raw(n))
        elif kind == "dict":
            x[n] = n
        else:
            x.add(n)
    sel = x.selection if selectable else x if kind == "selection" else None

    # ---- a replica, driven by the events
    rep = dict(x) if kind == "dict" else list(x)
    srep = list(sel) if sel is not None else None
    act = [sel.active if sel is not None else None]
    bad = []
    count = [0]  # events in this operation
    total = [0]
    armed = [None]
    fired = [False]

    def rec(name):
        def f(*a):
            total[0] += 1
            try:
                update(name, a)
            except Exception as e:
                bad.append(f"event {name}{a} does not fit the content {rep}: {e!r}")
        return f

    def update(name, a):
        if name == "inserted":
            rep.insert(*a)
        elif name == "removed":
            if kind == "dict":
                if rep.pop(a[0]) is not a[1]:
                    raise ValueError(a)
            elif rep.pop(a[0]) is not a[1]:
                raise ValueError(a)
        elif name == "changed":
            if isinstance(a[0], slice):
                if list(a[1]) != rep[a[0]]:
                    raise ValueError(a)
                rep[a[0]] = list(a[2])
            else:
                if rep[a[0]] is not a[1]:
                    raise ValueError(a)
                rep[a[0]] = a[2]
        elif name == "added":
            if a[0] in rep:
                raise ValueError(a)
            rep[a[0]] = a[1]
        elif name == "moved":
            rep.insert(a[1], rep.pop(a[0]))
        elif name == "reordered":
            if sorted(map(id, rep)) != sorted(map(id, x)):
                raise ValueError(list(x))
            rep[:] = list(x)
        elif name == "items_changed":
            r = srep if selectable else rep
            for v in a[1]:
                r.remove(v)
            for v in a[0]:
                if v in r:
                    raise ValueError(v)
                r.append(v)
        elif name == "active":
            act[0] = a[0]

    def trouble(name):
        def f(*a):
            t = armed[0]
            if t is None:
                return
            count[0] += 1
            if count[0] != t[1] + 1:
                return
            if t[0] == "raise":
                armed[0] = None
                fired[0] = True
                ctx.label(f"raise:{name}")
                raise Boom
            if name in POST and not (selectable and name == "items_changed"):  # (emitted before the item is removed)
                armed[0] = None
                fired[0] = True
                ctx.label(f"nested:{name}")
                apply(x, t[2])
                fired.append(1)
            else:
                t[1] += 1  # the next event
        return f

    late = set(rep) if kind in ("set", "oset", "selection") else None  # by the events, as the last listener sees them

    def last(added, removed):
        if set(removed) - late or set(added) & late:
            bad.append(f"items_changed({added}, {removed}) reached the last listener with {late} according to the events before")
        late.difference_update(removed)
        late.update(added)

    keep = []
    child_calls = []
    groups = [x.events] + ([sel.events] if selectable else [])
    for g in groups:
        for name in g:
            if name == "_current":
                continue
            if name == "child_event":
                g[name].connect(lambda idx, obj, em, args: child_calls.append((idx, obj, args)))
                continue
            r, t = rec(name), trouble(name)
            keep += [r, t]
            if g[name].signature.parameters:
                g[name].connect(r, priority=10, check_nargs=False)
                g[name].connect(t, priority=-10, check_nargs=False)
            else:
                g[name].connect(r, priority=10)
                g[name].connect(t, priority=-10)
            if name == "items_changed" and late is not None:
                g[name].connect(last, priority=-20)

    def fit(k, n):
        """A valid index, or None."""
        return k % n if n else None

    def apply(o, op, model=False):
        """Do it on the container or on a built-in one (model)."""
        w = op[0]
        v = val if model else raw
        if kind == "dict":
            if w == "set":
                o[op[1]] = op[2]
            elif w == "del":
                if op[1] in o:
                    del o[op[1]]
            elif w == "pop":
                o.pop(op[1], None)
            elif w == "popitem":
                if o:
                    o.popitem()
            elif w == "update":
                o.update([tuple(p) for p in op[1]])
            elif w == "setdefault":
                o.setdefault(op[1], op[2])
            elif w == "clear":
                o.clear()
            return
        if not islist:
            if w in ("add", "discard", "update", "difference_update", "intersection_update", "symmetric_difference_update"):
                getattr(o, w)(op[1])
            elif w == "remove":
                if op[1] in o:
                    o.remove(op[1])
            elif w == "clear":
                o.clear()
            elif w == "pop" and not model and len(o):
                o.pop()
            elif w in ("toggle", "only", "active") and kind == "selection" and not model:
                if w == "toggle":
                    o.toggle(op[1])
                elif w == "only":
                    o.select_only(op[1])
                else:
                    o.active = op[1]
            return
        n = len(o)
        if w == "append":
            if not dup(o, [op[1]]):
                o.append(v(op[1]))
        elif w == "insert":
            if not dup(o, [op[2]]):
                o.insert(op[1], v(op[2]))
        elif w == "set":
            if n and not dup(o, [op[2]]):
                o[fit(op[1], n)] = v(op[2])
        elif w == "del":
            if n:
                del o[fit(op[1], n)]
        elif w == "pop":
            if n:
                o.pop()
        elif w == "remove":
            if n:
                o.remove(o[fit(op[1], n)])
        elif w == "extend":
            if not dup(o, op[1]):
                o.extend([v(i) for i in op[1]])
        elif w == "setslice":
            a, b, c = op[1]
            new = dict.fromkeys(op[2])
            if c == 1 and not dup(o, new):
                o[a:b] = [v(i) for i in new]
        elif w == "delslice":
            a, b, c = op[1]
            del o[a:b:c]
        elif w == "clear":
            o.clear()
        elif w == "reverse":
            o.reverse()
        elif w == "move" and not model:
            if n:
                o.move(fit(op[1], n), op[2] % (n + 1))
        elif w == "moves" and not model:
            if n:
                o.move_multiple(list(dict.fromkeys(fit(k, n) for k in op[1])), op[2] % (n + 1))
        elif w == "sel" and selectable and not model:
            what, k, vs = op[1:]
            s = o.selection
            some = list(dict.fromkeys(o[fit(i, n)] for i in vs)) if n else []
            item = o[fit(k, n)] if n else None
            if what == "clear":
                s.clear()
            elif what == "assign":
                o.selection = some
            elif what == "update":
                s.update(some)
            elif what == "next":
                o.select_next()
            elif what == "prev":
                o.select_previous()
            elif what == "remove":
                if len(s):
                    o.remove_selected()
            elif what == "all":
                o.select_all()
            elif item is None:
                pass
            elif what == "add":
                s.add(item)
            elif what == "discard":
                s.discard(item)
            elif what == "toggle":
                s.toggle(item)
            elif what == "only":
                s.select_only(item)
            elif what == "active":
                s.active = item

    def dup(o, new):
        """Keep the items distinct (see C16, C19 for others)."""
        new = [val(i) for i in new]
        return len(set(new)) < len(new) or any(i in o for i in new)

    def content():
        return dict(x) if kind == "dict" else list(x)

    def verify(what):
        if bad:
            raise Violation(f"{what}: {bad[0]}")
        c = content()
        if kind in ("set", "oset", "selection"):
            eq(sorted(rep), sorted(c), f"{what}: content according to the events")
            if fired[0] and t and t[0] == "raise":
                late.clear()  # it has not been called
                late.update(c)
            eq(sorted(late), sorted(c), f"{what}: content according to the events the last listener saw")
            check(len(set(c)) == len(c), "%s: repeated members %s", what, c)
        elif kind == "dict":
            eq(list(rep.items()) if what == "no" else rep, c, f"{what}: content according to the events")
        else:
            check(len(rep) == len(c) and all(a is b for a, b in zip(rep, c)),
                  "%s: the content is %s, according to the events %s", what, c, rep)
        if sel is not None:
            s = list(sel)
            if selectable:
                eq(sorted(srep), sorted(s), f"{what}: selection according to the events")
                check(all(i in c for i in s), "%s: selected %s are not in the list %s", what, s, c)
                check(sel._current is None or sel._current in c, "%s: current %s not in the list %s", what, sel._current, c)
            one = s[0] if len(s) == 1 else None
            eq(sel.active, one, f"{what}: active item of the selection {s}")
            eq(act[0], sel.active, f"{what}: active item according to the events")
        if children:
            for ch in children:
                child_calls.clear()
                ch.sig.emit(5)
                want = [(c.index(ch), ch, (5,))] if ch in c else []
                eq(child_calls, want, f"{what}: child events of {ch} in {c}")

    t = None
    verify("after the construction")
    disturbed = later = False
    for n, (op, t) in enumerate(case["ops"]):
        what = f"op {n} {op}" + (f" with {t}" if t else "")
        if t and t[0] == "op" and op[0] not in SINGLE:
            t = None
        t = list(t) if t else None
        if t and t[0] == "op" and (t[2][0] not in SINGLE or t[2][0] == "pop" and not islist):
            t = None
        count[0] = 0
        armed[0] = t
        del fired[1:]
        fired[0] = False
        before = content()
        was = total[0]
        want = dict(before) if kind == "dict" else before if islist else set(before)
        want = want.copy()
        try:
            apply(x, op)
            err = None
        except Exception as e:
            err = e
        armed[0] = None
        if fired[0] and t[0] == "raise":
            if not isinstance(err, EmitLoopError):
                raise Violation(f"{what}: the failure of the listener came out as {err!r}")
            if not isinstance(_root(err), Boom):
                raise Violation(f"{what}: the failure of the listener came out as an error caused by {_root(err)!r}")
            disturbed = True
        else:
            if err is not None:
                raise Violation(f"{what}: {type(err).__name__}: {str(err)[:300]}")
            if fired[0]:
                disturbed = True
            modeled = op[0] in (MODEL_LIST if islist else MODEL_DICT if kind == "dict" else MODEL_SET)
            if modeled and (not fired[0] or len(fired) > 1):
                apply(want, op, model=True)
                if fired[0]:
                    apply(want, t[2], model=True)
                got = x if islist else dict(x) if kind == "dict" else set(x)
                eq(list(got) if islist else got, want, f"{what}: content")
        if disturbed and total[0] > was and not fired[0]:
            later = True
        verify(what)
    ctx.nontrivial(disturbed and later)


MODEL_LIST = {"append", "insert", "set", "del", "pop", "remove", "extend", "setslice", "delslice", "clear", "reverse"}
MODEL_DICT = {"set", "del", "pop", "popitem", "update", "setdefault", "clear"}
MODEL_SET = {"add", "discard", "remove", "update", "difference_update", "intersection_update", "symmetric_difference_update", "clear"}


def _root(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e


REGRESSIONS = []
