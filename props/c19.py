"""C19: the selection stays a subset of its list with a consistent active item."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C19"
RULE = (
    "A case is a SelectableEventedList of distinct or repeated (also falsy) items and a history of list mutations (insert, set, "
    "slices, delete, move, reverse), selection mutations, active/current assignments and selection commands, also with "
    "refused items. Oracle: a model of list, selection and the documented commands; invariants on active and current "
    "after each operation; a replica of the selection driven by items_changed and the history of active events. "
    "Non-trivial: the selection had 0, 1 and several members in turn and an item of the selection left the list."
)
ASSUMPTIONS = [
    "items are hashable and not None (None means no active item)",
    "which item becomes current when several are selected at once, what remove_selected() selects next, and how many of "
    "several equal items it removes, is not specified",
]
QUICK, THOROUGH = 3000, 80000
QUICK_S = 20
N = 12  # pool size


def strategy(tier):
    i = st.integers(-8, 8)
    it = st.integers(0, N - 1)
    its = st.lists(it, max_size=4)
    sl = st.tuples(st.one_of(st.none(), i), st.one_of(st.none(), i), st.sampled_from([None, None, 1, 2, -1])).map(list)
    step = st.sampled_from([1, 1, 1, -1, -1, 2, -2, 5, -7, 0])
    b = st.booleans()
    p = st.integers(0, 7)  # position of an item of the list
    ps = st.lists(p, max_size=5)
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    sel_ops = [
        T("add", p), T("add", p), T("discard", p), T("toggle", p), T("toggle", p), T("only", p), T("active", p), T("active0",),
        T("sclear", b), T("supdate", ps), T("supdate", ps), T("sdiff", ps), T("sinter", ps), T("ssym", ps),
        T("siop", st.sampled_from("|&-^"), ps), T("selection", st.sampled_from(["list", "iter", "set", "self"]), ps),
        T("current", p), T("bad", st.sampled_from(["add", "only", "active", "toggle", "update", "selection"]), it, ps),
    ]
    cmd = [T("next", step, b, b), T("next", step, b, b), T("prev", b, b), T("all",), T("none",), T("rmsel",)]
    lst = [
        T("append", it), T("insert", i, it), T("extend", its), T("set", i, it), T("set", i, it), T("setsl", sl, its), T("del", i), T("del", i),
        T("delsl", sl), T("pop", i), T("rem", p), T("lclear",), T("move", i, i), T("reverse", b), T("setself", i),
    ]
    op = st.one_of(*sel_ops, *cmd, *lst)
    return st.fixed_dictionaries({
        "init": st.lists(it, max_size=7, unique=True),
        "dups": st.sampled_from([False, False, False, False, True, "equal"]),
        "child": st.booleans(),
        "plain": st.booleans(),
        "ops": st.lists(op, min_size=4, max_size=22 if tier == "quick" else 60),
    })


def run_case(case, ctx):
    import operator

    from psygnal.containers import SelectableEventedList

    pool = [0, 1, 2, "", "a", (), (0,), frozenset(), 7.5, type("O", (), {})(), b"", 99]
    dups = case.get("dups", False)
    ref = [pool[k] for k in case["init"]]
    if dups:  # few different items
        pool = [0, False, 1, 0.0] if dups == "equal" else pool[:4]
        ref = [pool[k % 4] for k in case["init"]]
        ctx.label("repeated items")
    lst = SelectableEventedList(ref, child_events=case["child"])
    sel = lst.selection
    want = set(ref[-1:])
    eq(list(sel), ref[-1:], "selection after construction")

    replica = set(sel)
    ahist, chist, errs = [sel.active], [sel._current], []

    def guarded(fn):
        def f(*a):
            try:
                fn(*a)
            except Violation as e:
                errs.append(str(e))
        return f

    def on_items(added, removed):
        a, r = set(added), set(removed)
        check(len(a) == len(added) and len(r) == len(removed) and not a & r, "items_changed%r", (added, removed))
        check(a or r, "items_changed without items")
        check(not a & replica, "items_changed added %r, selected before", added)
        check(r <= replica, "items_changed removed %r, not selected before", removed)
        replica.update(a)
        replica.difference_update(r)
        eq(set(sel), replica, "selection when items_changed was emitted")

    def on_active(v):
        check(v != ahist[-1], "active emitted %r again", v)
        eq(v, sel.active, "active when its event was emitted")
        ahist.append(v)

    def on_current(v):
        check(v != chist[-1], "_current emitted %r again", v)
        chist.append(v)

    sel.events.items_changed.connect(guarded(on_items))
    sel.events.active.connect(guarded(on_active))
    sel.events._current.connect(guarded(on_current))

    evs = []
    lst.events.changed.connect(lambda *a: evs.append(a))

    def at(p):
        return ref[p % len(ref)] if ref else None

    def raises(exc, f, what):
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{what}: raised {e!r}, expected {exc.__name__}") from e
        raise Violation(f"{what}: raised nothing, expected {exc.__name__}")

    sizes, left = set(), False
    user_current = False
    plain = case.get("plain", True)
    IOPS = {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor}

    for op in case["ops"]:
        k = op[0]
        ctx.label(k)
        cur0, act0 = sel._current, sel.active
        n_active = len(ahist)
        before_s = set(want)
        order = list(sel)
        atomic = True
        cur_want = "any"
        if k in ("add", "discard", "toggle", "only", "active", "current", "rem"):
            if not ref:
                continue
            x = at(op[1])
            if k == "add":
                sel.add(x)
                want.add(x)
            elif k == "discard":
                sel.discard(x)
                want.discard(x)
            elif k == "toggle":
                sel.toggle(x)
                want ^= {x}
            elif k == "only":
                sel.select_only(x)
                want = {x}
            elif k == "active":
                sel.active = x
                want = {x}
                cur_want = x if act0 != x else "any"
            elif k == "current":
                sel._current = x
                cur_want = x
                user_current = True
            elif k == "rem":
                lst.remove(x)
                ref.remove(x)
        elif k == "active0":
            sel.active = None
            if act0 is not None:
                want = set()
                cur_want = None
        elif k == "sclear":
            sel.clear(keep_current=op[1]) if op[1] else sel.clear()
            cur_want = cur0 if op[1] else None
            want = set()
        elif k in ("supdate", "sdiff", "sinter", "ssym", "siop"):
            xs = [at(p) for p in op[-1]] if ref else []
            if k == "siop":
                same = sel
                same = IOPS[op[1]](same, set(xs))
                check(same is sel, "in place operator returned another object")
                want = IOPS[op[1]](set(want), set(xs))
            elif k == "supdate":
                sel.update(xs)
                want |= set(xs)
            elif k == "sdiff":
                sel.difference_update(xs)
                want -= set(xs)
            elif k == "sinter":
                sel.intersection_update(xs)
                want &= set(xs)
            else:
                sel.symmetric_difference_update(xs)
                want ^= set(xs)
        elif k == "selection":
            xs = [at(p) for p in op[2]] if ref else []
            if op[1] == "self":
                lst.selection = lst.selection
            else:
                lst.selection = {"list": list, "iter": iter, "set": set}[op[1]](xs)
                want = set(xs)
                if op[1] != "set":
                    eq(list(sel), [*(x for x in order if x in want), *(x for x in dict.fromkeys(xs) if x not in before_s)],
                       f"order of the selection after {op}, was {order}")
            check(lst.selection is sel, "assigning the selection replaced the selection model")
        elif k == "bad":
            x = pool[op[2] % len(pool)]
            if x in ref:
                continue
            if op[1] in ("update", "selection"):
                xs = [*([at(p) for p in op[3]] if ref else []), x]
                raises(ValueError, (lambda: sel.update(xs)) if op[1] == "update" else (lambda: setattr(lst, "selection", xs)),
                       f"{op[1]} with an item that is not in the list")
                got = set(sel)
                check(got <= before_s | set(xs[:-1]), "selection after a refused %s: %r", op[1], got)
                if op[1] == "update":
                    check(before_s <= got, "items lost by a refused update")
                want = got
            else:
                f = {"add": lambda: sel.add(x), "only": lambda: sel.select_only(x), "toggle": lambda: sel.toggle(x),
                     "active": lambda: setattr(sel, "active", x)}[op[1]]
                raises(ValueError, f, f"{op[1]} with an item that is not in the list")
                eq((sel._current, sel.active), (cur0, act0), "current and active after a refused item")
        elif k in ("next", "prev"):
            step, ex, wrap = op[1:] if k == "next" else (-1, op[1], op[2])
            if not ref:
                nxt = None
            elif not want:
                nxt = ref[-1] if step > 0 else ref[0]
            elif cur0 is None:
                nxt = ref.index(order[-1])  # the one selected last counts as such
            else:
                nxt = ref.index(cur0)
            if ref and want:
                j = nxt + step
                if wrap:
                    j %= len(ref)
                elif not 0 <= j < len(ref):
                    j = -1 if step > 0 else 0
                nxt = ref[j]
            given = {"step": step, "expand_selection": ex, "wraparound": wrap}
            if k == "prev":
                del given["step"]
            defaults = {"step": 1, "expand_selection": False, "wraparound": False}
            if plain:  # leave out what is the default anyway
                given = {a: v for a, v in given.items() if v != defaults[a]}
            (lst.select_next if k == "next" else lst.select_previous)(**given)
            if ref:
                want = want | {nxt} if ex else {nxt}
                if ex:
                    cur_want = nxt
        elif k == "all":
            lst.select_all()
            want = set(ref)
        elif k == "none":
            lst.deselect_all()
            want = set()
            cur_want = None
        elif k == "rmsel":
            got = lst.remove_selected()
            check(type(got) is tuple, "type of remove_selected()")
            eq((len(got), set(got)), (len(want), want), "remove_selected()")
            rest = set(sel)
            if dups:
                one = list(ref)
                for x in want:
                    one.remove(x)
                ref = list(lst)
                check(len(ref) <= len(one) and all(ref.count(x) <= one.count(x) for x in ref), "items after remove_selected(): %r", ref)
                check(all(x in ref for x in one if x not in want), "remove_selected() removed items that were not selected: %r", ref)
                rest_ok = rest <= set(ref)
            else:
                ref = [x for x in ref if x not in want]
                rest_ok = len(rest) <= 1 and rest <= set(ref)
            check(rest_ok, "selection after remove_selected(): %r", rest)
            if before_s and not dups:
                eq(len(rest), 1 if ref else 0, "items selected after remove_selected()")
            want = rest
            atomic = False
        elif k in ("append", "insert", "set"):
            x = pool[op[-1] % len(pool)]
            if x in ref and not dups:
                continue
            if k == "set":
                if not -len(ref) <= op[1] < len(ref):
                    raises(IndexError, lambda: lst.__setitem__(op[1], x), "setitem out of range")
                else:
                    lst[op[1]] = x
                    ref[op[1]] = x
            else:
                lst.append(x) if k == "append" else lst.insert(op[1], x)
                ref.append(x) if k == "append" else ref.insert(op[1], x)
                want = {x}
                if act0 != x:
                    cur_want = x
        elif k in ("extend", "setsl"):
            xs = []
            keep = ref[slice(*op[1])] if k == "setsl" else []
            for j in op[-1]:
                x = pool[j % len(pool)]
                if dups or x not in xs and (x not in ref or x in keep):
                    xs.append(x)
            atomic = False
            if k == "extend":
                lst.extend(xs)
                ref.extend(xs)
                want = set(xs[-1:]) or want
            else:
                try:
                    ref[slice(*op[1])] = xs
                except ValueError:
                    raises(ValueError, lambda: lst.__setitem__(slice(*op[1]), xs), "extended slice of another size")
                else:
                    lst[slice(*op[1])] = xs
        elif k in ("del", "pop"):
            if not -len(ref) <= op[1] < len(ref):
                raises(IndexError, lambda: lst.pop(op[1]) if k == "pop" else lst.__delitem__(op[1]), "delete out of range")
            else:
                x = ref.pop(op[1])
                if k == "pop":
                    check(lst.pop(op[1]) is x, "pop")
                else:
                    del lst[op[1]]
        elif k == "delsl":
            del lst[slice(*op[1])]
            del ref[slice(*op[1])]
            atomic = False
        elif k == "lclear":
            lst.clear()
            ref.clear()
            atomic = False
        elif k == "move":
            if not -len(ref) <= op[1] < len(ref):
                continue
            lst.move(op[1], op[2])
            check(sorted(map(id, lst)) == sorted(map(id, ref)), "items after move")
            ref = list(lst)
        elif k == "reverse":
            evs.clear()
            lst.reverse(emit_individual_events=True) if op[1] else lst.reverse()
            ref.reverse()
            check(op[1] or not evs, "reverse() emitted individual events")
            check(not op[1] or ref == ref[::-1] or evs, "reverse(emit_individual_events=True) did not emit any")
            atomic = op[1] is False
            if list(sel) and want:
                cur_want = cur0
        elif k == "setself":
            if not -len(ref) <= op[1] < len(ref):
                continue
            lst[op[1]] = ref[op[1]]
            cur_want = cur0
        # ------------------------------------------------ after every operation
        if errs:
            raise Violation(f"{op}: {errs[0]}")
        eq([id(x) for x in lst], [id(x) for x in ref], f"items of the list after {op}")
        want &= set(ref)
        got = set(sel)
        check(got <= set(ref), "%s: selected %r not in the list", op, got - set(ref))
        eq(got, want, f"selection after {op} (list {ref!r}, selection before {before_s!r}, current before {cur0!r})")
        eq(len(list(sel)), len(got), "len of the selection")
        eq(replica, got, f"replica of the selection after {op}")
        act = next(iter(got)) if len(got) == 1 else None
        check(sel.active is act or sel.active == act, "%s: active is %r with selection %r", op, sel.active, got)
        check(not (sel.active is None and act is not None), "no active item with selection %r", got)
        eq(ahist[-1], sel.active, f"last value of the active event after {op}")
        if atomic:
            eq(len(ahist) - n_active, int(act0 != sel.active), f"number of active events of {op} ({ahist[n_active - 1:]})")
        cur = sel._current
        check(cur is None or cur in ref, "%s: current item %r is not in the list", op, cur)
        eq(chist[-1], cur, f"last value of the _current event after {op}")
        if cur_want != "any" and not (cur_want is not None and cur_want not in ref):
            check(cur is cur_want or cur == cur_want, "%s: current item %r, expected %r", op, cur, cur_want)
        if act is not None and act0 != act:
            eq(cur, act, f"current item after {op} made an item active")
            user_current = False
        elif act is not None and not user_current and k != "current":
            eq(cur, act, f"current item after {op}, with an active item")
        sizes.add(min(len(got), 2))
        left = left or bool(before_s - set(ref))
    ctx.nontrivial(len(sizes) == 3 and left)


REGRESSIONS = [
    {"init": [0, 1, 2, 3, 4], "child": False,
     "ops": [["active", 0], ["bad", "active", 11, []], ["active", 1], ["all"], ["next", 1, True, False], ["rem", 1], ["next", 1, False, False],
             ["set", 0, 8], ["selection", "iter", [0, 1]], ["next", 1, False, False], ["all"], ["current", 2], ["rem", 2], ["next", -1, False, True],
             ["reverse", True], ["rmsel"], ["sclear", False], ["supdate", [0, 1]]]},
]
