"""C12: a signal group relays every emission of its members exactly once."""
from __future__ import annotations

import copy
import gc
import threading
import warnings

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C12"
RULE = (
    "A case is a group class (1-4, sometimes up to 16 members of various signatures, names that collide with the group API, possibly an "
    "inherited group), two instances of it, and a history of group connects (all connection options, methods, wrong "
    "arities), member connects, connect_direct, disconnects, dropped objects, emissions, with group callbacks that "
    "emit or disconnect themselves. Oracle: a model of the group's and the members' callbacks. Non-trivial: a group "
    "callback gets events after the group's callbacks changed at least twice."
)
ASSUMPTIONS = ["emit_fast is documented not to support the current emitter, which a group needs"]
QUICK, THOROUGH = 1300, 40000
QUICK_S = 20

NAMES = ["a", "b", "c", "connect", "all", "signals", "x_1"]
WIDE = [*NAMES, *(f"n{i}" for i in range(14))]
NCB = 5
SHAPES = ["any", "none", "one", "two", "int", "str_int", "info", "noweak"]


def strategy(tier):
    g = st.sampled_from([0, 0, 0, 1])
    cb = st.integers(0, NCB - 1)
    m = st.one_of(st.integers(0, 3), st.integers(0, 15))
    op = st.one_of(
        st.tuples(st.just("gconn"), g, cb, st.sampled_from([0, 0, 1, -1]), st.sampled_from([False, False, True, "raise"]),
                  st.sampled_from(["group", "all", "deco"])).map(list),
        st.tuples(st.just("gconn"), g, cb, st.just(0), st.just(False), st.just("group")).map(list),
        st.tuples(st.just("gdisc"), g, cb, st.booleans()).map(list),
        st.tuples(st.just("gdisc"), g, cb, st.booleans()).map(list),
        st.tuples(st.just("mconn"), g, cb, m).map(list),
        st.tuples(st.just("mdisc"), g, cb, m).map(list),
        st.tuples(st.just("direct"), g, cb, st.sampled_from([False, False, True, "raise"]),
                  st.sampled_from([None, None, 0, 1, 2]), st.sampled_from(["group", "all", "deco"])).map(list),
        st.tuples(st.just("emit"), g, m).map(list),
        st.tuples(st.just("emit"), g, m).map(list),
        st.tuples(st.just("emit"), g, m).map(list),
        st.tuples(st.just("drop"), cb).map(list),
        st.tuples(st.just("bad"), g).map(list),
        st.tuples(st.just("gdiscall"), g).map(list),
        st.tuples(st.just("script"), g, st.lists(st.one_of(st.tuples(st.just("emit"), m).map(list), st.just(["off"])),
                                                 max_size=3), st.sampled_from([0, 1, -1])).map(list),
        st.tuples(st.just("copy"), g).map(list),
        st.tuples(st.just("opts"), g, st.sampled_from(["group", "all", "deco", "direct", "direct_all", "direct_deco"]),
                  st.sampled_from(SHAPES), st.fixed_dictionaries({}, optional={
                      "thread": st.sampled_from([None, "current", "other"]),
                      "check_nargs": st.sampled_from([None, True, False]),
                      "check_types": st.sampled_from([None, True, False]),
                      "max_args": st.sampled_from([None, 0, 1, 2]),
                      "on_ref_error": st.sampled_from(["warn", "raise", "ignore"])})).map(list),
    )
    return st.fixed_dictionaries({
        "members": st.one_of(*(
            st.lists(st.tuples(st.sampled_from(names), st.integers(0, 3)).map(list), min_size=lo, max_size=hi,
                     unique_by=lambda x: x[0]) for names, lo, hi in [(NAMES, 1, 4), (NAMES, 1, 4), (WIDE, 8, 16)])),
        "inherit": st.integers(0, 2),
        "owner": st.booleans(),
        "methods": st.lists(st.booleans(), min_size=NCB, max_size=NCB),
        "ops": st.lists(op, min_size=4, max_size=25 if tier == "quick" else 60),
    })


def run_case(case, ctx):
    from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup, emit_queued

    sigs = {k: n for k, n in case["members"]}
    mk = {0: lambda: Signal(), 1: lambda: Signal(int), 2: lambda: Signal(int, str), 3: lambda: Signal(object)}
    items = list(sigs.items())
    cut = len(items) - case["inherit"] if 0 < case["inherit"] < len(items) else len(items)
    G = type("G", (SignalGroup,), {k: mk[n]() for k, n in items[:cut]})
    if cut < len(items):
        G = type("H", (G,), {k: mk[n]() for k, n in items[cut:]})
        ctx.label("inherited")
    owner = type("O", (), {})() if case["owner"] else None
    groups = [G(owner), G()]
    eq(set(groups[0]), set(sigs), "names of the group")
    eq(len(groups[0]), len(sigs), "len(group)")
    names = sorted(sigs)
    for g in groups:
        for n in names:
            eq(g[n].name, n, "name of a member")
            check(n in g and g.signals[n] is g[n], "group mapping")

    log = []  # (cb, args)
    scripts = {}
    depth = [0]

    def body(c):
        def f(*a):
            log.append((c, a))
            if c in scripts:
                real_script(c)
        return f

    class Obj:
        def __init__(self, c):
            self.f = body(c)

        def meth(self, *a):
            self.f(*a)

    objs = {}
    fns = {}

    def cb(c):
        if case["methods"][c]:
            if c not in objs:
                objs[c] = Obj(c)
            return objs[c].meth
        if c not in fns:
            fns[c] = body(c)
        return fns[c]

    # model
    relay = [[], []]  # entries [cb, prio]
    direct = [{n: [] for n in names} for _ in groups]
    val = [0]
    changes = [0, 0]
    nscript = [0]

    def ins(lst, entry):
        pos = next((i for i, e in enumerate(lst) if e[1] < entry[1]), len(lst))
        lst.insert(pos, entry)

    def args_of(n):
        val[0] += 1
        return {0: (), 1: (val[0],), 2: (val[0], "s"), 3: (object,)}[sigs[n]]

    def real_script(c):
        gi, acts, k = scripts[c]
        if depth[0] >= 3 or k >= len(acts):
            return
        act = acts[k]
        scripts[c] = (gi, acts, k + 1)
        if act[0] == "emit":
            depth[0] += 1
            try:
                n = names[act[1] % len(names)]
                groups[gi][n].emit(*nested_args[n])
            finally:
                depth[0] -= 1
        else:
            groups[gi].disconnect(fns[c])

    nested_args = {n: {0: (), 1: (-1,), 2: (-1, "n"), 3: (None,)}[sigs[n]] for n in names}

    def model_emit(gi, n, args, want_g, want_d, ms, d):
        for e in direct[gi][n]:
            want_d.append((e[0], args[: e[1]]))  # e[1]: max_args
        for e in list(relay[gi]):
            if e not in relay[gi] and not any(x is e for x in relay[gi]):
                continue
            if not any(x is e for x in relay[gi]):
                continue
            want_g.append((e[0], n, args))
            if e[0] in ms:
                acts, k = ms[e[0]]
                if d < 3 and k < len(acts):
                    ms[e[0]] = (acts, k + 1)
                    if acts[k][0] == "emit":
                        n2 = names[acts[k][1] % len(names)]
                        ctx.label("nested")
                        model_emit(gi, n2, nested_args[n2], want_g, want_d, ms, d + 1)
                    else:
                        ctx.label("off-in-callback")
                        first = next((x for x in relay[gi] if x[0] == e[0]), None)
                        if first is not None:
                            relay[gi][:] = [x for x in relay[gi] if x is not first]

    def emit(gi, n):
        args = args_of(n)
        log.clear()
        want_g, want_d = [], []
        ms = {c: (acts, k) for c, (g2, acts, k) in scripts.items() if g2 == gi}
        model_emit(gi, n, args, want_g, want_d, ms, 0)
        groups[gi][n].emit(*args)
        got_g, got_d = [], []
        for c, a in log:
            if len(a) == 1 and isinstance(a[0], EmissionInfo):
                i = a[0]
                nm = next((k for k in names if groups[gi][k] is i.signal), None)
                check(nm is not None, "EmissionInfo names %r, which is no member of the emitting group", i.signal)
                got_g.append((c, nm, i.args))
            else:
                got_d.append((c, a))
        if got_g != want_g:
            raise Violation(f"emission of {n}: group callbacks got {got_g}, expected {want_g}")
        if sorted(map(repr, got_d)) != sorted(map(repr, want_d)):
            raise Violation(f"emission of {n}: member callbacks got {got_d}, expected {want_d}")
        if want_g and changes[gi] >= 2:
            ctx.nontrivial()

    def callback(shape, out):
        if shape == "any":
            return lambda *a: out.append(a)
        if shape == "none":
            return lambda: out.append(())
        if shape == "one":
            return lambda a: out.append((a,))
        if shape == "two":
            return lambda a, b: out.append((a, b))
        if shape == "int":
            def f(a: int):
                out.append((a,))
            return f
        if shape == "str_int":
            def f(a: str, b: int = 0):
                out.append((a, b))
            return f
        if shape == "info":
            def f(a):
                out.append((a,))
            f.__annotations__ = {"a": EmissionInfo}
            return f

        class NoWeak:
            __slots__ = ()

            def meth(self, *a):
                out.append(a)

        return NoWeak().meth

    class Plain:
        info = Signal(EmissionInfo)

    for n, kind in items:
        s = mk[kind]()
        s.__set_name__(Plain, "m_" + n)
        setattr(Plain, "m_" + n, s)

    def options(gi, via, shape, opts):
        """Connect through the group, and to plain signals with the same arguments: it makes no difference."""
        g, plain = groups[gi], Plain()
        direct_ = via.startswith("direct")
        opts = dict(opts)
        if direct_:
            opts.pop("thread", None)
            opts.pop("on_ref_error", None)
        elif opts.get("thread") == "other":
            opts["thread"] = other
        got, want = [], []
        f, f0 = callback(shape, got), callback(shape, want)

        def attempt(fn):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    fn()
                except (ValueError, TypeError, ReferenceError) as e:
                    return type(e), [x.category for x in ws]
            return "connected", [x.category for x in ws]

        def through():
            m = getattr(g.all if "all" in via else g, "connect_direct" if direct_ else "connect")
            r = m(**opts)(f) if "deco" in via else m(f, **opts)
            check(r == f, "%s() returned %r", via, r)

        def plainly():
            for t in [plain.info] if not direct_ else [getattr(plain, "m_" + n) for n in g]:
                t.connect(f0, **opts)

        a, b = attempt(through), attempt(plainly)
        eq(a, b, f"connecting ({via}) a callback that takes {shape!r} with {opts}, and the same to a plain signal")
        ctx.label("options:" + str(a[0] if a[0] == "connected" else "refused"))
        outcomes = []
        if a[0] == "connected":
            for n in names:
                args = nested_args[n]
                for sig, x, own in ((g[n], got, False), (getattr(plain, "m_" + n) if direct_ else plain.info, want, True)):
                    del x[:]
                    log.clear()
                    res = "ok"
                    try:
                        sig.emit(*([EmissionInfo(g[n], args)] if own and not direct_ else args))
                    except EmitLoopError as e:
                        res = type(e.__cause__)
                    now = list(x)
                    try:
                        emit_queued(other)
                    except EmitLoopError as e:
                        res = type(e.__cause__)
                    outcomes.append((res, now, list(x)))
                eq(outcomes[-2], outcomes[-1], f"calls ({via}, callback that takes {shape!r}, {opts}) on emission of {n}")
        log.clear()
        if a[0] == "connected" or direct_:
            g.disconnect(f)
        check(not any(f in g[n] for n in names) and f not in g.all, "still connected after group.disconnect(slot)")

    other = threading.Thread()
    for op in case["ops"]:
        w = op[0]
        if w == "drop":
            c = op[1]
            if c in objs:
                ctx.label("drop")
                del objs[c]
                gc.collect(0)
                for gi in (0, 1):
                    if any(e[0] == c for e in relay[gi]):
                        changes[gi] += 1
                    relay[gi][:] = [e for e in relay[gi] if e[0] != c]
                    for n in names:
                        direct[gi][n][:] = [e for e in direct[gi][n] if e[0] != c]
        else:
            gi = op[1]
            g = groups[gi]
        if w == "gconn":
            _, _, c, prio, unique, via = op
            present = any(e[0] == c for e in relay[gi])
            f = cb(c)
            try:
                if via == "deco":
                    r = g.connect(priority=prio, unique=unique)(f)
                else:
                    r = (g.connect if via == "group" else g.all.connect)(f, priority=prio, unique=unique)
                check(r == f, "connect() returned %r", r)
            except ValueError:
                check(present and unique == "raise", "group.connect raised ValueError")
            else:
                check(not (present and unique == "raise"), "connecting twice with unique='raise' did not raise")
                if not (present and unique):
                    ins(relay[gi], [c, prio])
                    changes[gi] += 1
            f = r = None
        elif w == "gdisc":
            _, _, c, missing_ok = op
            f = cb(c)
            hits = [lst for lst in [relay[gi], *direct[gi].values()] if any(e[0] == c for e in lst)]
            try:
                g.disconnect(f, missing_ok=missing_ok)
            except ValueError:
                check(not missing_ok, "disconnect with missing_ok raised")
                check(not hits, "disconnecting a connected slot from the group raised ValueError")
            else:
                check(missing_ok or hits, "disconnecting a slot that is connected nowhere did not raise")
                for lst in hits:
                    lst.remove(next(e for e in lst if e[0] == c))
                changes[gi] += bool(hits)
                if hits:
                    ctx.label("gdisc")
            f = None
        elif w == "mconn":
            n = names[op[3] % len(names)]
            g[n].connect(cb(op[2]))
            direct[gi][n].append([op[2], None])
        elif w == "mdisc":
            n = names[op[3] % len(names)]
            f = cb(op[2])
            e = next((e for e in direct[gi][n] if e[0] == op[2]), None)
            try:
                g[n].disconnect(f, missing_ok=False)
            except ValueError:
                check(e is None, "member disconnect raised")
            else:
                check(e is not None, "member disconnect of a slot that is not connected to it did not raise")
                direct[gi][n].remove(e)
            f = None
        elif w == "direct":
            _, _, c, unique, max_args, via = op
            present = [any(e[0] == c for e in direct[gi][n]) for n in g]
            if unique == "raise" and any(present) and not present[0]:
                unique = True  # (the members before the one that raises would be connected)
            f = cb(c)
            try:
                if via == "deco":
                    r = g.connect_direct(unique=unique, max_args=max_args)(f)
                else:
                    r = (g if via == "group" else g.all).connect_direct(f, unique=unique, max_args=max_args)
                check(r == f, "connect_direct() returned %r", r)
            except ValueError:
                check(unique == "raise" and any(present), "connect_direct raised ValueError")
            else:
                check(not (unique == "raise" and any(present)), "connect_direct twice with unique='raise' did not raise")
                for n in names:
                    if not (unique and any(e[0] == c for e in direct[gi][n])):
                        direct[gi][n].append([c, max_args])
            f = r = None
            ctx.label("connect_direct")
        elif w == "emit":
            emit(gi, names[op[2] % len(names)])
        elif w == "bad":
            try:
                g.connect(lambda a, b: log.append(("bad", a)))
            except ValueError:
                pass
            else:
                raise Violation("the group accepted a callback that needs two arguments")
        elif w == "gdiscall":
            g.disconnect()
            relay[gi].clear()
            for n in names:
                direct[gi][n].clear()
            changes[gi] += 1
        elif w == "script":
            nscript[0] += 1
            c = 100 + nscript[0]
            fns[c] = body(c)
            scripts[c] = (gi, op[2], 0)
            g.connect(fns[c], priority=op[3])
            ins(relay[gi], [c, op[3]])
            changes[gi] += 1
        elif w == "opts":
            if scripts:
                continue
            options(*op[1:])
        elif w == "copy":
            g2 = copy.deepcopy(g)
            log.clear()
            for n in names:
                g2[n].emit(*args_of(n))
            check(not log, "a copied group calls the original's callbacks")
        for k in (0, 1):
            eq(len(groups[k].all), len(relay[k]), "len(group.all)")
            for c in range(NCB):
                if c in objs or c in fns:
                    f = cb(c)
                    eq(f in groups[k].all, any(e[0] == c for e in relay[k]), "callback in group.all")
                    for n in names:
                        eq(f in groups[k][n], any(e[0] == c for e in direct[k][n]), "callback in member")
                    f = None
    for gi in (0, 1):
        for n in names:
            emit(gi, n)


REGRESSIONS = [
    {"members": [["a", 1], ["b", 1]], "inherit": 0, "owner": False, "methods": [False] * 5,
     "ops": [["gconn", 0, 0, 0, False, "group"], ["gdisc", 0, 0, False], ["emit", 0, 0], ["gdisc", 0, 0, False]]},
]
