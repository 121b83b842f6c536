"""C23: copies and pickles are faithful and detached."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import check, eq

ID = "C23"
RULE = (
    "Either a signal owner / free signal / group with a history of connections (functions, partials, static methods, weak "
    "methods; priorities, max_args), emissions, also from callbacks of the same signal (in all reemission modes), block, pause and resume (of signals and groups), copied by deepcopy or any pickle protocol at any "
    "point, also inside a callback of an emission and as a copy of a copy, with further operations on all objects, against "
    "a model of each object's slots, state and queue; or a tree of evented containers, models and dataclasses with shared "
    "nodes, copied by copy, deepcopy, pickle, model_copy, also inside a callback, and compared with a freshly built twin "
    "(state, results, events of every node) under further operations, while the original may see none of them. "
    "Non-trivial: a copy of an object with connections that was operated on, as was the original afterwards."
)
ASSUMPTIONS = [
    "group deep copies come without connections and unblocked (documented); weakly held slots are not copied (documented)",
    "evented dataclasses that cache the group on the instance cannot be pickled (documented), shallow copies of them are C11's finding",
    "EventedList.copy() does not keep child_events / hashable; a signal that is pickled apart from its group leaves the group",
]
QUICK, THOROUGH = 2200, 60000
QUICK_S = 20
HOW = ["copy", "deepcopy", "deepcopy", "pickle", "pickle", "pickle2", "pickle3"]
SLOTS = ["f0", "f1", "f2", "f3", "fp", "st", "w0", "w1", "ws"]
SHAPES = ["plain", "plain", "eq", "free", "free", "group", "conflict", "owner"]
SCALARS = [0, 1, 2, 3, "a", "b", None, 2.5]


def strategy(tier):
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    t, sg = st.integers(0, 3), st.integers(0, 3)
    how = st.sampled_from(HOW)
    sig_op = st.one_of(
        T("conn", t, sg, st.sampled_from(SLOTS), st.sampled_from([0, 0, 0, 1, 5, -1]), st.sampled_from([None, None, 0, 1, 2])),
        T("conn", t, sg, st.sampled_from(SLOTS), st.sampled_from([0, 0, 0, 1, 5, -1]), st.sampled_from([None, None, 0, 1, 2])),
        T("disc", t, sg, st.sampled_from(SLOTS)), T("discall", t, sg),
        T("emit", t, sg, st.integers(0, 99)), T("emit", t, sg, st.integers(0, 99)), T("emit", t, sg, st.integers(0, 99)),
        T("reemit", t, sg, st.integers(0, 99), st.integers(1, 2), st.booleans()),
        T("block", t, sg), T("unblock", t, sg), T("gblock", t, sg), T("gunblock", t, sg), T("pause", t, sg), T("resume", t, sg),
        T("copy", t, how, st.integers(0, 2), sg), T("drop", t),
    )
    sig_case = st.fixed_dictionaries({
        "part": st.just("sig"),
        "shape": st.sampled_from(SHAPES),
        "mode": st.sampled_from(["immediate", "queued", "latest-only"]),  # of the free signal
        "ops": st.lists(sig_op, min_size=4, max_size=22 if tier == "quick" else 60),
    })
    scalar = st.sampled_from(SCALARS)
    k = st.sampled_from(["a", "b", "c", 0, 1])
    ref = st.builds(lambda i: {"ref": i}, st.integers(0, 4))
    hashables = st.lists(st.sampled_from(SCALARS[:-2]), max_size=4)

    def node(kids):
        kid = st.one_of(scalar, kids, kids, ref)
        rec = st.builds(lambda n, x, y: {"k": n, "x": x, "y": y}, st.sampled_from(["dc", "dcn", "at", "ms", "pm", "em", "em", "emp", "emp"]), scalar, kid)
        lst = st.builds(lambda v, c, h: {"k": "list", "v": v, "child": c, "hash": h}, st.lists(kid, max_size=4), st.booleans(), st.booleans())
        dct = st.builds(lambda v, b: {"k": "dict", "v": [[a, x] for a, x in dict(v).items()], "base": b and all(isinstance(x, int) for _, x in dict(v).items())}, st.lists(st.tuples(k, kid), max_size=3), st.booleans())
        sets = st.builds(lambda n, v: {"k": n, "v": v}, st.sampled_from(["set", "oset", "sel"]), hashables)
        slist = st.builds(lambda v, s, c, ch: {"k": "slist", "v": v, "sel": s, "cur": c, "child": ch, "hash": True},
                          st.lists(st.sampled_from(SCALARS[:-2]), max_size=4, unique_by=lambda v: (str(type(v)), v)), st.lists(st.integers(0, 3), max_size=3), st.one_of(st.none(), st.integers(0, 3)), st.booleans())
        return st.one_of(rec, rec, lst, lst, dct, sets, slist)

    tree = node(node(node(st.just(None))))
    op = st.lists(st.integers(0, 7), min_size=5, max_size=5)
    tree_case = st.fixed_dictionaries({
        "part": st.just("tree"),
        "root": tree,
        "how": st.sampled_from(["copy", "copy", "model_copy", "model_deep", "model_update", "deepcopy", "deepcopy", "deepcopy", "pickle", "pickle", "pickle", "pickle2"]),
        "incb": st.sampled_from([0, 0, 1, 2]),
        "listen": st.sampled_from([0, 1, 2, 3]),
        "pre": st.lists(op, max_size=4),
        "post": st.lists(st.tuples(st.sampled_from("cccoo"), op).map(list), min_size=2, max_size=10 if tier == "quick" else 30),
        "again": st.booleans(),
    })
    return st.one_of(sig_case, tree_case)


def private(o, name, default=None):
    """A private attribute, if there is one of that name."""
    return getattr(o, name, default)


def is_hashable(o):
    try:
        hash(o)
    except TypeError:
        return False
    return True


def run_case(case, ctx):
    (_sig if case["part"] == "sig" else _tree)(case, ctx)


def _copied(obj, how):
    import copy
    import pickle

    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "copy":
        return copy.copy(obj)
    if how == "model_copy":
        return obj.model_copy()
    if how == "model_update":
        return obj.model_copy(update={})
    if how == "model_deep":
        return obj.model_copy(deep=True)
    return pickle.loads(pickle.dumps(obj, int(how[6:] or pickle.HIGHEST_PROTOCOL)))


# ------------------------------------------------------------------ signals


class Recv:
    """Weakly held by the signals it is connected to."""

    ws = None

    def __init__(self, log):
        self._log = log

    def w0(self, *args):
        self._log.append(("w0", args))

    def w1(self, a):
        self._log.append(("w1", (a,)))

    def __setattr__(self, name, value):
        if name == "ws":
            self._log.append(("ws", value))
        else:
            object.__setattr__(self, name, value)


class _M:
    """Model of one signal: slots in order of their calls, state, queue."""

    def __init__(self):
        self.slots = []  # [prio, name, max_args]
        self.blocked = self.paused = False
        self.queue = []

    def conn(self, prio, name, max_args):
        i = len(self.slots)
        while i and self.slots[i - 1][0] < prio:
            i -= 1
        self.slots.insert(i, [prio, name, max_args])

    def copy(self):
        new = _M()
        new.slots = [list(s) for s in self.slots if not s[1].startswith("w")]
        new.blocked, new.paused, new.queue = self.blocked, self.paused, list(self.queue)
        return new


NARGS = {"f1": 1, "f2": 2, "w1": 1}


def _sig(case, ctx):
    from functools import partial

    from psygnal import EmissionInfo, SignalInstance

    from props import c23_types as T

    log = T.LOG
    log.clear()
    shape = case["shape"]
    grouped = shape in ("group", "conflict", "owner")
    third = "connect" if shape == "conflict" else "c"
    names = ["a"] if shape == "free" else ["a", "b", third, "all"] if grouped else ["a", "b", third]
    make = {"plain": T.Emitter, "eq": T.EqEmitter, "free": lambda: SignalInstance((int,), name="a", reemission=case.get("mode", "immediate")), "group": T.G, "conflict": T.Conflict, "owner": T.Owner}[shape]
    nargs = {"a": 1, "b": 2, third: 1, "all": 1}

    class Live:
        pass

    def group(o):
        return o.g if shape == "owner" else o

    def inst(o, n):
        if shape == "free":
            return o
        if grouped:
            return group(o).all if n == "all" else group(o)[n]
        return getattr(o, n)

    def live(obj, models):
        x = Live()
        x.obj, x.m = obj, models
        x.recv = Recv(log)
        x.saved = {}  # which members were blocked before the group was
        return x

    def group_block(x, block):
        relay = inst(x.obj, "all")
        if block:
            relay.block()
            x.saved = {n: x.m[n].blocked for n in names}
        else:
            relay.unblock()
            x.saved, was = {}, x.saved
        for n in names:
            x.m[n].blocked = block or was[n]

    lives = [live(make(), {n: _M() for n in names})]
    funcs = {"f0": T.f0, "f1": T.f1, "f2": T.f2, "f3": T.f3, "fp": partial(T.fp, "p"), "st": T.Static.s}

    def norm(x, v):
        if isinstance(v, EmissionInfo):
            check(v.signal is inst(x.obj, third if v.signal.name == third else v.signal.name), "EmissionInfo.signal is not a signal of the object")
            return ("info", v.signal.name, tuple(v.args))
        return v

    def call(x, slot, args, out):
        """What a slot called with (up to) args records."""
        _, name, max_args = slot
        k = len(args) if max_args is None else min(max_args, len(args))
        if name in NARGS:
            k = min(k, NARGS[name])
        a = tuple(args[:k])
        if name == "f2":
            a = (*a, None)[:2]
        if name == "ws":
            a = a[0] if len(a) == 1 else a
        out.append(("s" if name == "st" else name, ("p", *a) if name == "fp" else a))

    def deliver(x, n, args, out):
        m = x.m[n]
        if m.blocked:
            return
        if m.paused:
            m.queue.append(args)
            return
        run(x, n, args, out)

    def run(x, n, args, out):
        for slot in list(x.m[n].slots):
            call(x, slot, args, out)
        # the relay listens only while something listens to it, and looks only at pauses
        if grouped and n != "all" and x.m["all"].slots:
            info = (("info", inst(x.obj, n).name, args),)
            if x.m["all"].paused:
                x.m["all"].queue.append(info)
            else:
                for slot in list(x.m["all"].slots):
                    call(x, slot, info, out)

    def mode(n):
        if n == "a":
            return case.get("mode", "immediate") if shape == "free" else "immediate"
        return "queued" if n == "b" else "latest-only"

    def reemit(x, n, v, k, first, out):
        """An emission during which a callback emits the signal again, k times."""
        m, s = x.m[n], inst(x.obj, n)
        values = [argsof(n, v + i) for i in range(k + 1)]
        todo = values[1:]

        class Again:
            def go(self, *args):
                if todo:
                    s.emit(*todo.pop(0))

        again = Again()
        s.connect(again.go, priority=1000 if first else -1000, check_nargs=False)
        s.emit(*values[0])
        s.disconnect(again.go)
        if m.blocked:
            return
        if m.paused:
            m.queue.append(values[0])
            return
        eq(todo, [], "emissions from a callback")
        if first and mode(n) == "immediate":
            values.reverse()
        elif first and mode(n) == "latest-only":
            values = values[-1:]
        for args in values:
            run(x, n, args, out)

    def observed(x):
        got = [(f, tuple(norm(x, v) for v in a) if isinstance(a, tuple) and not isinstance(a, EmissionInfo) else norm(x, a)) for f, a in log]
        log.clear()
        return got

    def compare(x, want, what):
        got = observed(x)
        if grouped:  # members and relay: the position of the relay is not specified
            got, want = sorted(got, key=repr), sorted(want, key=repr)
        eq(got, want, what)

    def argsof(n, v):
        return (v, str(v)) if n == "b" else (v,)

    def same_declaration(x, y):
        for n in names:
            s, d = inst(x.obj, n), inst(y.obj, n)
            check(s is not d, "a copy shares signal %s with the original", n)
            eq(type(d), type(s), "type of the copied signal")
            eq((d.name, d.signature, d.description), (s.name, s.signature, s.description), f"declaration of {n}")
            if n != "all":
                owner = None if shape == "free" else group(y.obj) if grouped else y.obj
                check(d.instance is owner, "instance of copied signal %s is not the copy", n)
        if grouped:
            want = y.obj if shape == "owner" else None
            check(group(y.obj).all.instance is want, "the copied group does not belong to the copy: %r", group(y.obj).all.instance)
        else:
            check(shape == "free" or y.obj.payload is not x.obj.payload, "payload shared")

    used = 0
    for op in case["ops"]:
        kind, x = op[0], lives[op[1] % len(lives)]
        n = names[op[2] % len(names)] if kind not in ("copy", "drop") else None
        want = []
        if kind == "conn":
            _, _, _, slot, prio, max_args = op
            m = x.m[n]
            if any(s[1] == slot for s in m.slots):
                continue
            if slot in NARGS and slot != "f2" and max_args == 0:
                max_args = None
            if slot == "f2" and max_args == 0 or n == "all" and max_args == 0:
                max_args = 1
            if max_args and slot in NARGS:
                max_args = min(max_args, NARGS[slot])
            if slot == "ws":
                inst(x.obj, n).connect_setattr(x.recv, "ws", maxargs=max_args or 1)
                max_args, prio = max_args or 1, 0
            else:
                f = getattr(x.recv, slot) if slot in ("w0", "w1") else funcs[slot]
                inst(x.obj, n).connect(f, priority=prio, max_args=max_args, check_types=False)
            m.conn(prio, slot, max_args)
        elif kind == "disc":
            slot = op[3]
            m = x.m[n]
            hit = [s for s in m.slots if s[1] == slot]
            if slot == "ws":
                inst(x.obj, n).disconnect_setattr(x.recv, "ws")
            else:
                f = getattr(x.recv, slot) if slot in ("w0", "w1") else funcs[slot]
                if n == "all":
                    # disconnects from the members, too
                    for k in names:
                        x.m[k].slots = [s for s in x.m[k].slots if s[1] != slot]
                inst(x.obj, n).disconnect(f)
            if hit:
                m.slots = [s for s in m.slots if s[1] != slot]
        elif kind == "discall":
            if grouped:  # a member also forgets the relay (C09)
                continue
            inst(x.obj, n).disconnect()
            x.m[n].slots = []
        elif kind == "emit":
            if n == "all":
                continue
            v = op[3] + 100 * (op[1] % len(lives))
            inst(x.obj, n).emit(*argsof(n, v))
            deliver(x, n, argsof(n, v), want)
            used += x is not lives[0] and bool(want)
        elif kind == "reemit":
            if n == "all":
                continue
            v = op[3] + 100 * (op[1] % len(lives))
            reemit(x, n, v, op[4], op[5], want)
            ctx.label("reemission:" + mode(n))
            used += x is not lives[0] and bool(want)
        elif kind in ("block", "unblock"):
            if n == "all":
                continue
            if x.saved:  # (a group and one of its members are not blocked in turn)
                continue
            getattr(inst(x.obj, n), kind)()
            x.m[n].blocked = kind == "block"
        elif kind in ("gblock", "gunblock"):
            if grouped and bool(x.saved) == (kind == "gunblock"):
                group_block(x, kind == "gblock")
        elif kind == "pause":
            inst(x.obj, n).pause()
            x.m[n].paused = True
        elif kind == "resume":
            inst(x.obj, n).resume()
            m = x.m[n]
            queue, m.queue, m.paused = m.queue, [], False
            for args in queue:
                run(x, n, args, want)
        elif kind == "drop":
            if len(lives) > 1 and op[1] % len(lives) == 0:
                lives.pop(0)
                ctx.label("original dropped")
        else:  # copy
            _, _, how, incb, k = op
            if len(lives) > 3:
                continue
            if how == "copy" and shape != "free":
                how = "deepcopy"  # shallow copies share the signals that are attributes
            state = {n: x.m[n].copy() for n in names}
            n = names[k % len(names)]
            if n == "all":
                n = "a"
            if grouped and how == "deepcopy":
                state = {n: _M() for n in names}
            if incb and not x.m[n].blocked and not x.m[n].paused:
                made = []

                class Copier:
                    def go(self, *args):
                        if incb == 2 and not made:
                            made.append(None)
                            inst(x.obj, n2).emit(*argsof(n2, 77))
                            made.pop()
                        made.append(_copied(x.obj, how))

                n2 = names[(names.index(n) + 1) % min(3, len(names))]
                if n2 == n:
                    incb = 1
                cp = Copier()
                inst(x.obj, n).connect(cp.go, priority=1000, check_nargs=False)
                before = {k: x.m[k].copy() for k in names}
                inst(x.obj, n).emit(*argsof(n, 55))
                inst(x.obj, n).disconnect(cp.go)
                eq(len(made), 1, "copies made in the callback")
                obj = made[0]
                if incb == 2:
                    deliver(x, n2, argsof(n2, 77), want)
                    if not (grouped and how == "deepcopy"):
                        state = {k: x.m[k].copy() for k in names}
                        # (queues as they were before the emission is passed on)
                        del before
                deliver(x, n, argsof(n, 55), want)
                ctx.label("copied in a callback")
            else:
                obj = _copied(x.obj, how)
            y = live(obj, state)
            lives.append(y)
            if x.saved and not (grouped and how == "deepcopy"):
                y.saved = dict(x.saved)
                ctx.label("copied a blocked group")
            check(type(y.obj) is type(x.obj), "type of the copy")
            same_declaration(x, y)
            ctx.label(how, "copy of a signal" if not grouped else "copy of a group")
            if any(m.blocked for m in state.values()):
                ctx.label("copied while blocked")
            if any(m.paused and m.queue for m in state.values()):
                ctx.label("copied with queued emissions")
            for n in names:
                eq(len(inst(y.obj, n)) - (grouped and n != "all" and bool(y.m["all"].slots)), len(y.m[n].slots), f"number of slots of the copied {n}")
            if any(m.slots for m in x.m.values()) and used >= 0:
                used += 1000
        compare(x, want, f"callbacks of {op} on object {op[1] % len(lives)}")
    for x in lives:
        for n in names:
            if n in (third, "all"):
                s = inst(x.obj, n)
                if n == third:
                    s.connect(T.need3)  # not checked
                    s.disconnect(T.need3)
                continue
            try:
                inst(x.obj, n).connect(T.need3)
            except ValueError:
                pass
            else:
                check(False, "the number of arguments is not checked on connect to a copy's %s", n)
        if x.saved:
            group_block(x, False)
            for n in names:
                if n != "all":
                    want = []
                    inst(x.obj, n).emit(*argsof(n, 11))
                    deliver(x, n, argsof(n, 11), want)
                    compare(x, want, f"emission of {n} after unblocking the group")
        # everything that is still queued, and one emission each
        for n in names:
            want = []
            inst(x.obj, n).resume()
            m = x.m[n]
            queue, m.queue, m.paused = m.queue, [], False
            for args in queue:
                run(x, n, args, want)
            inst(x.obj, n).unblock() if n != "all" else None
            m.blocked = False
            compare(x, want, f"final resume of {n}")
        for n in names:
            if n != "all":
                want = []
                inst(x.obj, n).emit(*argsof(n, 9))
                deliver(x, n, argsof(n, 9), want)
                compare(x, want, f"final emission of {n}")
                want = []
                reemit(x, n, 20, 2, True, want)
                compare(x, want, f"final reemissions of {n}")
    ctx.nontrivial(used > 1000)


# -------------------------------------------------------------------- trees


def _tree(case, ctx):
    from psygnal import EmissionInfo, SignalInstance

    from props import c23_types as T

    glog = T.LOG
    glog.clear()
    kinds = {c: k for k, c in {**T.RECORDS, **T.CONTAINERS}.items()}

    def build(spec, seen):
        """Build a (new) object from a specification."""
        if not isinstance(spec, dict):
            return spec
        if "ref" in spec:
            return seen[spec["ref"] % len(seen)] if seen else 0
        k = spec["k"]
        if k in T.RECORDS:
            y = build(spec["y"], seen)
            o = T.RECORDS[k](x=spec["x"], y=y)
        elif k == "list":
            o = T.EventedList([build(v, seen) for v in spec["v"]], child_events=spec["child"], hashable=spec["hash"])
        elif k == "dict":
            o = T.EventedDict({a: build(v, seen) for a, v in spec["v"]}, basetype=int if spec["base"] else ())
        elif k == "slist":
            o = T.SelectableEventedList(spec["v"], child_events=spec["child"])
            o.selection.clear()
            o.selection.update([o[i] for i in spec["sel"] if i < len(o)])
            o.selection._current = o[spec["cur"]] if spec["cur"] is not None and spec["cur"] < len(o) else None
        else:
            o = T.CONTAINERS[k](spec["v"])
            if k == "sel":
                o._current = spec.get("cur")
        seen.append(o)
        return o

    def describe(o, seen):
        k = kinds.get(type(o))
        if k is None:
            return [describe(i, seen) for i in o] if isinstance(o, (list, tuple)) else o
        for n, s in enumerate(seen):
            if s is o:
                return {"ref": n}
        if k in T.RECORDS:
            d = {"k": k, "y": describe(o.y, seen), "x": o.x}
        elif k == "list":
            d = {"k": k, "v": [describe(i, seen) for i in o], "child": private(o, "_child_events"), "hash": is_hashable(o)}
        elif k == "dict":
            d = {"k": k, "v": [[a, describe(v, seen)] for a, v in o.items()], "base": private(o, "_basetypes")}
        elif k == "slist":
            items = list(o)
            find = lambda v: next((i for i, w in enumerate(items) if w is v or w == v and type(w) is type(v)), -1)
            cur = o.selection._current
            d = {"k": k, "v": items, "sel": [find(v) for v in o.selection], "cur": None if cur is None else find(cur), "child": private(o, "_child_events"), "hash": is_hashable(o)}
            check(o.selection.active is None if len(o.selection) != 1 else o.selection.active in o.selection, "active item of the selection")
        else:
            d = {"k": k, "v": sorted(o, key=repr) if k == "set" else list(o)}
            if k == "sel":
                d["cur"] = o._current
        seen.append(o)
        return d

    def nodes(o, out):
        """All evented nodes, children first."""
        k = kinds.get(type(o))
        if k is None or any(n is o for n in out):
            return out
        if k in T.RECORDS:
            nodes(o.y, out)
        elif k == "list":
            for i in list(o):
                nodes(i, out)
        elif k == "dict":
            for i in list(o.values()):
                nodes(i, out)
        out.append(o)
        return out

    def norm(v):
        if isinstance(v, EmissionInfo):
            return ["info", v.signal.name, norm(v.args)]
        if isinstance(v, SignalInstance):
            return ["signal", v.name]
        if isinstance(v, (tuple, list)):
            return [norm(i) for i in v]
        return repr(describe(v, []))

    class Rec:
        def __init__(self, unordered):
            self.log = []
            self.unordered = unordered

        def put(self, name, args):
            args = norm(args)
            if self.unordered:
                args = [sorted(a) if isinstance(a, list) else a for a in args]
            if ["signal", "items_changed"] in args:
                args[-1] = [sorted(a) for a in args[-1]]
            self.log.append([name, args])

        def all(self, info):
            self.put("all " + info.signal.name, info.args)

        def one(self, *args):
            self.put("one", args)

    def groups(o):
        yield o.events
        if type(o) is T.SelectableEventedList:
            yield o.selection.events

    def listen(ns, weak=True, strong=False):
        recs = []
        for o in ns:
            r = Rec(type(o) is T.EventedSet)
            recs.append(r)
            for g in groups(o):
                if weak:
                    g.all.connect(r.all)
                    g[next(iter(g))].connect(r.one)
                if strong:
                    g.all.connect(T.f0)
                    g[next(iter(g))].connect(T.f3, priority=2)
        return recs

    def operate(root, op, shallow):
        ns = nodes(root, [])
        o = root if shallow else ns[op[0] % len(ns)]
        k = kinds[type(o)]
        _, a, i, v, w = op
        val = SCALARS[v]
        if w == 7 and not shallow and k in ("list", "dict", "dc", "em", "at"):
            val = T.EM(x=v)
        elif w == 6 and not shallow and k == "list" and len(o):
            val = o[i % len(o)]  # the same object once more
        if k in T.RECORDS:
            if k == "emp" and a == 4:
                return setattr(o, "twin", [val, 0])
            if k in ("em", "emp") and a == 5:
                return o.update({"x": val, "y": w})
            return setattr(o, "x" if a % 4 else "y", val if a % 4 or w == 7 else w)
        if k in ("list", "slist"):
            if k == "slist":
                if a >= 6:
                    return [lambda: o.selection.add(val), o.select_all, o.deselect_all, o.select_next, lambda: setattr(o.selection, "active", val), lambda: o.selection.toggle(val),
                            o.remove_selected, o.select_previous][w % 8]()
                if val is None or val in o:
                    val = f"new{v}{w}{len(o)}"
            return [
                lambda: o.append(val), lambda: o.insert(i - 4, val), lambda: o.pop(i - 4), lambda: o.__setitem__(i - 4, val), lambda: o.__delitem__(slice(i - 4, None)),
                o.reverse, lambda: o.move(i, w % 5), lambda: o.extend([val, f"{i}x{len(o)}"]),
            ][a]()
        if k == "dict":
            key = ["a", "b", "c", 0, 1, 2, "z", None][i]
            return [lambda: o.__setitem__(key, val), lambda: o.update({key: val, "n": 1}), lambda: o.pop(key), lambda: o.setdefault(key, val), o.clear,
                    lambda: o.__delitem__(key), lambda: o.__setitem__(key, w), o.popitem][a]()
        return [lambda: o.add(val), lambda: o.discard(val), lambda: o.remove(val), lambda: o.update([val, w, "q"]), o.clear, lambda: o.difference_update([val, w]),
                lambda: o.symmetric_difference_update([val]), lambda: o.intersection_update([val, 0, 1, "a"])][a]()

    def attempt(root, op, shallow):
        try:
            return ["ok", norm(operate(root, op, shallow))]
        except (IndexError, KeyError, TypeError, ValueError) as e:
            return ["raised", type(e).__name__]

    root = build(case["root"], [])
    rk = kinds[type(root)]
    how = case["how"]
    cached = lambda: any(type(n) is T.DC for n in nodes(root, []))
    if how.startswith("model") and rk not in ("em", "emp", "pm"):
        how = "deepcopy"
    for op in case["pre"]:
        attempt(root, op, False)
    if how.startswith("pickle") and cached():
        how = "deepcopy"
    if how == "copy" and (rk == "dc" or rk in ("list", "slist") and (private(root, "_child_events") or not is_hashable(root))):
        how = "deepcopy"
    if how == "copy" and rk in ("sel", "slist"):
        how = "pickle"  # a shallow copy has a selection of its own
    shallow = how in ("copy", "model_copy", "model_update")
    ctx.label(how, "root:" + rk)
    if rk == "emp":
        root._p = 5
        root.extra = "e"
    orecs, ons = [], []
    if case["listen"]:
        ons = nodes(root, [])
        orecs = listen(ons, case["listen"] & 1, case["listen"] & 2)
    before = describe(root, [])
    if case["incb"]:
        made = []

        class Copier:
            busy = False

            def go(self, info):
                if len(made) < case["incb"] and not self.busy:
                    self.busy = True
                    try:
                        made.append((describe(root, []), _copied(root, how)))
                    finally:
                        self.busy = False

        cp = Copier()
        for g in groups(root):
            g.all.connect(cp.go)
        for op in [[len(nodes(root, [])) - 1, 0, 0, 5, 0], [len(nodes(root, [])) - 1, 1, 3, 1, 1]]:
            attempt(root, op, True)
        for g in groups(root):
            g.all.disconnect(cp.go)
        if made:
            before, dup = made[-1]
            ctx.label("copied in a callback")
        else:
            before, dup = describe(root, []), _copied(root, how)
    else:
        dup = _copied(root, how)
    # the active item is updated after the selection: not a state one can start from
    between = case["incb"] and any(k in repr(before) for k in ("'slist'", "'sel'"))
    check(type(dup) is type(root) and dup is not root, "type of the copy: %r", type(dup))
    eq(describe(dup, []), before, f"{how} of {rk}")
    if rk == "emp":
        eq((dup._p, dup.extra), (5, "e"), "private attribute and extra field of the copy")
    for n in nodes(dup, []):
        if type(n) in T.RECORDS.values():
            check(not shallow and n.events.all.instance is n or shallow, "events.all.instance of a copied %s is not the copy", type(n).__name__)
        if type(n) is T.SelectableEventedList:
            check(private(n.selection, "_parent", n) is n, "the copied selection belongs to another list")
    if shallow and rk in T.RECORDS:
        check(dup.events.all.instance is dup, "events.all.instance of a shallow copy is not the copy")
    if not shallow:
        both = nodes(root, [])
        check(not any(m is n for m in nodes(dup, []) for n in both), "the copy shares a node with the original")
    if case["again"]:
        dup = _copied(dup, how)
        ctx.label("copy of a copy")
        eq(describe(dup, []), before, f"second {how} of {rk}")
    if between:
        return
    twin = build(describe(dup, []), [])  # (with the identical scalars)
    if rk == "emp":
        twin.extra = "e"
    keep_strong = how.startswith("pickle") and case["listen"] & 2
    dn, tn = ([dup], [twin]) if shallow else (nodes(dup, []), nodes(twin, []))
    eq([type(n) for n in dn], [type(n) for n in tn], "nodes of the copy")
    drecs, trecs = listen(dn), listen(tn)
    cops = oops = 0
    for who, op in case["post"]:
        for r in orecs + drecs + trecs:
            r.log.clear()
        glog.clear()
        if who == "c":
            obefore = describe(root, [])
            got = attempt(dup, op, shallow)
            strong = len(glog)
            glog.clear()
            check(not any(r.log for r in orecs), "%s on the copy called back the listeners of the original: %r", op, [r.log for r in orecs])
            check(not strong or keep_strong, "%s on the copy called functions connected to the original", op)
            dlog = [r.log[:] for r in drecs]
            want = attempt(twin, op, shallow)
            eq(got, want, f"result of {op} on the copy and a new object")
            eq(dlog, [r.log for r in trecs], f"events of {op} on the copy and a new object")
            eq(describe(dup, []), describe(twin, []), f"state after {op} of the copy and a new object")
            eq(describe(root, []), obefore, f"original after {op} on the copy")
            cops += any(dlog)
        else:
            dbefore = describe(dup, [])
            attempt(root, op, shallow)
            check(not any(r.log for r in drecs), "%s on the original called back the listeners of the copy", op)
            if not shallow:
                eq(describe(dup, []), dbefore, f"copy after {op} on the original")
            oops += any(r.log for r in orecs)
    ctx.nontrivial(bool(cops and oops))
    ctx.label("tree")


REGRESSIONS = [
    {"part": "sig", "shape": "free", "ops": [["conn", 0, 0, "f0", 0, 1], ["pause", 0, 0], ["emit", 0, 0, 3], ["copy", 0, "copy", 0, 0], ["emit", 1, 0, 3], ["resume", 0, 0], ["resume", 1, 0]]},
    {"part": "sig", "shape": "group", "ops": [["conn", 0, 3, "f0", 0, None], ["conn", 0, 0, "w0", 0, None], ["copy", 0, "pickle", 0, 0], ["emit", 1, 0, 3], ["emit", 0, 0, 4]]},
    {"part": "sig", "shape": "owner", "ops": [["conn", 0, 0, "w0", 0, None], ["copy", 0, "deepcopy", 1, 0], ["emit", 1, 0, 3], ["emit", 0, 0, 4]]},
    {"part": "sig", "shape": "plain", "ops": [["conn", 0, 1, "f0", 0, 1], ["pause", 0, 1], ["emit", 0, 1, 3], ["copy", 0, "deepcopy", 0, 0], ["emit", 1, 1, 3], ["resume", 0, 1], ["resume", 1, 1]]},
    {"part": "tree", "root": {"k": "em", "x": 1, "y": {"k": "list", "v": [1], "child": True, "hash": True}}, "how": "model_copy", "incb": 0, "listen": 1, "pre": [],
     "post": [["c", [1, 1, 0, 5, 0]], ["o", [1, 1, 0, 3, 0]]], "again": False},
    {"part": "tree", "root": {"k": "list", "v": [{"k": "em", "x": 1, "y": 2}], "child": True, "hash": True}, "how": "pickle", "incb": 0, "listen": 1, "pre": [],
     "post": [["c", [0, 1, 0, 5, 0]], ["o", [0, 1, 0, 3, 0]]], "again": False},
    {"part": "tree", "root": {"k": "emp", "x": 1, "y": {"k": "dc", "x": 1, "y": None}}, "how": "deepcopy", "incb": 1, "listen": 1, "pre": [],
     "post": [["c", [1, 1, 0, 5, 0]], ["o", [1, 1, 0, 3, 0]]], "again": False},
]
