"""C22: monitor_events sees every emission exactly once and leaves no trace."""
from __future__ import annotations

import gc
import weakref

from hypothesis import strategies as st

from harness.core import check, eq

ID = "C22"
RULE = (
    "A case is two objects of a generated class (own, inherited, private and slotted signals, signals with options, "
    "aliases, properties that raise or warn, a group, an evented dataclass, a group itself, a container, objects without truth value) and a history of "
    "emissions (also paused, blocked, reduced), user connections, and monitors of an object or of everything, opened and "
    "closed in any order, by exception, or from inside a callback, with loggers of every callable kind. Oracle: a model "
    "of the slots of each signal predicts every log and the number of slots. Non-trivial: at least two monitors "
    "overlapped, or one was opened or closed during an emission, and at least two reports were made."
)
ASSUMPTIONS = [
    "a group attribute counts as one signal, whose arguments are the EmissionInfo of the member",
    "emit_fast() is not reported to global monitors, and resume() of a signal without slots drops the emissions",
    "no emission of a 'latest-only' signal from its own callbacks (which drops the superseded one for all slots)",
]
QUICK, THOROUGH = 2500, 60000
QUICK_S = 20
SIGS = ["a", "b", "inh", "_priv", "slow", "typed", "named", "latest", "named2"]
LOGGERS = ["func", "lambda", "method", "default", "kwonly", "varargs", "callable", "partial", "append", "old", "same", "classm", "staticm"]
BASES = ["plain", "slots", "group", "dataclass", "withgroup", "list", "dict", "frozen", "falsy", "noeq"]
PLAIN = ("plain", "slots", "frozen", "falsy", "noeq")
EXTRAS = ["alias", "raise", "warn", "runtime", "boolerr", "galias", "relayalias", "kbd", "odd", "zero"]


def strategy(tier):
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    o, s, m = st.integers(0, 1), st.integers(0, 8), st.integers(0, 3)
    args = st.lists(st.integers(0, 3), max_size=3)
    target = st.sampled_from([0, 0, 0, 1, "all"])
    mon = T("open", m, target, st.booleans(), st.sampled_from(LOGGERS))
    op = st.one_of(
        T("emit", o, s, args), T("emit", st.just(0), s, args), T("emit", st.just(0), s, args), T("fast", o, s, args), mon, mon,
        T("close", m, st.sampled_from([False, False, True, "base", "exit", "gen"])), T("close", m, st.sampled_from([False, False, True, "base", "exit", "gen"])), T("pause", o, s), T("resume", o, s, st.booleans()), T("block", o, s), T("unblock", o, s),
        T("connect", o, s, st.integers(0, 2)), T("disconnect", o, s, st.integers(0, 2)), T("disconnectall", o, s),
        T("during", st.just(0), s, args, mon), T("during", st.just(0), s, args, T("close", m, st.sampled_from([False, False, True, "base", "exit", "gen"]))), T("iter", o, st.booleans()),
        T("burst", st.just(0), st.integers(0, 2), args, st.booleans()), T("burst", st.just(0), s, args, st.booleans()),
    )
    return st.fixed_dictionaries({
        "base": st.sampled_from(BASES),
        "sigs": st.lists(st.sampled_from(SIGS), min_size=1, max_size=5, unique=True),
        "extras": st.lists(st.sampled_from(EXTRAS), max_size=3, unique=True),
        "pre": st.lists(mon, min_size=0, max_size=2),
        "ops": st.lists(op, min_size=4, max_size=16 if tier == "quick" else 50),
    })


class Sig:
    """Model of one signal: the slots in order, and its state."""

    def __init__(self, name, inst):
        self.name, self.inst = name, inst
        self.slots = []  # ("user", k) | ("mon", id) | ("relay",)
        self.paused = self.blocked = False
        self.queue = []
        self.relay = None


def run_case(case, ctx):
    import functools
    import types
    import warnings
    from dataclasses import dataclass

    from psygnal import EmissionInfo, Signal, SignalGroup, SignalGroupDescriptor, SignalInstance
    from psygnal.containers import EventedDict, EventedList
    from psygnal.utils import iter_signal_instances, monitor_events

    base, sigs = case["base"], list(case["sigs"])
    mk = {
        "a": lambda: Signal(), "b": lambda: Signal(object, object), "inh": lambda: Signal(object), "_priv": lambda: Signal(object),
        "slow": lambda: Signal(object, reemission="queued"), "latest": lambda: Signal(object, reemission="latest-only"), "typed": lambda: Signal(int, check_types_on_connect=True), "named": lambda: Signal(object, name="other"), "named2": lambda: Signal(object, name="other"),
    }
    nargs = {"a": 0, "b": 2}
    if base in ("group", "withgroup"):
        sigs = [x for x in sigs if x not in ("_priv", "named", "named2")] or ["a"]

    def prop(exc):
        def get(self):
            raise exc("property")

        return property(get)

    def warnprop(self):
        warnings.warn("deprecated", FutureWarning)
        warnings.warn("deprecated", UserWarning)
        return 1

    extras = {
        "raise": ("a_raise", prop(AttributeError)), "warn": ("m_warn", property(warnprop)), "runtime": ("b_runtime", prop(RuntimeError)),
        "boolerr": ("c_value", prop(ValueError)), "kbd": ("z_lookup", prop(KeyError)), "odd": ("d_odd", prop(type("Odd", (Exception,), {}))), "zero": ("y_zero", prop(ZeroDivisionError)),
    }
    ns = {n: v for e, (n, v) in extras.items() if e in case["extras"]}
    if "alias" in case["extras"] and base not in ("group", "dataclass", "list", "dict"):
        first = next((x for x in sigs if x != "_priv"), "_priv")
        if base == "withgroup":
            ns["al"] = property(lambda self: self.grp[first])
        else:
            if first != "_priv":
                ns["al"] = property(lambda self: getattr(self, first))
            ns["_aa"] = property(lambda self: getattr(self, first))

    Parent = type("Parent", (), {"__slots__": (), **({"inh": mk["inh"]()} if "inh" in sigs and base in PLAIN else {})})
    own = {n: mk[n]() for n in sigs if n != "inh"}
    if base == "plain":
        cls = type("Obj", (Parent,), {**own, **ns})
    elif base == "frozen":

        def setattr_(self, k, v):
            raise AttributeError("frozen")

        cls = type("Obj", (Parent,), {**own, **ns, "__setattr__": setattr_})
    elif base == "falsy":
        cls = type("Obj", (Parent,), {**own, **ns, "__bool__": lambda self: False, "__len__": lambda self: 0})
    elif base == "noeq":  # like an array

        def fail(self, *a):
            raise ValueError("no truth value")

        cls = type("Obj", (Parent,), {**own, **ns, "__bool__": fail, "__eq__": fail, "__hash__": None})
    elif base == "slots":
        cls = type("Obj", (Parent,), {"__slots__": ("__weakref__",), **own, **ns})
    elif base == "group":
        cls = type("Grp", (SignalGroup,), {n: mk[n]() for n in sigs})
    elif base == "withgroup":
        G = type("Grp", (SignalGroup,), {n: mk[n]() for n in sigs})

        def init(self):
            self.grp = G(self)

        cls = type("Obj", (), {"__init__": init, "solo": Signal(object), **ns})
        if "galias" in case["extras"]:
            cls.grp2 = property(lambda self: self.grp)
        if "relayalias" in case["extras"]:
            cls.grp_all = property(lambda self: self.grp.all)
    elif base == "dataclass":
        cls = type("Data", (), {"__annotations__": {"x": int, "y": int}, "x": 1, "y": 2, "events": SignalGroupDescriptor(), **ns})
        cls = dataclass(cls)
    elif base == "list":
        cls = lambda: EventedList([1, 2])
    else:
        cls = lambda: EventedDict({"k": 1})

    class Obj:  # model of one object
        pass

    objs = []
    for _ in range(2):
        m = Obj()
        m.obj = cls()
        m.sigs = []
        m.relay = None
        if base in PLAIN:
            m.sigs = [Sig(n, getattr(m.obj, n)) for n in sigs]
            m.top = {s.name: s for s in m.sigs}
        else:
            g = {"group": lambda: m.obj, "withgroup": lambda: m.obj.grp}.get(base, lambda: m.obj.events)()
            m.sigs = [Sig(n, g[n]) for n in g]
            m.relay = Sig("relay", g.all)
            for s in m.sigs:
                s.relay = m.relay
            m.top = {"relay": m.relay}
            if base == "group":
                m.top = {s.name: s for s in m.sigs}
            if base == "withgroup":
                m.sigs.append(Sig("solo", m.obj.solo))
                m.top["solo"] = m.sigs[-1]
                if "alias" in case["extras"]:
                    m.top[first] = m.sigs[[s.name for s in m.sigs].index(first)]
        m.all = m.sigs + ([m.relay] if m.relay else [])
        objs.append(m)
    by_inst = {id(s.inst): s for m in objs for s in m.all}

    # ---- model
    want = {}  # log name -> expected entries
    glob = []  # ids of active global monitors
    mons = {}  # slot number -> dict
    got = {}
    nid = [0]
    hooks = {}  # temporary slot -> function run in the middle of an emission
    reports = [0]

    def add(key, entry):
        want.setdefault(key, []).append(entry)
        reports[0] += key[0] in ("mon", "glob")

    def deliver(sig, args):
        for slot in list(sig.slots):
            if slot not in sig.slots:
                continue
            if slot[0] == "relay":
                r = sig.relay
                entry = ((id(sig.inst), args),)
                if r.paused:
                    r.queue.append(entry)
                else:
                    deliver(r, entry)
            elif slot[0] == "during":
                hooks[slot]("model")
            else:
                add(slot, (id(sig.inst), args))

    def emit(sig, args, hook=True):
        if sig.blocked:
            return
        if sig.paused:
            sig.queue.append(args)
            return
        if hook:
            for g in list(glob):
                add(("glob", g), (id(sig.inst), args))
        deliver(sig, args)

    def attach(sig, slot):
        sig.slots.append(slot)
        if sig.name == "relay" and len(sig.slots) == 1:
            for m in objs:
                if m.relay is sig:
                    for s in m.sigs:
                        if s.relay and ("relay",) not in s.slots:
                            s.slots.append(("relay",))

    def detach(sig, slot):
        if slot in sig.slots:
            sig.slots.remove(slot)
        after_removal(sig)

    def after_removal(sig):
        if sig.name == "relay" and not sig.slots:
            for m in objs:
                if m.relay is sig:
                    for s in m.sigs:
                        if ("relay",) in s.slots:
                            s.slots.remove(("relay",))

    # ---- real
    def plain(args):
        return tuple((id(a.signal), plain(a.args)) if isinstance(a, EmissionInfo) else a for a in args)

    def logger(kind, key):
        log = got.setdefault(key, [])

        def rec(info):
            check(isinstance(info, EmissionInfo), "the logger got %r", info)
            log.append((id(info.signal), plain(info.args)))

        class Holder:
            def method(self, info):
                rec(info)

            @classmethod
            def cm(cls, info):
                rec(info)

            @staticmethod
            def sm(info):
                rec(info)

            def __call__(self, info):
                rec(info)

        class App(list):
            def append(self, info):
                rec(info)

        def old(name, args):
            log.append((name, plain(args)))

        def default(info, prefix="", other=None):
            rec(info)

        def kwonly(info, *, prefix=""):
            rec(info)

        return {
            "func": rec, "same": rec, "lambda": lambda i: rec(i), "method": Holder().method, "default": default, "kwonly": kwonly, "varargs": lambda *a: rec(*a),
            "callable": Holder(), "partial": functools.partial(default, prefix="x"), "append": App().append, "old": old, "classm": Holder.cm, "staticm": Holder.sm,
        }[kind]

    def user(k, sid):
        key = ("user", k)
        return users.setdefault((k, sid), _user(key, sid))

    users = {}

    def _user(key, sid):
        def f(*args):
            got.setdefault(key, []).append((sid, plain(args)))

        return f

    def open_(op, side):
        _, slot, target, priv, kind = op
        if side in ("model", "both"):
            if slot in mons:
                return
            if target == "all" and kind == "old":
                kind = "func"
            nid[0] += 1
            key = ("glob" if target == "all" else "mon", nid[0])
            mons[slot] = d = {"key": key, "target": target, "kind": kind, "sigs": [], "priv": priv, "cm": None}
            if target == "all":
                glob.append(nid[0])
            else:
                d["sigs"] = [s for n, s in objs[target].top.items() if priv or not n.startswith("_")]
                for s in d["sigs"]:
                    attach(s, key)
            ctx.label("logger-" + kind)
            if len(mons) > 1:
                flags.add("overlap")
        if side in ("real", "both"):
            d = mons.get(slot)
            if d is None or d["cm"] is not None:
                return
            lg = logger(d["kind"], d["key"])
            loggers.append((weakref.ref(getattr(lg, "__self__", lg) if d["kind"] in ("method", "append") else lg), d["kind"])) if d["kind"] not in ("classm", "staticm") else None
            if d["target"] == "all":
                d["cm"] = monitor_events(None, lg, d["priv"])
            else:
                d["cm"] = monitor_events(objs[d["target"]].obj, lg, include_private_attrs=d["priv"])
            d["cm"].__enter__()

    def close_(op, side):
        _, slot, exc = op
        if side in ("model", "both"):
            d = mons.pop(slot, None)
            if d is None:
                return
            closing.append((d, exc))
            if d["target"] == "all":
                glob.remove(d["key"][1])
            else:
                for s in d["sigs"]:
                    detach(s, d["key"])
        if side in ("real", "both"):
            while closing:
                d, exc = closing.pop()
                cm = d["cm"]
                if exc:
                    E = {True: ValueError, "base": KeyboardInterrupt, "exit": SystemExit, "gen": GeneratorExit}[exc]
                    err = E("inside")
                    try:
                        r = cm.__exit__(E, err, None)
                    except E as e:
                        check(e is err, "another exception left the context")
                        r = False
                    check(not r, "the exception was swallowed")
                else:
                    cm.__exit__(None, None, None)

    closing = []
    loggers = []
    flags = set()
    do = {"open": open_, "close": close_}

    def compare(where):
        for key in set(want) | set(got):
            w, g = want.get(key, []), got.get(key, [])
            if key[0] == "mon" and key in olds:
                w = [(by_inst[i].inst.name, a) for i, a in w]
            g, w = [names(x) for x in g], [names(x) for x in w]
            if base == "withgroup" and "alias" in case["extras"]:
                g, w = sorted(g, key=repr), sorted(w, key=repr)  # a member and its relay: in any order
            eq(g, w, f"{where}: what {key} got")
        want.clear()
        for g in got.values():
            g.clear()
        for m in objs:
            for s in m.all:
                eq(len(s.inst), len(s.slots), f"{where}: number of slots of {s.name}")

    def names(e):
        return (by_inst[e[0]].name if e[0] in by_inst else e[0], e[1], e[0])

    olds = set()
    try:
        ops = list(case.get("pre", []))
        for op in case["ops"]:
            if op[0] == "burst":
                _, o, s, a, red = op
                ops += [["pause", o, s], ["emit", o, s, a], ["emit", o, s, [5, *a]], ["resume", o, s, red]]
            else:
                ops.append(op)
        for i, op in enumerate(ops):
            name = op[0]
            where = f"op {i} {op}"
            if name in do:
                do[name](op, "both")
                if name == "open" and op[1] in mons and mons[op[1]]["kind"] == "old":
                    olds.add(mons[op[1]]["key"])
            elif name == "iter":
                m = objs[op[1]]
                g = [id(s) for s in iter_signal_instances(m.obj, op[2])]
                w = [id(s.inst) for n, s in m.top.items() if op[2] or not n.startswith("_")]
                eq(sorted(g), sorted(w), f"{where}: signal instances")
            else:
                m = objs[op[1]]
                s = m.all[op[2] % len(m.all)]
                if s is m.relay and name not in ("pause", "resume", "connect", "disconnect"):
                    s = m.sigs[0]
                if name in ("emit", "fast", "during"):
                    # typed signals get what they declare
                    n = nargs.get(s.name, 1) if base not in ("dataclass", "list", "dict") else len(s.inst.signature.parameters)
                    a = tuple((op[3] + [7, 8, 9, 10])[:n])
                    if name == "during":
                        slot = ("during", i)
                        if s.blocked or s.paused:
                            continue
                        ran = {}

                        def hook(side, op=op[4]):
                            if side == "real" and side in ran:
                                return
                            ran[side] = True
                            do[op[0]](op, side)
                            if op[0] == "open" and op[1] in mons and mons[op[1]]["kind"] == "old":
                                olds.add(mons[op[1]]["key"])

                        hooks[slot] = hook
                        s.slots.insert(0, slot)
                        # the model runs first, including the opening or closing
                        emit(s, a)
                        s.slots.remove(slot)

                        def tmp(*args):
                            hook("real")

                        s.inst.connect(tmp, priority=100, check_nargs=False, check_types=False)
                        s.inst.emit(*a)
                        s.inst.disconnect(tmp)
                        flags.add("during")
                    elif name == "fast" and not glob and ("relay",) not in s.slots:
                        emit(s, a, hook=False)
                        s.inst.emit_fast(*a)
                    else:
                        emit(s, a)
                        s.inst.emit(*a)
                elif name == "pause":
                    s.paused = True
                    s.inst.pause()
                elif name == "resume":
                    if not s.slots and s.queue:
                        attach(s, ("user", 9))
                        s.inst.connect(user(9, id(s.inst)), check_nargs=False, check_types=False)
                    s.paused = False
                    q, s.queue = s.queue, []
                    if q and op[3]:
                        q = [functools.reduce(lambda x, y: y, q)]
                    for a in q:
                        if s is not m.relay:
                            for g in list(glob):
                                add(("glob", g), (id(s.inst), a))
                        deliver(s, a)
                    s.inst.resume(*([lambda x, y: y] if op[3] else []))
                    ctx.label("resume" + ("-events" if q else ""))
                elif name == "block":
                    s.blocked = True
                    s.inst.block()
                elif name == "unblock":
                    s.blocked = False
                    s.inst.unblock()
                elif name == "connect":
                    if ("user", op[3]) not in s.slots:
                        attach(s, ("user", op[3]))
                        s.inst.connect(user(op[3], id(s.inst)), check_nargs=False, check_types=False)
                elif name == "disconnect":
                    if s is m.relay and ("user", op[3]) not in s.slots:
                        continue  # would also disconnect it from the members
                    detach(s, ("user", op[3]))
                    s.inst.disconnect(user(op[3], id(s.inst)))
                elif name == "disconnectall":
                    s.slots.clear()
                    s.inst.disconnect()
            compare(where)
        for slot in list(mons):
            close_(["close", slot, False], "both")
            compare(f"closing {slot}")
        closing.clear()
        if any(r() is not None for r, _ in loggers):
            gc.collect()
            for r, kind in loggers:
                check(r() is None, "the logger (%s) is still referenced after its monitor was closed", kind)
    finally:
        SignalInstance._debug_hook = None
        for d in list(mons.values()):
            try:
                d["cm"].__exit__(None, None, None)
            except BaseException:
                pass
        SignalInstance._debug_hook = None
    for f in flags:
        ctx.label(f)
    ctx.label("base-" + base)
    ctx.nontrivial(bool(flags) and reports[0] >= 2)


REGRESSIONS = [
    {"base": "plain", "sigs": ["a", "b", "_priv"], "extras": ["runtime", "alias"],
     "ops": [["iter", 0, True], ["open", 0, 0, True, "method"], ["open", 1, "all", False, "method"], ["emit", 0, 1, [1, 2]], ["open", 2, "all", False, "func"],
             ["emit", 0, 2, [1]], ["close", 1, True], ["emit", 0, 0, []], ["close", 2, False], ["close", 0, False]]},
    {"base": "withgroup", "sigs": ["a", "b"], "extras": ["galias", "relayalias"],
     "ops": [["open", 0, 0, False, "func"], ["open", 1, "all", False, "default"], ["connect", 0, 0, 0], ["pause", 0, 0], ["emit", 0, 0, []], ["resume", 0, 0, False],
             ["disconnectall", 0, 1], ["emit", 0, 1, [1, 2]], ["close", 0, True], ["emit", 0, 0, []]]},
]
