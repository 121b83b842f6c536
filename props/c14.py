"""C14: EventedModel emits for every field change, only for changes, with new values."""
from __future__ import annotations

import warnings

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C14"
RULE = (
    "A case is a generated EventedModel class (1-4 fields of 9 kinds incl. constrained, normalised, array, Any, nested "
    "model, frozen; tricky field names; 0-3 properties with setters and explicit, partial, guessed or no dependencies; "
    "an optional model validator; validate_assignment, re-emission mode) and a history of sets, updates, resets, "
    "nested sets, (dis)connections of field/group listeners, reacting and raising callbacks. Values and events are "
    "compared with a table-driven model. Non-trivial: a listened field changed and an event was expected, and an "
    "operation that must stay silent (equal value or failed validation) happened on a listened field too."
)
ASSUMPTIONS = [
    "a property without declared dependencies is only compared when it is itself assigned (documented)",
    "the order of events within one assignment is not specified; between the assignments of update() it is",
    "with re-emission 'immediate', listeners may see an outdated value last",
]
QUICK, THOROUGH = 2000, 30000
QUICK_S = 25
PLAIN = ["a", "b", "c", "d"]
TRICKY = ["name", "connect", "count", "all", "block", "keys", "instance", "paused", "emit", "get", "disconnect", "unblock"]
BAD = "!bad"

# kind -> list of (raw token, coerced under validation or BAD); first entry is the default
POOLS = {
    "int": [(0, 0), (1, 1), (2, 2), ("3", 3), ("x", BAD), (1.0, 1), (True, 1), (1000, 1000)],
    "nonneg": [(0, 0), (1, 1), (5, 5), (-1, BAD), ("2", 2)],
    "lower": [("", ""), ("a", "a"), ("A", "a"), ("B", "b"), (3, BAD)],
    "float": [(0.0, 0.0), (1.5, 1.5), ("2.5", 2.5), (2, 2.0), ("nan", float("nan")), ("q", BAD)],
    "list": [([], []), ([1], [1]), (["1"], [1]), ([1, 2], [1, 2]), (["x"], BAD), ("no", BAD)],
    "opt": [(None, None), (1, 1), ("2", 2), (0, 0), ("z", BAD)],
    "arr": [("@arr", [1, 2]), ("@arr", [1, 2]), ("@arr", [3, 4]), ("@arr", [1, 2, 3]), ("@list", BAD)],
    "any": [(None, None), (1, 1), ("s", "s"), ("@arr", [1, 2]), ("@arr", [1, 2]), ("@arr", [7, 8]), (["q"], ["q"]),
            ("@ragged", 0), ("@ragged", 0), ("@bare", 0), ("@bare", 1), ((1, 2), (1, 2)), ([1, 2], [1, 2])],
    "nested": [("@R", (5, "q")), ("@R", (0, "")), ("@R", (1, "")), ("@R", (9, "d")), ("@dict", (5, ".")), ("@bad", BAD), ("@R2", (5, "q")), ("@R2", (1, ""))],
    "frozen": [(0, 0), (1, 1)],
}
KINDS = list(POOLS)
PROPS = ["pair", "first", "half", "clamp", "private", "fail", "swap", "via", "wave"]


def strategy(tier):
    kind = st.sampled_from(KINDS + ["int", "int", "int", "any", "any"])
    obs = st.integers(0, 7)
    val = st.integers(0, 12)
    target = st.one_of(obs, obs, st.just("group"), st.just("all"))
    setop = st.tuples(st.just("set"), obs, val).map(list)
    ops = st.one_of(
        setop, setop, setop, setop, setop,
        st.tuples(st.just("again"), obs, val).map(list),
        st.tuples(st.just("again"), obs, val).map(list),
        st.tuples(st.just("update"), st.lists(st.tuples(obs, val).map(list), max_size=4), st.booleans()).map(list),
        st.tuples(st.just("mupdate"), st.lists(val, min_size=4, max_size=4), st.booleans()).map(list),
        st.just(["reset"]),
        st.tuples(st.just("listen"), target).map(list),
        st.tuples(st.just("unlisten"), target).map(list),
        st.tuples(st.just("nested"), st.sampled_from(["x", "y"]), val).map(list),
        st.tuples(st.just("react"), obs, obs, val).map(list),
        st.tuples(st.just("raise"), obs).map(list),
        st.tuples(st.just("pair"), val, val).map(list),
    )
    return st.fixed_dictionaries({
        "fields": st.lists(kind, min_size=1, max_size=4),
        "names": st.one_of(st.just(None), st.just(None), st.lists(st.sampled_from(TRICKY), min_size=4, max_size=4, unique=True)),
        "props": st.lists(st.tuples(st.sampled_from(PROPS), st.integers(0, 3), st.integers(0, 3),
                                    st.sampled_from(["both", "both", "first", "none"]), st.booleans()).map(list), max_size=3),
        "guess": st.booleans(),
        "va": st.booleans(),
        "couple": st.sampled_from([False, False, False, True]),
        "inherit": st.booleans(),
        "reem": st.sampled_from([None, "immediate", "queued", "latest-only"]),
        "start": st.lists(target, max_size=5),
        "ops": st.lists(ops, min_size=1, max_size=12 if tier == "quick" else 30),
    })


class Boom(Exception):
    pass


class NR:  # the nested model as the oracle sees it
    def __init__(self, x, y, sub=False):
        self.x, self.y, self.sub = x, y, sub

    def dump(self):
        return {"x": self.x, "y": self.y}

    def __repr__(self):
        return f"NR({self.x!r},{self.y!r})"


class Incomparable:
    def __eq__(self, other):
        raise ValueError("not comparable")

    __hash__ = None


INCOMPARABLE = [Incomparable(), Incomparable()]


def feq(kind, a, b):
    """Are two field values equal under the field's equality?"""
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return bool(np.array_equal(a, b))
    if isinstance(a, Incomparable) or isinstance(b, Incomparable):
        return a is b
    if isinstance(a, NR):
        a = a.dump()
    if isinstance(b, NR):
        b = b.dump()
    return bool(a == b)


def same(got, want):
    import numpy as np

    if isinstance(want, np.ndarray):
        return isinstance(got, np.ndarray) and bool(np.array_equal(got, want))
    if isinstance(want, NR):
        return type(got).__name__ == ("R2" if want.sub else "R") and same(got.x, want.x) and same(got.y, want.y)
    if isinstance(want, Incomparable) or isinstance(got, Incomparable):
        return got is want
    if isinstance(want, float) and want != want:
        return isinstance(got, float) and got != got
    if isinstance(want, (list, tuple)) and type(got) is type(want):
        return len(got) == len(want) and all(map(same, got, want))
    return type(got) is type(want) and got == want


_BASES = {}


def base_classes():
    if not _BASES:
        import numpy as np
        import pydantic
        import psygnal

        class R(psygnal.EventedModel):
            x: int = 9
            y: str = "d"

        class R2(R):
            pass

        _BASES["R"], _BASES["R2"] = R, R2
        _BASES["np"] = np
        _BASES["pd"] = pydantic
    return _BASES


def run_case(case, ctx):
    import numpy as np
    import pydantic
    from pydantic import AfterValidator, Field
    from typing import Annotated, Any, Optional

    from psygnal import EmitLoopError, EventedModel

    R = base_classes()["R"]
    R2 = _BASES["R2"]
    nr = lambda v: NR(v.x, v.y, isinstance(v, R2))  # noqa: E731
    va = case["va"] or case["couple"]
    kinds = list(case["fields"])
    names = list((case["names"] or PLAIN)[: len(kinds)])
    ANN = {
        "int": int, "nonneg": Annotated[int, Field(ge=0)], "lower": Annotated[str, AfterValidator(str.lower)],
        "float": float, "list": list[int], "opt": Optional[int], "arr": np.ndarray, "any": Any, "nested": R,
        "frozen": int,
    }

    def raw(kind, i):
        """(value given to psygnal, value the field has then or BAD, same for the raw side)"""
        pool = POOLS[kind]
        token, co = pool[i % len(pool)]
        if token == "@arr":
            a = np.array(co)
            return a, a
        if token == "@ragged":
            return [[1], [1, 2]], [[1], [1, 2]]
        if token == "@bare":
            return INCOMPARABLE[co], INCOMPARABLE[co]
        if token == "@list":
            return [1, 2], (BAD if va else [1, 2])
        if token == "@R":
            return R(x=co[0], y=co[1]), NR(*co)
        if token == "@R2":
            return R2(x=co[0], y=co[1]), NR(*co, True)
        if token == "@dict":
            return {"x": co[0], "y": co[1]}, (NR(*co) if va else {"x": co[0], "y": co[1]})
        if token == "@bad":
            return {"x": "no"}, (BAD if va else {"x": "no"})
        if token == "nan":
            v = float("nan")
            return v, v
        if isinstance(token, list):
            token = list(token)
        if not va:
            return token, token
        return token, (list(co) if isinstance(co, list) else co)

    # ------------------------------------------------------------ class
    ns = {"__module__": __name__, "__annotations__": {}}
    state = {}
    for n, k in zip(names, kinds):
        ns["__annotations__"][n] = ANN[k]
        dflt = POOLS[k][0]
        if k == "arr":
            ns[n] = Field(default_factory=lambda: np.array([1, 2]))
            state[n] = np.array([1, 2])
        elif k == "nested":
            ns[n] = R(x=5, y="q") if case["guess"] else Field(default_factory=lambda: R(x=5, y="q"))
            state[n] = NR(5, "q")
        elif k == "list":
            ns[n] = Field(default_factory=list)
            state[n] = []
        elif k == "frozen":
            ns[n] = Field(default=0, frozen=True)
            state[n] = 0
        else:
            ns[n] = dflt[0]
            state[n] = dflt[0]
    defaults_kind = dict(zip(names, kinds))
    if case["couple"]:
        ns["__annotations__"].update(cx=int, cy=int)
        ns["cx"], ns["cy"] = 3, 1
        state["cx"], state["cy"] = 3, 1
        defaults_kind.update(cx="couple", cy="couple")

        def clip(cls, values):
            if "cx" in values and "cy" in values:
                values["cy"] = min(values["cy"], values["cx"])
            return values

        ns["clip"] = pydantic.model_validator(mode="before")(classmethod(clip))
    fnames = list(state)
    deps = {}
    cfg_deps = {}
    if case["couple"]:
        cfg_deps["cy"] = ["cx"]
        deps.setdefault("cx", set()).add("cy")
    props = {}
    glob = {"R": R, "Boom": Boom}
    for n, (kind, i, j, decl, computed) in enumerate(case["props"]):
        p = f"p{n}"
        simple = [f for f, k in zip(names, kinds) if k not in ("arr", "any", "nested")]
        if not simple:
            kind, simple = "private", names
        f1, f2 = simple[i % len(simple)], simple[j % len(simple)]
        if kind in ("pair", "swap") and f1 == f2:
            kind = "first"
        via = next((q for q, k in props.items() if k[0] == "first" and q in deps.get(k[1], ())), None)
        if kind == "via" and not via or kind == "wave" and not case["couple"]:
            kind = "first"
        if kind == "via":
            f1 = props[via][1]
        src = {
            "via": f"def g(self): return self.{f1}\ndef s(self, v):\n o = self.{f1}; self.{f1} = v; self.{via} = o",
            "wave": "def g(self): return [self.cx, self.cy]\ndef s(self, v): self.cx = v; self.cx = 3; self.cy = 1",
            "pair": f"def g(self): return [self.{f1}, self.{f2}]\ndef s(self, v): self.{f1}, self.{f2} = v",
            "swap": f"def g(self): return [self.{f1}, self.{f2}]\ndef s(self, v): self.{f2}, self.{f1} = self.{f1}, self.{f2}",
            "first": f"def g(self): return self.{f1}\ndef s(self, v): self.{f1} = v",
            "half": f"def g(self):\n v = self.{f1}\n return v // 2 if isinstance(v, (int, float)) and v == v else -1\n"
                    f"def s(self, v): self.{f1} = v * 2 if type(v) is int else v",
            "clamp": f"def g(self): return self.{f1}\ndef s(self, v): self.{f1} = 0 if type(v) is int and v < 2 else v",
            "private": f"def g(self): return self._store.get({p!r}, 0)\n"
                       f"def s(self, v): self._store[{p!r}] = v % 3 if type(v) is int else v",
            "fail": f"def g(self):\n v = self.{f1}\n if v == 2: raise Boom('getter')\n return v\n"
                    f"def s(self, v): self.{f1} = v",
        }[kind]
        loc = {}
        exec(src, glob, loc)
        prop = property(loc["g"], loc["s"])
        ns[p] = pydantic.computed_field(return_type=Any)(prop) if computed and kind != "fail" else prop
        if kind == "wave":
            f1, f2 = "cx", "cy"
        if kind == "via":
            f2 = via
        uses = [] if kind == "private" else ["cx", "cy"] if kind == "wave" else [f1, f2] if kind in ("pair", "swap") else [f1]
        declared = {"both": uses, "first": uses[:1], "none": []}[decl]
        if case["guess"]:
            pass
        elif declared:
            cfg_deps[p] = declared
        props[p] = (kind, f1, f2)
        for f in uses if case["guess"] else declared:
            deps.setdefault(f, set()).add(p)
    if any(k == "private" for k, *_ in props.values()):
        ns["_store"] = pydantic.PrivateAttr(default_factory=dict)
    cfg = {"arbitrary_types_allowed": True, "validate_assignment": va}
    if props:
        cfg["allow_property_setters"] = True
    if case["guess"] and props:
        cfg["guess_property_dependencies"] = True
    if cfg_deps:
        cfg["field_dependencies"] = cfg_deps
    if case["reem"]:
        cfg["reemission"] = case["reem"]
    ns["model_config"] = cfg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        M = type(EventedModel)("M", (EventedModel,), ns)
        if case["inherit"]:
            M = type(EventedModel)("M2", (M,), {"__module__": __name__})
    delayed = bool(deps)
    m = M()
    group = m.events
    store = {}
    signals = [f for f in fnames if defaults_kind[f] != "frozen"] + list(props)
    eq(sorted(group), sorted(signals), "signals of the model")
    if not signals:
        return
    allobs = fnames + list(props)

    # ------------------------------------------------------------ oracle
    class Fail(Exception):
        """the operation must raise"""

    class GetFail(Exception):
        pass

    def pget(p):
        kind, f1, f2 = props[p]
        v = state[f1]
        if kind in ("pair", "swap", "wave"):
            return [v, state[f2]]
        if kind == "half":
            return v // 2 if isinstance(v, (int, float)) and v == v else -1
        if kind == "private":
            return store.get(p, 0)
        if kind == "fail" and v == 2:
            raise GetFail()
        return v

    def look(n):
        return state[n] if n in state else pget(n)

    def peq(p, a, b):
        if props[p][0] in ("pair", "swap", "wave"):
            # lists of field values: == on lists uses identity first
            try:
                return all(x is y or bool(x == y) if not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray)
                           and not isinstance(x, NR) and not isinstance(y, NR)
                           else x is y or feq("", x, y) for x, y in zip(a, b))
            except Exception:
                raise Skip from None
        return feq("", a, b)

    def oset(n, value, co):
        """Assign on the oracle's side. value: raw as python value, co: its coerced form."""
        if n in props:
            kind, f1, f2 = props[n]
            if kind == "pair":
                (r1, c1), (r2, c2) = value
                oset(f1, r1, c1)
                oset(f2, r2, c2)
            elif kind == "swap":
                a, b = state[f1], state[f2]
                oset(f2, a, recheck(f2, a))
                oset(f1, b, recheck(f1, b))
            elif kind == "wave":
                oset("cx", value, value)
                oset("cx", 3, 3)
                oset("cy", 1, 1)
            elif kind == "via":
                o = state[f1]
                oset(f1, value, co)
                oset(f2, o, recheck(f1, o))
            elif kind == "private":
                store[n] = value % 3 if type(value) is int else value
            else:
                if kind == "half" and type(value) is int:
                    value = value * 2
                    co = recheck(f1, value)
                elif kind == "clamp" and type(value) is int and value < 2:
                    value = 0
                    co = recheck(f1, value)
                oset(f1, value, co)
            return
        k = defaults_kind[n]
        if k == "frozen":
            raise Fail()
        if isinstance(co, str) and co == BAD:
            raise Fail()
        state[n] = co
        if case["couple"] and n != "cy":
            state["cy"] = min(state["cy"], state["cx"])
        assigned.add(n)

    def recheck(f, v):
        """Coerce an arbitrary int-like value for field f."""
        k = defaults_kind[f]
        if not va or k in ("frozen",):
            return v
        if isinstance(v, NR):
            return v if k in ("nested", "any") else BAD
        try:
            out = ADAPT(k, v)
        except pydantic.ValidationError:
            return BAD
        return out

    def ADAPT(k, v):
        ta = _ADAPTERS.get(k)
        if ta is None:
            ta = _ADAPTERS[k] = pydantic.TypeAdapter(ANN[k], config=None if k == "nested" else {"arbitrary_types_allowed": True})
        out = ta.validate_python(v)
        return nr(out) if isinstance(out, R) else out

    class Skip(Exception):
        pass

    # ------------------------------------------------------------ listeners
    log = []  # (who, signal name, value)
    listening = {}
    silent_done = [False]
    event_done = [False]

    def value_ok(n, got, where):
        cur = getattr(m, n)
        if n in state:
            check(cur is got, "%s: emitted %r while %s is %r", where, got, n, cur)

    strict_value = [True]

    def listener(t):
        if t in ("group", "all"):
            def cb(info):
                log.append((t, info.signal.name, info.args[0], len(info.args)))
        else:
            def cb(*args):
                log.append((t, t, args[0], len(args)))
                if strict_value[0]:
                    value_ok(t, args[0], "listener of " + t)
        return cb

    def listen(t):
        t = signals[t % len(signals)] if isinstance(t, int) else t
        if t in listening:
            return
        cb = listening[t] = listener(t)
        (group if t == "group" else group.all if t == "all" else group[t]).connect(cb)

    def unlisten(t):
        t = signals[t % len(signals)] if isinstance(t, int) else t
        if t in listening:
            (group if t == "group" else group.all if t == "all" else group[t]).disconnect(listening.pop(t))

    nlog = []
    nseen = []

    def watch_nested():
        for f in fnames:
            if defaults_kind[f] == "nested":
                r = getattr(m, f)
                if isinstance(r, R) and not any(r is x for x in nseen):
                    nseen.append(r)
                    r.events.connect(lambda info, r=r: nlog.append((id(r), info.signal.name, info.args)))

    watch_nested()
    for t in case["start"]:
        listen(t)
    pending = []  # one-shot callbacks that may disturb
    fired = []
    shots = set()

    def check_state():
        for f in fnames:
            got = getattr(m, f)
            if not same(got, state[f]):
                raise Violation(f"{f} is {got!r}, expected {state[f]!r}")
        for p in props:
            try:
                want = pget(p)
            except GetFail:
                continue
            got = getattr(m, p)
            if not same(got, want):
                raise Violation(f"property {p} is {got!r}, expected {want!r}")

    assigned = set()

    def snapshot():
        out = {}
        for n in signals:
            try:
                v = look(n)
                out[n] = list(v) if isinstance(v, list) else NR(v.x, v.y, v.sub) if isinstance(v, NR) else v
            except GetFail:
                out[n] = GetFail
        return out

    def heard(n):
        return n in listening or n in shots or "group" in listening or "all" in listening

    def expect_assign(n, value, co):
        """Perform one assignment on the oracle; return (expected events, must_fail, unsure)."""
        before = snapshot()
        assigned.clear()
        failed = False
        try:
            oset(n, value, co)
        except Fail:
            failed = True
        after = snapshot()
        ev = []
        unsure = set()
        getfail = any(heard(s) and (before[s] is GetFail or after[s] is GetFail) for s in props)
        direct = set(assigned) | ({n} if n in props else set())
        related = set(direct)
        for f in assigned:
            related |= deps.get(f, set())
        for s in signals:
            if s not in related:
                continue
            b, a = before[s], after[s]
            if b is GetFail or a is GetFail:
                unsure.add(s)
                continue
            equal = peq(s, b, a) if s in props else feq("", b, a)
            if not equal and s in props and s not in direct and not any(
                s in deps.get(f, ()) and not feq("", before[f], after[f]) for f in assigned if f in signals
            ):
                unsure.add(s)  # (it may have changed through a dependency that was not declared)
            if not equal:
                ev.append((s, a))
            elif heard(s):
                silent_done[0] = True
        if failed and heard(n):
            silent_done[0] = True
        if failed and n in props:
            unsure.add(n)
        if failed:  # a NaN differs from itself: it may be announced again
            unsure |= {s for s in signals if isinstance(after[s], float) and after[s] != after[s]}
        return ev, failed, unsure, getfail

    def run_op(do, groups, must_fail, unsure, anyfail, what):
        """do() performs the operation; groups: per assignment, the expected events."""
        log.clear()
        fired.clear()
        strict_value[0] = not pending
        err = None
        try:
            do()
        except Exception as e:  # noqa: BLE001
            err = e
        if fired or anyfail:
            # disturbed: only the weak invariants hold
            if err is not None and not any(x == "raise" for x in fired) and not anyfail and not must_fail:
                if isinstance(err, (pydantic.ValidationError, EmitLoopError, Boom)):
                    pass  # a reacting callback assigned an invalid value
                else:
                    raise Violation(f"{what}: {type(err).__name__}: {err}")
            if "raise" in fired:
                check(isinstance(err, (EmitLoopError, Boom)), "%s: a callback raised, but the operation gave %r", what, err)
            return err, True
        if must_fail:
            check(isinstance(err, pydantic.ValidationError), "%s: must be refused, got %r", what, err)
        elif err is not None:
            raise Violation(f"{what}: {type(err).__name__}: {err}")
        # expected log per listener
        for t in listening:
            got = [(s, v, n) for (w, s, v, n) in log if w == t]
            for s, v, n in got:
                check(n == 1, "%s: %s emitted with %d arguments", what, s, n)
            pos = 0
            for ev, uns in groups:
                want = [(s, v) for s, v in ev if s not in uns and t in ("group", "all", s)]
                chunk = []
                rest = list(want)
                while pos < len(got) and (rest or got[pos][0] in uns):
                    s, v, _ = got[pos]
                    if s in uns:
                        pos += 1
                        continue
                    for k, (ws, wv) in enumerate(rest):
                        if ws == s and same(v, wv):
                            del rest[k]
                            break
                    else:
                        break
                    chunk.append(s)
                    pos += 1
                if rest:
                    raise Violation(f"{what}: listener {t!r} got {[(s, v) for s, v, _ in got]!r}, missing {rest!r}")
                if want:
                    event_done[0] = True
            check(pos == len(got), "%s: listener %r got unexpected events %r", what, t, [(s, v) for s, v, _ in got[pos:]])
        return err, False

    def resync():
        """After a disturbed operation take the model's state over (weak invariants checked by the caller)."""
        for f in fnames:
            v = getattr(m, f)
            state[f] = nr(v) if isinstance(v, R) else v
        s = getattr(m, "_store", None)
        if s is not None:
            store.clear()
            store.update(s)

    def weak(before, err, what, anyfail):
        if err is not None or anyfail or (case["reem"] == "immediate" and not delayed):
            return
        for t in listening:
            for s in signals:
                if t not in (s, "group", "all"):
                    continue
                if s in props and not any(s in d for d in deps.values()):
                    continue
                if case["couple"] and s == "cy":
                    continue
                seen = [v for (w, n, v, _) in log if w == t and n == s]
                try:
                    cur = look(s)
                except GetFail:
                    continue
                if seen:
                    last = seen[-1]
                    ok = same(last, cur) or feq("", nr(last) if isinstance(last, R) else last, cur) or s in props
                    check(ok, "%s: last value of %s seen by %r is %r, but the value is %r", what, s, t, last, cur)
                elif s in state and not isinstance(cur, NR):
                    check(feq("", before[s], cur) or same(cur, before[s]), "%s: %s changed from %r to %r but listener %r saw nothing",
                          what, s, before[s], cur, t)

    def prop_value(p, i):
        """(psygnal value, oracle value, coerced)"""
        kind, f1, f2 = props[p]
        if kind == "pair":
            a = raw(defaults_kind[f1], i)
            b = raw(defaults_kind[f2], i + 1)
            return [a[0], b[0]], [a, b], None
        if kind == "swap":
            return 0, 0, None
        if kind == "wave":
            return i % 5, i % 5, None
        if kind == "private":
            v = [0, 1, 2, 4, "s", 7][i % 6]
            return v, v, v
        v, co = raw(defaults_kind[f1], i)
        return v, (co if isinstance(co, NR) else v), co

    def obs_value(n, i):
        if n in props:
            return prop_value(n, i)
        if defaults_kind[n] == "couple":
            v = i % 5 if n == "cx" else min(i % 5, state["cx"])
            return v, v, v
        v, co = raw(defaults_kind[n], i)
        return v, v, co

    def snap_nested(f):
        v = state[f]
        return (v, v.x, v.y) if isinstance(v, NR) else None

    def nested_assign(f, attr, v):
        """oracle for m.f.attr = v on a live nested model (R does not validate assignments)"""
        r = state[f]
        old = getattr(r, attr)
        setattr(r, attr, v)
        return [] if feq("", old, v) else [(attr, (v,))]

    def op_sequence(steps, do, what):
        """steps: list of (kind, ...) assignments simulated in order until one fails"""
        groups, nested_ev, must_fail, anyfail = [], [], False, False
        unsure_all = set()
        before = snapshot()
        for s in steps:
            if s[0] == "set":
                ev, failed, unsure, gf = expect_assign(*s[1:])
                groups.append((ev, unsure))
                anyfail |= gf
                if failed:
                    must_fail = True
                    break
            else:
                _, f, attr, v = s
                got = nested_assign(f, attr, v)
                nested_ev += got
        nlog.clear()
        err, disturbed = run_op(do, groups, must_fail, unsure_all, anyfail, what)
        if disturbed:
            resync()
            weak(before, err, what, anyfail)
            pending[:] = [p for p in pending if p not in fired]
        else:
            eq([(n, a) for _, n, a in nlog], nested_ev, what + ": events of the nested model")
        check_state()
        watch_nested()

    check_state()
    todo = []
    for op in case["ops"]:
        if op[0] == "again":  # the same value (a new object, maybe) twice
            todo += [["set", *op[1:]], ["set", *op[1:]]]
        else:
            todo.append(op)
    for op in todo:
        k = op[0]
        try:
            if k == "listen":
                listen(op[1])
            elif k == "unlisten":
                unlisten(op[1])
            elif k == "set":
                n = allobs[op[1] % len(allobs)]
                v, ov, co = obs_value(n, op[2])
                op_sequence([("set", n, ov, co)], lambda: setattr(m, n, v), f"{n} = {v!r}")
            elif k == "pair":
                p = next((p for p in props if props[p][0] == "pair"), None)
                if p is None:
                    continue
                _, f1, f2 = props[p]
                a, b = raw(defaults_kind[f1], op[1]), raw(defaults_kind[f2], op[2])
                op_sequence([("set", p, [a, b], None)], lambda: setattr(m, p, [a[0], b[0]]), f"{p} = {[a[0], b[0]]!r}")
            elif k == "update":
                vals, steps = {}, []
                items = {}
                for i, v in op[1]:
                    n = allobs[i % len(allobs)]
                    if n != "cy" and (n not in props or props[n][0] != "fail"):  # update() reads the old value first
                        items[n] = v
                recurse = op[2]
                for n, i in items.items():
                    v, ov, co = obs_value(n, i)
                    if recurse and n in state and isinstance(state[n], NR) and isinstance(v, (dict, R)):
                        d = v if isinstance(v, dict) else {"x": v.x, "y": v.y}
                        steps += [("nset", n, a, d[a]) for a in d]
                    else:
                        steps.append(("set", n, ov, co))
                    vals[n] = v
                # the steps of a nested recursion depend on the state at that point: only the first may be nested
                op_sequence(steps, lambda: m.update(vals) if recurse and len(vals) % 2 else m.update(vals, recurse=recurse), f"update({vals!r}, recurse={recurse})")
            elif k == "mupdate":
                if "frozen" in kinds:
                    continue
                kw, steps = {}, []
                for f, i in zip(names, op[1]):
                    v, co = raw(defaults_kind[f], i)
                    if isinstance(co, str) and co == BAD:
                        continue
                    kw[f] = v
                try:
                    other = M(**kw)
                except pydantic.ValidationError:
                    continue
                for f in fnames:
                    v = getattr(other, f)
                    ov = nr(v) if isinstance(v, R) else v
                    if op[2] and isinstance(state[f], NR) and isinstance(v, R):
                        steps += [("nset", f, "x", v.x), ("nset", f, "y", v.y)]
                    else:
                        steps.append(("set", f, ov, ov))
                op_sequence(steps, lambda: m.update(other) if op[2] and op[1][0] % 2 else m.update(other, recurse=op[2]), f"update(M(**{kw!r}), recurse={op[2]})")
            elif k == "reset":
                steps = []
                for f in fnames:
                    kd = defaults_kind[f]
                    if kd == "frozen":
                        continue
                    if kd == "couple":
                        d = {"cx": 3, "cy": 1}[f]
                    elif kd == "arr":
                        d = np.array([1, 2])
                    elif kd == "nested":
                        if isinstance(state[f], NR) and not state[f].sub:
                            steps += [("nset", f, "x", 5), ("nset", f, "y", "q")]
                            continue
                        d = NR(5, "q")
                    elif kd == "list":
                        d = []
                    else:
                        d = POOLS[kd][0][0]
                    steps.append(("set", f, d, d))
                op_sequence(steps, lambda: m.reset(), "reset()")
            elif k == "nested":
                f = next((f for f in fnames if isinstance(state[f], NR)), None)
                if f is None:
                    continue
                v = op[2] % 4 if op[1] == "x" else ["", "d", "e", "f"][op[2] % 4]
                r = getattr(m, f)
                op_sequence([("nset", f, op[1], v)], lambda: setattr(r, op[1], v), f"{f}.{op[1]} = {v!r}")
            elif k == "react":
                src = signals[op[1] % len(signals)]
                dst = allobs[op[2] % len(allobs)]
                if dst == "cy":
                    continue
                v, _, _ = obs_value(dst, op[3])
                shots.add(src)
                one_shot(group[src], "react", fired, lambda dst=dst, v=v: setattr(m, dst, v), pending)
            elif k == "raise":
                src = signals[op[1] % len(signals)]
                shots.add(src)
                one_shot(group[src], "raise", fired, None, pending)
        except Skip:
            return
    ctx.nontrivial(event_done[0] and silent_done[0])
    ctx.label(*(f"kind:{k}" for k in set(kinds)), *(f"prop:{k[0]}" for k in props.values()),
              *(f"op:{o[0]}" for o in case["ops"]), "delayed" if delayed else "direct", f"va:{va}")


_ADAPTERS = {}


def one_shot(sig, kind, fired, act, pending):
    done = []
    pending.append(kind)

    def cb(*_):
        if done:
            return
        done.append(1)
        fired.append(kind)
        if kind == "raise":
            raise Boom()
        act()

    sig.connect(cb)


_B = {"names": None, "props": [], "guess": False, "va": False, "couple": False, "inherit": False, "reem": None}
REGRESSIONS = [
    # repaired: validation result emitted rather than the raw value; signal looked up by attribute
    {**_B, "fields": ["int"], "va": True, "start": [0], "ops": [["set", 0, 3], ["set", 0, 1], ["set", 0, 5]]},
    {**_B, "fields": ["int", "int"], "names": ["connect", "all", "block", "get"], "start": [0, 1],
     "ops": [["set", 0, 1], ["set", 1, 1]]},
    # repaired: a failing getter broke the model for good
    {**_B, "fields": ["int", "int"], "props": [["fail", 0, 1, "both", False]], "start": ["group"],
     "ops": [["set", 0, 2], ["set", 1, 1], ["set", 0, 1], ["set", 1, 2]]},
    # repaired: reset() of fields with default_factory, nested defaults
    {**_B, "fields": ["list", "nested"], "start": ["all"], "ops": [["set", 0, 1], ["set", 1, 1], ["reset"]]},
    # repaired: array vs. None switched to comparison by identity
    {**_B, "fields": ["any"], "start": [0], "ops": [["set", 0, 3], ["set", 0, 4], ["set", 0, 6], ["set", 0, 6]]},
    # repaired: update() converted nested models to dicts
    {**_B, "fields": ["nested", "any"], "start": [0], "ops": [["mupdate", [1, 1, 1, 1], False], ["set", 0, 0]]},
]
