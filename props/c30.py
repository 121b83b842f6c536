"""C30: an EmitLoopError tells what failed, where, and by which emission."""
from __future__ import annotations

import gc
import linecache
import os
import threading
from dataclasses import dataclass
from functools import partial

from hypothesis import strategies as st

from harness.core import check, eq

ID = "C30"
RULE = (
    "A signal (free, of an object, of a group or its relay, of an evented dataclass or model, or queued for a thread) with a "
    "callback that raises for one emission of a generated tree of nested emissions (any reemission mode), behind up to four "
    "further functions, in generated source files with known lines, with exceptions and local variables whose str and repr may "
    "fail. The message is compared with the one computed from the tree, the call path and the source. Non-trivial: an emission "
    "failed that was nested or whose error came from behind the callback."
)
ASSUMPTIONS = [
    "the wording is that of this version; only its facts (names, locations, depths, arguments, variables) are checked",
    "the emission of a signal is where the code outside psygnal calls emit, assigns the field, or resumes",
]
QUICK, THOROUGH = 2200, 30000
QUICK_S = 20

WHERE = ["free", "owner", "owner", "nested_owner", "member", "relay", "field", "model", "thread"]
HOW = ["emit", "emit", "call", "fast", "paused", "resume", "reduced"]


def strategy(tier):
    n = 5 if tier == "quick" else 9
    return st.fixed_dictionaries({
        "where": st.sampled_from(WHERE),
        "how": st.sampled_from(HOW),
        "mode": st.sampled_from(["immediate", "queued", "queued", "latest-only"]),
        # parent of each emission but the first
        "tree": st.lists(st.integers(0, n), max_size=n),
        "target": st.integers(0, n),
        "first": st.booleans(),
        "chain": st.integers(0, 4),
        "end": st.sampled_from(["raise", "raise", "raise", "stdlib", "from", "finally"]),
        "exc": st.sampled_from(["ValueError", "KeyError", "Own", "BadStr", "Empty", "Lines", "Inner", "Unicode"]),
        "cb": st.sampled_from(["fn", "lambda", "method", "callable", "partial", "builtin"]),
        "locals": st.lists(st.sampled_from(["int", "long", "badrepr", "str", "self", "none", "dict"]), max_size=4),
        "hide": st.booleans(),
        "odd": st.sampled_from([None, None, None, "len0", "boolerr", "eqerr"]),
        "file": st.sampled_from(["plain", "plain", "sibling", "below", "nosource", "named"]),
    })


class BadRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


class Own(Exception):
    pass


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no str")


class Outer:
    class Inner(Exception):
        pass


EXC = {"ValueError": lambda: ValueError("it's wrong"), "KeyError": lambda: KeyError("k"), "Own": lambda: Own(1, "two"), "BadStr": BadStr,
       "Empty": lambda: Own(), "Lines": lambda: Own("one\ntwo"), "Inner": lambda: Outer.Inner("x"), "Unicode": lambda: Own("äß→")}
LOCALS = {"int": lambda: 12345, "long": lambda: "x" * 200, "badrepr": BadRepr, "str": lambda: "it's", "self": lambda: 5, "none": lambda: None,
          "dict": lambda: {"a": [1]}}


def source(case):
    """The source of the user's module, and the line numbers in it."""
    lines, at = [], {}

    def add(text, mark=None):
        lines.append(text)
        if mark:
            at[mark] = len(lines)

    add("import json")
    add("")
    n = case["chain"]
    names = []
    for i, k in enumerate(case["locals"]):
        name = "self" if k == "self" else f"var{i}"
        names.append((name, k))
    if case["cb"] == "builtin":
        n = 0
    add("def callback(v):")
    add("    if TARGET(v):")
    add(f"        return step{n}(v)", "cb")
    add("")
    for i in range(n, 0, -1):
        add(f"def step{i}(v):")
        add(f"    return step{i - 1}(v)  # {i}", f"step{i}")
        add("")
    add("def step0(v):")
    for name, k in names:
        add(f"    {name} = LOCAL[{k!r}]")
    if case["end"] == "raise":
        add("    raise EXC()", "error")
    elif case["end"] == "stdlib":
        add("    return json.loads('{')", "lib")
    elif case["end"] == "from":
        add("    try:")
        add("        1 / 0")
        add("    except ZeroDivisionError as e:")
        add("        raise EXC() from e", "error")
    else:
        add("    try:")
        add("        raise EXC()", "error")
        add("    finally:")
        add("        v = v")
    add("")
    add("lam = lambda v: TARGET(v) and step%d(v)" % n, "lambda")
    add("")
    add("class Cls:")
    add("    def method(self, v):")
    add("        if TARGET(v):")
    add(f"            return step{n}(v)", "method")
    add("    def __call__(self, v):")
    add("        if TARGET(v):")
    add(f"            return step{n}(v)", "callable")
    add("")
    add("def part(x, v):")
    add("    if TARGET(v):")
    add(f"        return step{n}(v)", "partial")
    add("")
    add("def driver(v):")
    add("    for c in NEXT(v):")
    add("        FIRE(c)  # again", "nested")
    add("")
    add("def outer():")
    how = case["how"]
    if case["where"] in ("field", "model"):
        add("    OBJ.x = ARG(0)  # set", "outer")
    elif case["where"] == "thread":
        add("    FIRE(0)")
        add("    DRAIN()  # drain", "outer")
    elif how == "emit":
        add("    SIG.emit(ARG(0))  # emit", "outer")
    elif how == "call":
        add("    SIG(ARG(0))  # call", "outer")
    elif how == "fast":
        add("    SIG.emit_fast(ARG(0))  # fast", "outer")
    elif how == "paused":
        add("    with SIG.paused():", "outer")
        add("        SIG.emit(ARG(0))")
    elif how == "resume":
        add("    SIG.pause()")
        add("    SIG.emit(ARG(0))")
        add("    SIG.resume()  # resume", "outer")
    else:
        add("    SIG.pause()")
        add("    SIG.emit(ARG(7))")
        add("    SIG.emit(ARG(8))")
        add("    SIG.resume(lambda a, b: (ARG(0),))  # reduce", "outer")
    add("")
    add("def caller():")
    add("    outer()  # from here", "caller")
    return lines, at, names


def failing(case):
    """Return what fails: None, or (nesting depth, place in the queue, whether by the driver, waiting emissions)."""
    children = {i: [] for i in range(len(case["tree"]) + 1)}
    for i, p in enumerate(case["tree"], 1):
        children[p % i].append(i)
    t = case["target"] % len(children)
    mode = case["mode"]
    if mode == "queued":
        order = [0]
        for e in order:
            if e == t:
                return children, t, (0, order.index(e), False)
            order += children[e]
    found = []

    def run(e, depth):
        if case["first"]:  # the failing callback comes first
            if e == t:
                found.append(depth)
                raise StopIteration
        for c in children[e]:
            run(c, depth + 1)
        if not case["first"] and e == t and not (mode == "latest-only" and children[e]):
            found.append(depth)
            raise StopIteration

    try:
        run(0, 0)
    except StopIteration:
        return children, t, (found[0], 0, found[0] > 0)
    return children, t, None


def run_case(case, ctx):
    import psygnal
    from psygnal import EmitLoopError, EventedModel, Signal, SignalGroup, SignalInstance, emit_queued, evented

    case = dict(case)
    where, how = case["where"], case["how"]
    if where in ("field", "model"):
        case["mode"], case["tree"], how = "immediate", [], "emit"
    if where == "thread":
        case["tree"], case["mode"] = [], "immediate"
    if where == "relay" and how == "fast":
        how = "emit"  # (groups do not relay emit_fast)
    case["how"] = how
    if where == "relay" and case["cb"] == "builtin":
        case["cb"] = "fn"
    if where == "relay" or how == "fast":
        case["tree"] = []  # (what nests there is not the signal that fails)
    mode = case["mode"]
    root = os.path.dirname(psygnal.__file__)
    name = {"plain": "/srv/app/user.py", "sibling": root + "_plugins/user.py", "below": "/srv/psygnal/user.py", "nosource": "<user>",
            "named": "/srv/psygnal_user.py"}[case["file"]]
    lines, at, names = source(case)
    text = "\n".join(lines) + "\n"
    if case["file"] != "nosource":
        linecache.cache[name] = (len(text), None, [x + "\n" for x in lines], name)
    children, target, want = failing(case)
    arg = str if case["cb"] == "builtin" else int  # (int("x0") fails)
    builtin = case["cb"] == "builtin"

    class Value:
        """What is emitted: knows which emission it is."""

        def __init__(self, i):
            self.i = i

        def __repr__(self):
            return f"<value {self.i}>"

        def __int__(self):
            if self.i == target:
                return "not an int"
            return 1

    raised = []

    def exc():
        e = EXC[case["exc"]]()
        raised.append(e)
        return e

    ns = {"TARGET": lambda v: v.i == target, "NEXT": lambda v: children[v.i], "LOCAL": {k: f() for k, f in LOCALS.items()},
          "EXC": exc, "ARG": Value, "__name__": "user", "DRAIN": lambda: None}
    exec(compile(text, name, "exec"), ns)
    expect = None
    keep = None
    thread = None
    odd = {"len0": {"__len__": lambda self: 0}, "boolerr": {"__bool__": lambda self: 1 / 0},
           "eqerr": {"__eq__": lambda self, o: 1 / 0, "__hash__": None}}.get(case.get("odd"), {})
    OwnerCls = type("Owner", (), {"sig": Signal(object, reemission=mode), "__module__": "user.mod", **odd})
    if where == "free":
        sig = SignalInstance((object,), name="freely", reemission=mode)
        expect = "freely"
    elif where in ("owner", "thread"):
        keep = OwnerCls()
        sig = keep.sig
        expect = "user.mod.Owner.sig" if where == "owner" else ""
    elif where == "nested_owner":
        OwnerCls.__qualname__ = "Out.In"
        keep = OwnerCls()
        sig = keep.sig
        expect = "user.mod.Out.In.sig"
    elif where in ("member", "relay"):
        G = type("G", (SignalGroup,), {"a": Signal(object, reemission=mode), "b": Signal(int), "__module__": "user.g"})
        keep = G()
        sig = keep["a"]
        expect = "user.g.G.a" if where == "member" else None
    elif where == "field":
        @evented
        @dataclass(eq=False)
        class D:
            x: object = None

        D.__module__, D.__qualname__ = "user.d", "D"
        keep = D()
        sig = keep.events.x
        expect = None
    else:
        class M(EventedModel):
            model_config = {"arbitrary_types_allowed": True}
            x: object = None

        keep = M()
        sig = keep.events.x
        expect = None
    ns["SIG"], ns["OBJ"] = sig, keep
    ns["FIRE"] = None
    # the driver calls emit itself, in the user's file
    exec(compile("\n" * (at["nested"] - 3) + "def driver(v):\n    for c in NEXT(v):\n        SIG.emit(ARG(c))  # again\n", name, "exec"), ns)
    if case["file"] != "nosource":
        lines[at["nested"] - 1] = "        SIG.emit(ARG(c))  # again"
        linecache.cache[name] = (len(text), None, [x + "\n" for x in lines], name)
    holder = ns["Cls"]()
    cb = {"fn": ns["callback"], "lambda": ns["lam"], "method": holder.method, "callable": holder, "partial": partial(ns["part"], 1),
          "builtin": int}[case["cb"]]
    cbname, cbline = {"fn": ("callback", "cb"), "lambda": ("<lambda>", "lambda"), "method": ("method", "method"), "callable": ("__call__", "callable"),
                      "partial": ("part", "partial"), "builtin": (None, None)}[case["cb"]]
    conn = keep if where == "relay" else sig
    kw = {}
    if where == "thread":
        kw["thread"] = thread = threading.Thread()
        ns["DRAIN"] = lambda: None
        ns["FIRE"] = lambda i: sig.emit(Value(i))
        ns["DRAIN"] = partial(emit_queued, thread)
    if where == "relay":
        inner = cb

        def cb(info):
            return inner(info.args[0])

    if builtin:
        kw.update(check_nargs=False, max_args=1)
    if case["tree"]:
        sig.connect(ns["driver"], priority=-1 if case["first"] else 1)
    conn.connect(cb, **kw)
    ctx.label(where, mode, how)
    env = os.environ.get("PSYGNAL_HIDE_LOCALS")
    if case["hide"]:
        os.environ["PSYGNAL_HIDE_LOCALS"] = "1"
    try:
        ns["caller"]()
        err = None
    except EmitLoopError as e:
        err = e
    finally:
        os.environ.pop("PSYGNAL_HIDE_LOCALS", None)
        if env is not None:
            os.environ["PSYGNAL_HIDE_LOCALS"] = env
    try:
        if want is None:
            check(err is None, "an error of a callback that is not called: %s", err)
            ctx.label("none")
            return
        check(err is not None, "no error is raised")
        verify(case, ctx, err, raised, want, target, expect, name, lines, at, names, cbname, cbline, sig, how, where, builtin)
    finally:
        err = None
        linecache.cache.pop(name, None)


def verify(case, ctx, err, raised, want, target, expect, name, lines, at, names, cbname, cbline, sig, how, where, builtin):
    depth, place, nested = want
    msg = str(err)
    cause = err.__cause__
    if builtin:
        check(type(cause) is TypeError, "the cause is %r", cause)
        text = str(cause)
    elif case["end"] == "stdlib":
        text = str(cause)
        eq(type(cause).__name__, "JSONDecodeError", "cause")
    else:
        check(len(raised) == 1 and cause is raised[0], "the cause is %r", cause)
        try:
            text = str(cause)
        except RuntimeError:
            text = "<exception str() failed>"
    if expect is not None:
        check(f"While emitting signal {expect!r}," in msg, "the signal is not named %r in %s", expect, msg)
    else:
        check("While emitting signal '" in msg, "no signal in %s", msg)
    check(f"\n  {type(cause).__name__}: {text}\n" in msg, "no exception in %s", msg)

    def place_of(mark, func, suffix=None):
        ln = at[mark]
        s = f"{name}:{ln} in {func}\n"
        if suffix is not None:
            if case["file"] != "nosource":
                s += "      " + lines[ln - 1].strip()
            s += suffix
        return s

    # nesting
    if depth:
        check(f"\nnested {depth} level{'s' if depth > 1 else ''} deep" in msg, "nested %s deep: %s", depth, msg)
    else:
        check("level" not in msg.split("SIGNAL EMISSION")[0].replace(text, ""), "not nested: %s", msg)
    # the queue
    if case["mode"] == "queued" and place:
        check(f"queue-depth of {place}.\n" in msg, "failed at depth %s: %s", place, msg)
        check(f"Emitting arguments: (<value {target}>,)" in msg, "failed with value %s: %s", target, msg)
    else:
        check("queue-depth" not in msg, "no queued emission failed: %s", msg)
    # where it was emitted
    emit_part = msg.split("  CALLBACK CHAIN:")[0].split("# <-- SIGNAL WAS EMITTED HERE")
    check(len(emit_part) == 2, "no emission in %s", msg)
    if where == "relay" or not nested:
        loc, func = "outer", "outer"
    else:
        loc, func = "nested", "driver"
    check(emit_part[0].endswith(place_of(loc, func, "  ")), "emitted at %s: %s", place_of(loc, func, "  "), msg)
    if func == "outer":
        check(place_of("caller", "caller", "\n") in emit_part[0], "called from %s: %s", place_of("caller", "caller", ""), msg)
    # where it failed
    check("# <-- ERROR OCCURRED HERE" in msg, "no place of the error in %s", msg)
    before = msg.split("# <-- ERROR OCCURRED HERE")[0]
    if not builtin:
        if case["end"] == "stdlib":
            check("decoder.py:" in "".join(before.splitlines()[-2:]), "failed in json/decoder.py: %s", msg)
        else:
            check(before.endswith(place_of("error", "step0", "  ")), "failed at %s: %s", place_of("error", "step0", "  "), msg)
        chain = msg.split("  CALLBACK CHAIN:\n")
        check(len(chain) == 2, "no callbacks in %s", msg)
        if where != "relay":
            check(chain[1].startswith("    " + place_of(cbline, cbname)), "first callback %s: %s", place_of(cbline, cbname), msg)
        if case["end"] != "stdlib":
            n = case["chain"] + (where == "relay")
            check(f"... {n} more frames ..." in chain[1], "%s frames between: %s", n, msg)
    # the variables there
    if not builtin and case["end"] != "stdlib":
        tail = msg.split("# <-- ERROR OCCURRED HERE")[1]
        if case["hide"]:
            check("Local variables" not in tail and "var" not in tail.split("NOTE")[0], "hidden variables are shown: %s", msg)
        else:
            check("Local variables:" in tail, "no local variables in %s", msg)
            for n, k in names:
                if k == "self":
                    check(" self = " not in tail, "self is shown")
                    continue
                v = LOCALS[k]()
                if k == "badrepr":
                    shown = "<"
                else:
                    shown = repr(v)[:60]
                check(f" {n} = {shown}" in tail, "no %s = %s in %s", n, shown, msg)
            check(f" v = <value {target}>" in tail, "no v in %s", msg)
    ctx.label("failed")
    if place:
        ctx.label("queued at depth")
    ctx.nontrivial(bool(depth or place or case["chain"] or case["end"] != "raise"))


REGRESSIONS = []
