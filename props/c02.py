"""C02: connect() accepts a callable iff it can be called; it then gets the longest prefix it takes."""
from __future__ import annotations

import inspect
import typing
from collections import deque
from functools import partial, partialmethod, wraps

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C02"
RULE = (
    "A case is a signal signature (0-4 parameters, types, possibly defaults), a callable built from a generated "
    "parameter list (positional-only / ordinary / keyword-only, defaults, *args, **kwargs, annotations) in one of "
    "19 shapes, with or without postponed annotations (function, lambda, method, static/class method, callable object, partial, partial method, "
    "partialmethod, wraps-decorated, class, builtins, some with bound arguments), connect options and argument lists to emit. Acceptance is "
    "decided by really calling the callable with every prefix length. Non-trivial: the callable has at least one "
    "parameter, or is refused, or a type/nargs check is on."
)
ASSUMPTIONS = [
    "check_types is decided only for parameter types that are identical to or unrelated with the signal's types "
    "(the documentation does not fix variance)",
    "with explicit max_args or check_nargs=False the caller vouches for the callable",
]
QUICK, THOROUGH = 4000, 60000
QUICK_S = 20

SHAPES = ["fn", "meth", "static", "clsm", "callobj", "partial", "pmeth", "partialmethod", "wraps", "wrapsmeth",
          "cls", "builtin", "builtin", "qt"]
BUILTINS = ["append", "add", "deque", "update", "setdefault", "pupdate", "pupdate2", "psort", "pappend", "pinsert",
            "setattr1", "setattr2", "setattr3", "setattr_m", "setattr_pm", "setitem", "setitem1", "setitem2",
            "setitem_kw"]
TYPES = ["int", "str", "bytes", "A", "U", "UX", "ANY", "L", "L0", "AN", "None"]


def strategy(tier):
    param = st.fixed_dictionaries(
        {"kind": st.sampled_from(["po", "pk", "pk", "pk", "ko"]), "dflt": st.booleans(),
         "anno": st.sampled_from([None, None, None] + TYPES)}
    )
    return st.fixed_dictionaries(
        {
            "spec": st.lists(st.sampled_from(["int", "str", "A", "int", "U", "ANY", "L", "L0"]), max_size=4),
            "spec_dflt": st.sampled_from([0, 0, 0, 1, 2]),
            "bound": st.booleans(),
            "future": st.booleans(),
            "shape": st.sampled_from(SHAPES),
            "params": st.lists(param, max_size=4),
            "var": st.sampled_from([False, False, False, True]),
            "varanno": st.sampled_from([None, None, None, *TYPES]),
            "kw": st.sampled_from([False, False, True]),
            "npart": st.integers(0, 3),
            "kwpart": st.lists(st.integers(0, 3), max_size=2, unique=True),
            "builtin": st.sampled_from(BUILTINS),
            "check_nargs": st.sampled_from([None, None, True, False]),
            "check_types": st.sampled_from([None, None, True]),
            "where": st.sampled_from(["connect", "signal"]),
            "max_args": st.sampled_from([None, None, None, 0, 1, 2, 5]),
            "emits": st.lists(
                st.fixed_dictionaries(
                    {"types": st.lists(st.sampled_from(["int", "str", "A", "B", "L", "bool", "A2"]), max_size=5),
                     "n": st.sampled_from(["exact", "exact", "free"]),
                     "cn": st.booleans(), "ct": st.booleans()}
                ), min_size=1, max_size=3),
        }
    )


class A: ...


class B: ...


class A2(A): ...


U = typing.Union[int, str]
UX = int | str  # the PEP 604 spelling
VALUES = {"L": [1], "L0": [], "int": 7, "str": "s", "A": A(), "B": B(), "bytes": b"", "bool": True, "A2": A2()}
SUPER = {"bool": "int", "A2": "A"}  # values of a subclass are values of the class
NS = {"int": int, "str": str, "bytes": bytes, "A": A, "B": B, "U": U, "UX": UX, "ANY": typing.Any, "L": list[int], "L0": list,
      "AN": typing.Annotated[int, "meta"]}
MEMBERS = {"int": {"int"}, "str": {"str"}, "bytes": {"bytes"}, "A": {"A"}, "B": {"B"}, "U": {"int", "str"},
           "UX": {"int", "str"}, "L": {"L"}, "L0": {"L", "L0"}, "AN": {"int"}, "None": {"None"}, "ANY": {"int", "str", "bytes", "A", "B", "L", "L0", "None"}}


def _norm(params):
    """Make a legal parameter list: po before pk before ko; no non-default after default."""
    pos = [p for p in params if p["kind"] == "po"] + [p for p in params if p["kind"] == "pk"]
    ko = [p for p in params if p["kind"] == "ko"]
    seen = False
    out = []
    for p in pos:
        seen = seen or p["dflt"]
        out.append(dict(p, dflt=seen))
    return out, ko


def _render(case, self_name=None):
    pos, ko = _norm(case["params"])
    parts, names = [], []
    if self_name:
        parts.append(self_name)
    n_po = sum(p["kind"] == "po" for p in pos)
    for i, p in enumerate(pos):
        a = f": {p['anno']!s}" if p["anno"] else ""
        parts.append(f"p{i}{a}" + ("='dflt'" if p["dflt"] else ""))
        names.append(f"p{i}")
        if n_po and i == n_po - 1:
            parts.append("/")
    if case["var"]:
        parts.append("*va" + (f": {case['varanno']}" if case.get("varanno") else ""))
        names.append("va")
    elif ko:
        parts.append("*")
    for i, p in enumerate(ko):
        a = f": {p['anno']!s}" if p["anno"] else ""
        parts.append(f"k{i}{a}" + ("='dflt'" if p["dflt"] else ""))
        names.append(f"k{i}")
    if case["kw"]:
        parts.append("**kw")
        names.append("kw")
    return ", ".join(parts), "dict(" + ", ".join(f"{n}={n}" for n in names) + ")", pos, ko


_QT = []


def _qt():
    """An object with Qt signals, or None."""
    if not _QT:
        try:
            from PyQt6.QtCore import QObject, pyqtSignal
        except ImportError:
            _QT.append(None)
        else:
            _QT.append(type("Qt", (QObject,), {f"s{i}": pyqtSignal(*[object] * i) for i in range(4)}))
    return _QT[0] and _QT[0]()


def build(case, rec):
    """Return (callable, keepalive, positional annotation names left to fill)."""
    shape = case["shape"]
    if shape == "qt":  # the emit method of a Qt signal
        o = _qt()
        signal = getattr(o, f"s{case['npart']}")
        signal.connect(lambda *a: rec(a))
        return signal.emit, (o, signal), []
    ns = dict(NS, REC=rec, wraps=wraps)
    in_class = shape in ("meth", "clsm", "callobj", "pmeth", "partialmethod", "wrapsmeth", "cls")
    sig, body, pos, ko = _render(case, {"clsm": "cls"}.get(shape, "self") if in_class else None)
    annos = [p["anno"] for p in pos]
    if case["var"]:
        annos += [case.get("varanno")] * 12
    head = "from __future__ import annotations\n" if case["future"] else ""
    fn = {"callobj": "__call__", "cls": "__init__"}.get(shape, "f")
    src = f"{head}def {fn}({sig}):\n    REC({body})\n"
    exec(compile(src, "<gen>", "exec", dont_inherit=True), ns)
    f = ns[fn]
    if shape == "fn":
        return f, f, annos
    if shape == "static":
        o = type("S", (), {"f": staticmethod(f)})()
        return o.f, o, annos
    if shape == "clsm":
        c = type("S", (), {"f": classmethod(f)})
        return c.f, c, annos
    if shape == "meth":
        o = type("S", (), {"f": f})()
        return o.f, o, annos
    if shape == "callobj":
        o = type("S", (), {"__call__": f})()
        return o, o, annos
    if shape == "cls":
        c = type("S", (), {"__init__": f})
        return c, c, annos
    if shape == "wraps":
        @wraps(f)
        def w(*a, **k):
            return f(*a, **k)
        return w, w, annos
    if shape == "wrapsmeth":
        @wraps(f)
        def w(self, *a, **k):
            return f(self, *a, **k)
        o = type("S", (), {"f": w})()
        return o.f, o, annos
    nb = min(case["npart"], len(pos)) if not case["var"] else case["npart"]
    kws = {}
    for i in case["kwpart"]:
        if nb <= i < len(pos) and pos[i]["kind"] == "pk":
            kws[f"p{i}"] = "kwb"
        elif i < len(ko):
            kws[f"k{i}"] = "kwb"
    bound = ["b"] * nb
    rest = annos[nb:]
    # a positional parameter bound by keyword, and all after it, become keyword-only
    for i in range(nb, len(pos)):
        if f"p{i}" in kws:
            rest = annos[nb:i]
            break
    if shape == "partial":
        return partial(f, *bound, **kws), f, rest
    if shape == "pmeth":
        o = type("S", (), {"f": f})()
        return partial(o.f, *bound, **kws), o, rest
    if shape == "partialmethod":
        o = type("S", (), {"f": partialmethod(f, *bound, **kws)})()
        cb = o.f
        return cb, (o, cb), rest
    raise AssertionError(shape)


def _builtin(name):
    class L(list): ...
    class S(set): ...
    class Q(deque): ...
    class D(dict): ...

    class A:
        def __eq__(self, o):
            return isinstance(getattr(o, "__dict__", None), dict) and o.__dict__ == self.__dict__

        def clear(self):
            self.__dict__.clear()

        def __setitem__(self, key, value):
            self.__dict__.setdefault("items", []).append((key, value))

    return {
        "pupdate": lambda: (lambda o: (partial(o.update, z=9), o))(D()),
        "pupdate2": lambda: (lambda o: (partial(o.update, {"q": 1}), o))(D()),
        "psort": lambda: (lambda o: (partial(o.sort, reverse=True), o))(L()),
        "pappend": lambda: (lambda o: (partial(o.append, 5), o))(L()),
        "pinsert": lambda: (lambda o: (partial(o.insert, 0), o))(L()),
        "setattr2": lambda: (lambda o: (partial(setattr, o, "x"), o))(A()),
        "setattr3": lambda: (lambda o: (partial(setattr, o, "x", 5), o))(A()),
        "setattr1": lambda: (lambda o: (partial(setattr, o), o))(A()),
        "setattr_m": lambda: (lambda o: (o.__setattr__, o))(A()),
        "setattr_pm": lambda: (lambda o: (partial(o.__setattr__, "x"), o))(A()),
        "setitem": lambda: (lambda o: (o.__setitem__, o))(A()),
        "setitem1": lambda: (lambda o: (partial(o.__setitem__, "k"), o))(A()),
        "setitem2": lambda: (lambda o: (partial(o.__setitem__, "k", 5), o))(A()),
        "setitem_kw": lambda: (lambda o: (partial(o.__setitem__, value=5), o))(A()),
        "append": lambda: (lambda o: (o.append, o))(L()),
        "add": lambda: (lambda o: (o.add, o))(S()),
        "deque": lambda: (lambda o: (o.append, o))(Q()),
        "update": lambda: (lambda o: (o.update, o))(D()),
        "setdefault": lambda: (lambda o: (o.setdefault, o))(D()),
    }[name]()


def callable_lengths(cb, upto, value=7):
    """Which numbers of positional arguments the callable takes: by calling it."""
    ok = set()
    for k in range(upto + 1):
        try:
            cb(*([value] * k))
        except TypeError:
            pass
        else:
            ok.add(k)
    return ok


def types_verdict(annos, var, spec, limit):
    """True / False / None (unspecified) for check_types."""
    verdict = True
    for anno, t in list(zip(annos + var, spec))[:limit]:
        if anno is None or anno == "ANY" or t == "ANY":
            continue
        if anno == t or (anno, t) == ("AN", "int"):
            continue
        a, b = MEMBERS[anno], MEMBERS[t]
        if anno in ("U", "UX") and t not in ("U", "UX"):
            if t in a:
                continue
            return False
        if a & b:
            verdict = None  # sub/super relation or union subset: not fixed by the documentation
        else:
            return False
    return verdict


def run_case(case, ctx):
    from psygnal import Signal, SignalInstance

    spec = case["spec"]
    n = len(spec)
    if case["shape"] == "qt" and _qt() is None:
        return
    nd = min(case["spec_dflt"], n)
    P = inspect.Parameter
    if nd:
        sg = inspect.Signature([
            P(f"s{i}", P.POSITIONAL_OR_KEYWORD, annotation=NS[t], default=(P.empty if i < n - nd else None))
            for i, t in enumerate(spec)])
        sargs = (sg,)
    else:
        sargs = tuple(NS[t] for t in spec)
    glob = {}
    conn = {}
    tgt = glob if case["where"] == "signal" else conn
    if case["check_nargs"] is not None:
        tgt["check_nargs_on_connect" if tgt is glob else "check_nargs"] = case["check_nargs"]
    if case["check_types"] is not None:
        tgt["check_types_on_connect" if tgt is glob else "check_types"] = case["check_types"]
    if case["bound"]:
        E = type("E", (), {"sig": Signal(*sargs, **glob)})
        emitter = E()
        sig = emitter.sig
    else:
        sig = SignalInstance(sargs[0] if nd else sargs, **glob)
    bare = SignalInstance(sargs[0] if nd else sargs, **glob)  # without callbacks
    sentinel_calls = []

    def sentinel(*a):
        sentinel_calls.append(a)

    sig.connect(sentinel, check_types=False, priority=-10)
    recs = []
    if case["shape"] == "builtin":
        cb, keep = _builtin(case["builtin"])
        annos = []
        probe, probe_o = _builtin(case["builtin"])
        K = callable_lengths(probe, 6, "v" if case["builtin"].startswith("setattr") else 7)
        try:
            inspect.signature(cb)
            has_sig = True
        except ValueError:
            has_sig = False
    else:
        cb, keep, annos = build(case, recs.append)
        K = callable_lengths(cb, 8)
        has_sig = True
    recs.clear()
    ctx.label("shape:" + case["shape"])
    max_args = case["max_args"]
    if max_args is not None:
        conn["max_args"] = max_args
    check_nargs = case["check_nargs"] is not False
    check_types = bool(case["check_types"])
    nargs_ok = any(k <= n for k in K) if (check_nargs and max_args is None and has_sig) else True
    tv = True
    if check_types:
        if case["shape"] in ("builtin", "partialmethod", "qt"):
            tv = None
        else:
            tv = types_verdict(annos, [], spec, n)
            # with no positional call possible the types do not matter
    if check_types and (not has_sig or case["shape"] == "qt"):
        return
    before = len(sig)
    try:
        r = sig.connect(cb, **conn)
        accepted = True
    except ValueError as e:
        accepted = False
        check("Cannot connect" in str(e) or "KEYWORD_ONLY" in str(e) or "keyword" in str(e).lower() or str(e),
              "empty message")
    if not accepted:
        eq(len(sig), before, "a refused connection changed the signal")
        check(cb not in sig, "refused slot reported as connected")
    want = nargs_ok and tv if tv is not None else (None if nargs_ok else False)
    if want is not None and accepted != bool(want):
        raise Violation(
            f"connect({case['shape']} {_sigtxt(cb)}) on signal {spec} (defaults {nd}) {conn} {glob}: "
            f"{'accepted' if accepted else 'refused'}, but callable lengths are {sorted(K)} and types verdict {tv}"
        )
    ctx.label("accepted" if accepted else "refused")
    if accepted:
        eq(len(sig), before + 1, "len after connect")
        check(cb in sig, "connected slot not in signal")
    ctx.nontrivial(bool(case["params"]) or not accepted or check_types or case["shape"] == "builtin")

    for em in case["emits"]:
        if em["n"] == "exact":
            names = [{"U": "int", "ANY": "A"}.get(t, t) for t in spec]
            ctx.label("emit-exact")
        else:
            names = em["types"]
            ctx.label("emit-free")
        args = tuple(VALUES[t] for t in names)
        count_ok = n - nd <= len(args) <= n
        types_ok = all(SUPER.get(a, a) in MEMBERS[t] for a, t in zip(names, spec))
        should_raise = (em["cn"] and not count_ok) or (em["ct"] and not types_ok)
        try:
            bare.emit(*args, check_nargs=em["cn"], check_types=em["ct"])
            raised = False
        except TypeError:
            raised = True
        check(raised == should_raise, "emit%s on %s without callbacks, with %s: raised TypeError: %s", names, spec, em, raised)
        recs.clear()
        sentinel_calls.clear()
        # what the callback must receive
        lim = len(args) if max_args is None else min(max_args, len(args))
        if accepted:
            if check_nargs and max_args is None and has_sig:
                ks = [k for k in K if k <= lim]
                # the callback takes at most max(K) arguments, whatever is emitted
                k = max(ks) if ks else None
            else:
                k = lim if lim in K else None
            if k is None and not should_raise:
                continue  # the emission itself does not give what the callback needs
        if should_raise:
            ctx.label("emit-rejected")
            paused = len(names) % 2 and em["n"] != "exact"  # also while the signal is paused
            if paused:
                sig.pause()
            try:
                (sig if em["cn"] and em["ct"] else sig.emit)(*args, check_nargs=em["cn"], check_types=em["ct"])
            except TypeError:
                pass
            else:
                raise Violation(f"emit{names} on {spec} (defaults {nd}, paused {paused}) with {em} did not raise TypeError")
            if paused:
                sig.resume()
            check(not recs and not sentinel_calls, "a rejected emission still called callbacks")
            continue
        if case["shape"] == "builtin" and accepted:
            try:
                hash(args[0]) if args else None
            except TypeError:
                continue
            probe2, probe2_o = _builtin(case["builtin"])
            try:
                probe2(*args[:k])
            except (TypeError, ValueError):
                continue
            for x in (keep, probe_o):
                x.clear()
            sig.emit(*args, check_nargs=em["cn"], check_types=em["ct"])
            check(keep == probe2_o, "builtin slot received other arguments: %r %r",
                  getattr(keep, "__dict__", keep), getattr(probe2_o, "__dict__", probe2_o))
            eq(sentinel_calls, [args], "other callback")
            continue
        if accepted:
            cb(*args[:k])
            wantrec = list(recs)
            recs.clear()
        else:
            wantrec = []
        sig.emit(*args, check_nargs=em["cn"], check_types=em["ct"])
        if recs != wantrec:
            raise Violation(f"emit{args} on {_sigtxt(cb)} max_args={max_args}: received {recs}, expected {wantrec}")
        eq(sentinel_calls, [args], "a callback taking *args receives everything")


def _sigtxt(cb):
    try:
        return str(inspect.signature(cb))
    except ValueError:
        return "<no signature>"


REGRESSIONS = []
