"""C20: throttled and debounced calls follow the policy, losing no final call."""
from __future__ import annotations

import functools
import inspect
import threading

from hypothesis import strategies as st

from harness import sched
from harness.core import Violation, check, eq

ID = "C20"
RULE = (
    "threading.Timer is replaced by one on a virtual clock. Sequential cases: a history of calls (direct with keyword "
    "arguments, or through a signal), flush, cancel, clock advances, timers that expire but run late, timer threads that "
    "stay alive after they ended, with a function that raises, takes time, or calls/cancels/flushes itself; oracle: a "
    "model of the policy (times and arguments of all runs). Concurrent cases: calls from several threads interleaved "
    "with the timer thread under a harness-owned scheduler; oracle: the last call is run, none twice, rate is kept. "
    "Non-trivial: a pending call was run by a timer and another one superseded, flushed, cancelled or raised."
)
ASSUMPTIONS = [
    "time passes only through threading.Timer; after cancel() the next call counts as a new burst",
    "thread switches happen between psygnal source lines, at lock operations and around timer callbacks",
]
QUICK, THOROUGH = 2200, 60000
QUICK_S = 25

sched.install()


class Clock:
    now = 0
    timers: list = []  # started, thread not ended


class VTimer:
    """threading.Timer on Clock: the thread ends when the harness says so."""

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or (), kwargs or {}
        self.state = "new"
        self.daemon = False
        self.name = "VTimer"

    def start(self):
        if self.state != "new":
            raise RuntimeError("threads can only be started once")
        self.state = "wait"
        self.deadline = Clock.now + int(round(self.interval * 1000))
        Clock.timers.append(self)

    def cancel(self):
        if self.state in ("new", "wait"):
            self.state = "cancelled" if self.state == "wait" else "dead-on-start"

    def is_alive(self):
        return self.state in ("wait", "cancelled", "committed", "running", "ended")

    def join(self, timeout=None):
        pass

    def setDaemon(self, d):
        self.daemon = d


threading.Timer = VTimer


class Boom(Exception):
    pass


def strategy(tier):
    dt = st.one_of(st.sampled_from([1, 9, 10, 11, 19, 20, 25, 50]), st.integers(0, 60))
    rel = st.one_of(st.sampled_from([5, 9, 10, 11, 20, 25]), st.integers(1, 30))  # tenths of the interval
    T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a]).map(list)
    op = st.one_of(
        T("call",), T("call",), T("call",), T("call",), T("adv", dt), T("adv", dt), T("rel", rel), T("rel", rel), T("flush",), T("cancel",),
        T("due",), T("fire",), T("reap",),
    )
    act = st.one_of(T("raise",), T("raise",), T("call",), T("flush",), T("cancel",), T("slow", st.sampled_from([1, 5, 10, 30])))
    common = {
        "kind": st.sampled_from(["throttled", "debounced"]), "leading": st.booleans(),
        "interval": st.one_of(st.sampled_from([10, 10, 10, 20, 0, 1, 100]), st.integers(2, 300),
                              st.sampled_from([100, 999, 1000, 1001, 1500, 4000, 60000, 86400000])),
    }
    seq = st.fixed_dictionaries({
        "mode": st.just("seq"), **common,
        "form": st.sampled_from(["func", "deco", "default", "class"]), "via": st.sampled_from(["direct", "direct", "signal"]),
        "script": st.lists(st.lists(act, max_size=2), max_size=5),
        "callee": st.sampled_from(["func", "func", "func", "falsy", "method", "partial"]),
        "ops": st.lists(op, min_size=3, max_size=18 if tier == "quick" else 60),
    })
    cop = st.one_of(T("call",), T("call",), T("call",), T("flush",), T("cancel",))
    conc = st.fixed_dictionaries({
        "mode": st.just("conc"), **common,
        "threads": st.lists(st.lists(cop, min_size=1, max_size=4), min_size=1, max_size=2),
        "pre": st.booleans(),
        "fires": st.integers(1, 3),
        "raises": st.booleans(),
        "fine": st.sampled_from([True, True, False]),
        "sched": st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 60)), st.integers(0, 2)).map(list),
                          min_size=1, max_size=8),
    })
    return st.one_of(seq, seq, conc)


# ------------------------------------------------------------- the real clock


def _fire(t):
    t.state = "running"
    try:
        t.function(*t.args, **t.kwargs)
    except Boom:
        pass  # threading.excepthook
    finally:
        t.state = "ended"  # the thread is about to end, but is still alive


def _fire_committed():
    for t in [t for t in Clock.timers if t.state == "committed"]:
        _fire(t)


def _end_threads():
    for t in Clock.timers:
        if t.state in ("cancelled", "ended"):
            t.state = "dead"
    Clock.timers[:] = [t for t in Clock.timers if t.state != "dead"]


def _advance(target):
    _fire_committed()
    while True:
        due = sorted((t.deadline, i) for i, t in enumerate(Clock.timers) if t.state == "wait" and t.deadline <= target)
        if not due:
            break
        t = Clock.timers[due[0][1]]
        if t.deadline > Clock.now:
            Clock.now = t.deadline
            _end_threads()
        _fire(t)
    if target > Clock.now:
        Clock.now = target
        _end_threads()


# ----------------------------------------------------------------- the model


class Model:
    def __init__(self, case, log):
        self.deb = case["kind"] == "debounced"
        self.leading, self.I = case["leading"], case["interval"]
        self.now = 0
        self.until = None  # calls wait until then (None: they do not)
        self.wid = 0
        self.pending = None
        self.committed = None
        self.log = log
        self.script = case["script"]
        self.k = 0
        self.n = 0
        self.stats = set()

    def window(self, until):
        self.until = until
        self.wid += 1

    def run(self, a):
        self.log.append((self.now, a))
        k, self.k = self.k, self.k + 1
        try:
            for act in self.script[k] if k < len(self.script) else ():
                if act[0] == "raise":
                    self.stats.add("raised")
                    raise Boom
                if act[0] == "slow":
                    self.now += act[1]
                    continue
                try:
                    getattr(self, act[0])()
                except Boom:
                    pass
        finally:
            self.window(self.now + self.I)

    def call(self):
        self.n += 1
        a = self.n
        if self.leading and self.until is None:
            self.pending = None
            self.window(float("inf"))
            self.run(a)
            return
        if self.pending is not None:
            self.stats.add("superseded")
        self.pending = a
        if self.deb or self.until is None:
            self.window(self.now + self.I)

    def take(self):
        a, self.pending = self.pending, None
        return a

    def timeout(self):
        if self.pending is None:
            self.window(None)
            return
        self.stats.add("timer")
        a = self.take()
        self.window(float("inf"))
        try:
            self.run(a)
        except Boom:
            pass

    def flush(self):
        if self.pending is not None:
            self.stats.add("flushed")
            self.run(self.take())

    def cancel(self):
        if self.pending is not None:
            self.stats.add("cancelled")
        self.pending = None
        self.window(None)

    def due(self):
        if self.until is None or self.until == float("inf") or self.committed == self.wid:
            return
        self.now = max(self.now, self.until)
        self.committed = self.wid

    def fire(self):
        c, self.committed = self.committed, None
        if c is not None and c == self.wid:
            self.timeout()

    def adv(self, dt):
        self.fire()
        target = self.now + dt
        while self.until is not None and self.until <= target:
            self.now = max(self.now, self.until)
            self.timeout()
        self.now = max(self.now, target)


def run_case(case, ctx):
    Clock.now = 0
    Clock.timers.clear()
    ctx.label(case["mode"], case["kind"], "leading" if case["leading"] else "trailing")
    (_seq if case["mode"] == "seq" else _conc)(case, ctx)


def _make(case, f):
    from psygnal import debounced, throttled
    from psygnal._throttler import Debouncer, Throttler

    deco = {"throttled": throttled, "debounced": debounced}[case["kind"]]
    form = case.get("form", "func")
    default = {"throttled": True, "debounced": False}[case["kind"]]
    if case["interval"] == 100 and form != "func":  # the default
        if case["leading"] == default:
            w = deco(f) if form == "default" else deco()(f) if form == "deco" else (
                {"throttled": Throttler, "debounced": Debouncer}[case["kind"]](f, policy="leading" if default else "trailing"))
        else:
            w = deco(f, leading=case["leading"])
    elif form == "deco":
        w = deco(timeout=case["interval"], leading=case["leading"])(f)
    elif form == "default" and case["leading"] == default:
        w = deco(timeout=case["interval"])(f)
    elif form == "class":
        w = {"throttled": Throttler, "debounced": Debouncer}[case["kind"]](
            f, case["interval"], "leading" if case["leading"] else "trailing")
    else:
        w = deco(f, timeout=case["interval"], leading=case["leading"])
    if hasattr(f, "__name__"):
        eq(w.__name__, f.__name__, "name of the decorated function")
    eq(w.__doc__, f.__doc__, "doc of the decorated function")
    eq(w.__wrapped__, f, "wrapped function")
    eq(inspect.signature(w), inspect.signature(f), "signature of the decorated function")
    return w


def _seq(case, ctx):
    from psygnal import EmitLoopError, SignalInstance

    log, mlog = [], []
    m = Model(case, mlog)
    st_ = {"k": 0, "n": 0}

    def f(a: int, b: int = 5, *, c: int = 7):
        """Doc of f."""
        log.append((Clock.now, a, b, c))
        k = st_["k"]
        st_["k"] += 1
        for act in case["script"][k] if k < len(case["script"]) else ():
            if act[0] == "raise":
                raise Boom
            if act[0] == "slow":
                Clock.now += act[1]
                continue
            try:
                {"call": call, "flush": lambda: w.flush(), "cancel": lambda: w.cancel()}[act[0]]()
            except Boom:
                pass

    callee = case.get("callee", "func")
    if callee == "falsy":  # a callable object that is false
        class Sized:
            """Doc of f."""

            __name__ = "f"

            def __len__(self):
                return 0

            def __call__(self, a: int, b: int = 5, *, c: int = 7):
                return f(a, b, c=c)

        w = _make(case, Sized())
    elif callee == "method":
        class Owner:
            def m(self, a: int, b: int = 5, *, c: int = 7):
                """Doc of m."""
                return f(a, b, c=c)

        w = _make(case, Owner().m)
    elif callee == "partial":
        w = _make(case, functools.partial(lambda x, a, b=5, *, c=7: f(a, b, c=c), 0))
    else:
        w = _make(case, f)
    sig = None
    if case["via"] == "signal":
        sig = SignalInstance((int, int))
        sig.connect(w)

    def args(n):
        """What the n-th call passes, and what f gets."""
        if sig is not None:
            return (n, -n), {}, (n, -n, 7)
        return [((n,), {}, (n, 5, 7)), ((n, 1), {}, (n, 1, 7)), ((n,), {"c": n}, (n, 5, n)), ((n,), {"b": 2, "c": 3}, (n, 2, 3))][n % 4]

    def call():
        st_["n"] += 1
        a, kw, _ = args(st_["n"])
        if sig is not None:
            try:
                sig.emit(*a)
            except EmitLoopError as e:
                raise e.__cause__ from None
        else:
            eq(w(*a, **kw), None, "value returned by the call")

    def attempt(fn):
        try:
            fn()
        except Boom:
            return "raised"

    for op in case["ops"]:
        k = op[0]
        ctx.label(k)
        if k in ("call", "flush", "cancel"):
            mr = attempt(getattr(m, k))
            r = attempt({"call": call, "flush": w.flush, "cancel": w.cancel}[k])
            eq(r, mr, f"exception of {k}")
        elif k in ("adv", "rel"):
            dt = op[1] if k == "adv" else (case["interval"] * op[1] + 5) // 10
            m.adv(dt)
            _fire_committed()
            _advance(Clock.now + dt)
        elif k == "due":
            m.due()
            Clock.now = m.now
            for t in Clock.timers:
                if t.state == "wait" and t.deadline <= Clock.now:
                    t.state = "committed"
        elif k == "fire":
            m.fire()
            _fire_committed()
        elif k == "reap":
            _end_threads()
        eq([(t, a, (a, b, c)) for t, a, b, c in log], [(t, n, args(n)[2]) for t, n in mlog], f"runs (time, arguments) after {op}")
        eq(Clock.now, m.now, "clock")
    # and nothing is left behind
    for _ in range(4):
        m.adv(70 + case["interval"])
        _advance(Clock.now + 70 + case["interval"])
    eq([(t, a) for t, a, *_ in log], mlog, "runs after everything has timed out")
    ctx.nontrivial("timer" in m.stats and len(m.stats) >= 2)


def _conc(case, ctx):
    runs = []
    calls = {}

    def f(a):
        runs.append((Clock.now, a))
        if case["raises"] and a % 3 == 1:
            raise Boom

    w = _make(case, f)
    if case["pre"]:  # an earlier burst: a timer is about to end
        try:
            w(0)
        except Boom:
            pass
        calls[0] = 0
    last = []
    cancels = []

    def actor(i, ops):
        def body():
            for j, op in enumerate(ops):
                if op[0] == "call":
                    n = 10 * (i + 1) + j
                    calls[n] = Clock.now
                    try:
                        w(n)
                    except Boom:
                        pass
                else:
                    try:
                        getattr(w, op[0])()
                    except Boom:
                        pass
        return body

    def timer():
        for _ in range(case["fires"]):
            due = [t for t in list(Clock.timers) if t.state == "wait"]
            if due:
                t = min(due, key=lambda t: t.deadline)
                Clock.now = max(Clock.now, t.deadline)
                t.state = "committed"
                s.point()
                _fire(t)
                s.point()
            else:
                s.point()
            _end_threads()

    actors = [actor(i, ops) for i, ops in enumerate(case["threads"])]
    s = sched.Scheduler([*actors, timer], case["sched"], trace=case.get("fine", True))
    excs = s.run()
    check(not any(excs), "exceptions in threads: %r", excs)
    ctx.label(f"switches {min(s.switches, 3)}")
    for _ in range(6):
        _end_threads()
        _advance(Clock.now + max(case["interval"], 1))
    ran = [a for _, a in runs]
    eq(len(ran), len(set(ran)), f"calls run twice: {runs}")
    check(set(ran) <= set(calls), "runs of calls never made: %r", runs)
    for i, ops in enumerate(case["threads"]):
        pos = [j for j, op in enumerate(ops) if op[0] == "call"]
        if pos:
            last.append(10 * (i + 1) + pos[-1])
        cancels += [(i, j) for j, op in enumerate(ops) if op[0] == "cancel"]
    flushes = any(op[0] == "flush" for ops in case["threads"] for op in ops)
    if last:
        must = not cancels
        if cancels:
            # all cancels come before the last call of the one thread that cancels
            ts = {i for i, _ in cancels}
            if len(ts) == 1:
                i = ts.pop()
                pos = [j for j, op in enumerate(case["threads"][i]) if op[0] == "call"]
                must = bool(pos) and max(j for _, j in cancels) < pos[-1]
        if must:
            check(set(last) & set(ran), "the last call was lost: last calls of the threads %r, runs %r", last, runs)
            for i, ops in enumerate(case["threads"]):  # in program order, later calls supersede earlier ones
                mine = [a for a in ran if a // 10 == i + 1]
                if not (flushes or case["pre"] or cancels) and len(case["threads"]) == 1:
                    eq(mine, sorted(mine), "order of runs")
    if not cancels and not flushes and case["interval"]:
        for (t0, a), (t1, b) in zip(runs, runs[1:]):
            check(t1 - t0 >= case["interval"], "%s: runs at %s and %s: %r", case["kind"], t0, t1, runs)
    if case["kind"] == "debounced" and not case["leading"] and not flushes:
        for t, a in runs:
            check(t - calls[a] >= case["interval"],
                  "debounced call made at %s was run at %s", calls[a], t)
    ctx.nontrivial(s.switches >= 2 and len(ran) >= 2)


REGRESSIONS = [
    {"mode": "seq", "kind": k, "leading": le, "interval": 10, "form": "func", "via": "direct", "script": [[], [["raise"]]],
     "ops": [["call"], ["cancel"], ["call"], ["adv", 30], ["call"], ["call"], ["due"], ["fire"], ["call"], ["adv", 30], ["call"], ["due"],
             ["call"], ["fire"], ["adv", 50]]}
    for k in ("throttled", "debounced") for le in (True, False)
] + [
    {"mode": "seq", "kind": "throttled", "leading": True, "interval": 10, "form": "deco", "via": "signal", "script": [[["call"]], [["raise"]]],
     "ops": [["call"], ["adv", 5], ["call"], ["adv", 50], ["call"], ["call"]]},
]
