"""C06: block / pause / resume, nested, with reducers and faults, against a reference model."""
from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

from harness.core import Violation, check

ID = "C06"
RULE = (
    "A case is a signal (immediate or queued), 1-3 callbacks (scripted to raise, re-emit, or pause-and-emit at their "
    "k-th call; some are connected and disconnected in between) and a program of block/unblock/pause/resume/blocked()/paused() contexts nested to depth 4, emissions "
    "by emit, call and emit_fast (single or in bursts), reducers with one or two arguments with or without initial value, and exceptions "
    "leaving contexts. Every emission carries a unique id; deliveries are compared with a reference model. "
    "Non-trivial: some emission happens while blocked or paused."
)
ASSUMPTIONS = [
    "values still buffered when a callback raises during resume may be dropped or delivered later, at most once",
    "a signal is not resumed while it is blocked (the documentation does not say what that means)",
]
QUICK, THOROUGH = 1200, 60000
QUICK_S = 20

RED = ["none", "none", "two", "one", "two_init", "none", "empty_init", "none_init", "one_init"]


def strategy(tier):
    leaf = st.one_of(
        st.tuples(st.just("emit"), st.sampled_from(["emit", "emit", "call", "fast"])),
        st.tuples(st.just("emit"), st.just("emit")),
        st.tuples(st.just("burst"), st.sampled_from([3, 11, 40, 400]), st.sampled_from(["emit", "emit", "call", "fast"])),
        st.tuples(st.sampled_from(["block", "unblock", "pause"])),
        st.tuples(st.just("resume"), st.sampled_from(RED)),
        st.tuples(st.just("raise")),
        st.tuples(st.sampled_from(["connect", "disconnect"]), st.integers(0, 2)),
    ).map(list)

    def ext(inner):
        body = st.lists(inner, min_size=1, max_size=5)
        return st.one_of(
            st.tuples(st.just("blocked"), body).map(list),
            st.tuples(st.just("paused"), body, st.sampled_from(RED)).map(list),
            inner,
        )

    op = st.recursive(leaf, ext, max_leaves=12)
    act = st.sampled_from([None] * 5 + ["raise", "emit", "emit", "pause_emit"])
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["immediate", "immediate", "queued"]),
        "slots": st.lists(st.lists(act, max_size=5), min_size=1, max_size=3),
        "late": st.sampled_from([0, 0, 0, 1, 3]),
        "ops": st.lists(op, min_size=2, max_size=8 if tier == "quick" else 16),
    })


class UserError(Exception):
    pass


class Fault(Exception):
    pass


class Interp:
    """Drives a backend through the program; the same for model and implementation."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.reset()

    def reset(self):
        self.next_id = 0
        self.calls = [0] * len(self.case["slots"])
        self.nested = 0

    def emit(self, b, how="emit"):
        self.next_id += 1
        b.emit((self.next_id,), how)

    def run(self, b, ops):
        for op in ops:
            k = op[0]
            if k == "emit":
                self.emit(b, op[1])
            elif k == "burst":
                for _ in range(op[1]):
                    self.emit(b, op[2])
            elif k == "raise":
                raise UserError
            elif k == "resume":
                if b.blocked:
                    continue
                b.resume(op[1])
            elif k in ("connect", "disconnect"):
                i = op[1] % len(self.case["slots"])
                if (i in b.conn) == (k == "disconnect"):
                    getattr(b, k)(i)
            elif k in ("block", "unblock", "pause"):
                getattr(b, k)()
            elif k == "blocked":
                with b.blocked_ctx():
                    self.run(b, op[1])
            elif k == "paused":
                was = b.is_paused
                if b.blocked and not was:
                    continue  # leaving it would resume while blocked
                with b.paused_ctx(op[2]):
                    d = b.blocked
                    try:
                        self.run(b, op[1])
                    finally:
                        # keep within the domain: not blocked when the context resumes
                        if b.blocked and not d and not was:
                            b.unblock()

    def top(self, b):
        for op in self.case["ops"]:
            b.caught(lambda op=op: self.run(b, [op]))
        b.caught(b.unblock)
        b.caught(lambda: b.resume("none"))
        b.caught(lambda: self.emit(b))
        # a resume may have buffered again; settle
        for _ in range(6):
            b.caught(lambda: b.resume("none"))

    def called(self, b, i, ids):
        b.log.append((i, ids))
        k = self.calls[i]
        self.calls[i] += 1
        s = self.case["slots"][i]
        a = s[k] if k < len(s) else None
        if a == "raise":
            raise Fault
        if a == "emit":
            self.emit(b)
        elif a == "pause":
            b.pause()
        elif a == "pause_emit":
            b.pause()
            self.emit(b)


class _Ctx:
    def __init__(self, enter, leave):
        self.enter, self.leave = enter, leave

    def __enter__(self):
        self.state = self.enter()

    def __exit__(self, *a):
        return self.leave(self.state, a)


class Model:
    def __init__(self, case, interp, ctx):
        self.case, self.it, self.ctx = case, interp, ctx
        self.log = []
        n = len(case["slots"])
        self.conn = list(range(max(0, n - case.get("late", 0))))
        self.blocked = self.is_paused = False
        self.buf = []
        self.queue = None
        self.maybe = set()
        self.unordered = False
        self.resuming = 0

    def connect(self, i):
        self.conn = [*self.conn, i]
        self.ctx.label("connect")

    def disconnect(self, i):
        self.conn = [j for j in self.conn if j != i]

    def block(self):
        self.blocked = True

    def unblock(self):
        self.blocked = False

    def pause(self):
        self.is_paused = True
        if self.resuming:
            self.unordered = True
            self.ctx.label("pause-while-resuming")

    def emit(self, ids, how):
        if self.blocked:
            self.ctx.label("emit-blocked-" + how)
            self.ctx.nontrivial()
        elif self.is_paused:
            self.ctx.label("emit-paused-" + how)
            self.ctx.nontrivial()
            self.buf.append(ids)
        else:
            self.deliver(ids, how)

    def deliver(self, ids, how="emit"):
        if how == "fast" or self.case["mode"] == "immediate":
            for i in self.conn:
                self.it.called(self, i, ids)
            return
        if self.queue is not None:
            self.queue.append(ids)
            return
        self.queue = [ids]
        try:
            k = 0
            while k < len(self.queue):
                for i in self.conn:
                    self.it.called(self, i, self.queue[k])
                k += 1
        finally:
            # what was queued behind a failing emission is not delivered
            self.queue = None

    def resume(self, red):
        self.is_paused = False
        buf, self.buf = self.buf, []
        if not buf:
            return
        if not self.conn:
            self.ctx.label("resumed-unheard")
            return
        if red != "none":
            self.ctx.label("reduced-" + red)
            ids = {"two_init": (0,), "empty_init": (-2,), "none_init": (-3,)}.get(red, ())
            for x in buf:
                ids += x
            buf = [ids]
        self.ctx.label("resumed-%d" % min(len(buf), 3))
        self.resuming += 1
        try:
            while buf:
                x = buf.pop(0)
                self.deliver(x)
        except Fault:
            if buf:
                self.ctx.label("raise-while-resuming")
                self.maybe.update(i for x in buf for i in x)
            raise
        finally:
            self.resuming -= 1

    def blocked_ctx(self):
        def enter():
            w, self.blocked = self.blocked, True
            return w

        def leave(w, exc):
            if not w:
                self.blocked = False

        return _Ctx(enter, leave)

    def paused_ctx(self, red):
        def enter():
            w = self.is_paused
            self.pause()
            return w

        def leave(w, exc):
            if not w:
                self.resume(red)

        return _Ctx(enter, leave)

    def caught(self, f):
        try:
            f()
        except (Fault, UserError) as e:
            self.log.append(type(e).__name__)


def _two(a, b):
    return (a[0] + b[0],)


def _acc(acc, b):
    base = (-2,) if acc == () else (-3,) if acc is None else acc[0]
    return (base + b[0],)


def _one(args):
    return (tuple(i for a in args for i in a[0]),)


class Real:
    def __init__(self, case, interp):
        from psygnal import EmitLoopError, Signal

        self.err = EmitLoopError
        self.it = interp
        self.log = []
        self.obj = type("E", (), {"s": Signal(tuple, reemission=case["mode"])})()
        self.sig = self.obj.s
        self.blocked = False  # only tracks the program, for its domain conditions
        self.is_paused = False
        n = len(case["slots"])
        self.cbs = [lambda ids, i=i: self.it.called(self, i, ids) for i in range(n)]
        self.conn = []
        for i in range(max(0, n - case.get("late", 0))):
            self.connect(i)

    def connect(self, i):
        self.conn.append(i)
        self.sig.connect(self.cbs[i])

    def disconnect(self, i):
        self.conn.remove(i)
        self.sig.disconnect(self.cbs[i])

    def block(self):
        self.blocked = True
        self.sig.block()

    def unblock(self):
        self.blocked = False
        self.sig.unblock()

    def pause(self):
        self.is_paused = True
        self.sig.pause()

    def resume(self, red):
        self.is_paused = False
        self.sig.resume(*self.red(red))

    def red(self, red):
        return {"none": (), "one": (_one,), "two": (_two,), "two_init": (_two, ((0,),)),
                "empty_init": (_acc, ()), "none_init": (_acc, None), "one_init": (_one, ((0,),))}[red]

    def emit(self, ids, how):
        if how == "fast":
            self.sig.emit_fast(ids)
        elif how == "call":
            self.sig(ids)
        else:
            self.sig.emit(ids)

    def blocked_ctx(self):
        cm = self.sig.blocked()

        def enter():
            w, self.blocked = self.blocked, True
            cm.__enter__()
            return w

        def leave(w, exc):
            if not w:
                self.blocked = False
            return cm.__exit__(*exc)

        return _Ctx(enter, leave)

    def paused_ctx(self, red):
        cm = self.sig.paused(*self.red(red))

        def enter():
            w, self.is_paused = self.is_paused, True
            cm.__enter__()
            return w

        def leave(w, exc):
            if not w:
                self.is_paused = False
            return cm.__exit__(*exc)

        return _Ctx(enter, leave)

    def caught(self, f):
        try:
            f()
        except UserError:
            self.log.append("UserError")
        except self.err as e:
            if not isinstance(e.__cause__, Fault):
                raise Violation(f"unexpected error in a callback: {e.__cause__!r}") from None
            self.log.append("Fault")


def run_case(case, ctx):
    it = Interp(case, ctx)
    m = Model(case, it, ctx)
    try:
        it.top(m)
    except RecursionError:
        return
    if len(m.log) > 500:
        return
    labels, nt = set(ctx.labels), ctx.nontrivial_flag
    it.reset()
    r = Real(case, it)
    try:
        it.top(r)
    finally:
        ctx.labels, ctx.nontrivial_flag = labels, nt

    if m.maybe or m.unordered:
        # which buffered values survive a fault (and hence which later scripted actions
        # run) is not fixed: decide exactly-once / at-most-once only
        seen = Counter((x[0], i) for x in r.log if isinstance(x, tuple) for i in x[1] if i > 0)
        dup = [k for k, c in seen.items() if c > 1]
        check(not dup, "delivered more than once (slot, emission id): %s; log %s", dup, r.log)
        if m.unordered and not m.maybe and "Fault" not in m.log and "Fault" not in r.log:
            want = Counter((x[0], i) for x in m.log if isinstance(x, tuple) for i in x[1] if i > 0)
            check({k for k in want} == {k for k in seen}, "deliveries differ: got %s, expected %s", r.log, m.log)
        return
    if r.log != m.log:
        raise Violation(f"deliveries differ:\n got      {r.log}\n expected {m.log}")


REGRESSIONS = [
    {"mode": "immediate", "slots": [["raise"]],
     "ops": [["paused", [["emit", "emit"], ["emit", "emit"]], "none"], ["paused", [["emit", "emit"]], "none"]]},
    {"mode": "immediate", "slots": [["pause_emit"]],
     "ops": [["paused", [["emit", "emit"], ["emit", "emit"]], "none"], ["emit", "emit"]]},
]
