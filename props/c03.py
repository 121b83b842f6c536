"""C03: nested emissions follow the declared reemission mode (reference interpreter)."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import Violation, eq

ID = "C03"
RULE = (
    "A case is 1-3 signals with a reemission mode each, callbacks (with priorities; some of them are another signal's "
    "emit) that emit scripted values on any signal at their k-th call (emit or emit_fast), and a list of top-level "
    "emissions. The enter/exit trace of all callbacks is compared with a reference interpreter of the three modes. "
    "Non-trivial: at least one emission happens inside a callback of a signal with two or more callbacks."
)
ASSUMPTIONS = ["callback sets do not change during the program (C01 covers that)", "emit_fast always nests immediately"]
QUICK, THOROUGH = 1600, 80000
QUICK_S = 20
MODES = ["immediate", "queued", "latest-only"]


def strategy(tier):
    emit = st.tuples(st.integers(0, 2), st.booleans(), st.sampled_from(["emit"] * 5 + ["fast"])).map(list)
    slot = st.fixed_dictionaries(
        {
            "sig": st.integers(0, 2),
            "prio": st.sampled_from([0, 0, 0, 1, -1]),
            "relay": st.sampled_from([None, None, None, None, None, 1, 2]),
            # script[k]: what the k-th call of this callback emits; same=True targets its own signal
            "script": st.lists(st.lists(emit, max_size=3), max_size=4),
        }
    )
    return st.fixed_dictionaries(
        {
            "modes": st.lists(st.sampled_from(MODES), min_size=1, max_size=3),
            "bound": st.booleans(),
            "slots": st.lists(slot, min_size=2, max_size=7),
            "top": st.lists(emit, min_size=1, max_size=4 if tier == "quick" else 8),
        }
    )


class Model:
    """Reference interpreter."""

    def __init__(self, case, prog):
        self.case, self.prog = case, prog
        self.trace = []
        n = len(case["modes"])
        self.queue = [None] * n
        self.latest = [0] * n
        self.val = 0
        self.count = 0

    def emit(self, s, v, how):
        self.count += 1
        if self.count > 600:
            raise OverflowError
        mode = self.case["modes"][s]
        slots = self.prog.order[s]
        if how == "fast" or mode == "immediate":
            for i in slots:
                self.call(i, v)
        elif mode == "queued":
            if self.queue[s] is not None:
                self.queue[s].append(v)
                return
            self.queue[s] = [v]
            k = 0
            while k < len(self.queue[s]):
                for i in slots:
                    self.call(i, self.queue[s][k])
                k += 1
            self.queue[s] = None
        else:
            self.latest[s] += 1
            mine = self.latest[s]
            for i in slots:
                if self.latest[s] != mine:
                    break  # superseded
                self.call(i, v)

    def call(self, i, v):
        self.prog.invoke(self, i, v)


class Prog:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        n = len(case["modes"])
        self.order = [[] for _ in range(n)]
        for i, s in enumerate(case["slots"]):
            lst = self.order[s["sig"] % n]
            pos = len(lst)
            for p, o in enumerate(lst):
                if case["slots"][o]["prio"] < s["prio"]:
                    pos = p
                    break
            lst.insert(pos, i)
        self.reset()

    def reset(self):
        self.calls = [0] * len(self.case["slots"])
        self.next_val = 0
        self.depth = 0

    def target(self, i):
        """Relay target: a later signal, so that relays never form a cycle."""
        n = len(self.case["modes"])
        s = self.case["slots"][i]
        if s["relay"] is None:
            return None
        own = s["sig"] % n
        t = own + s["relay"]
        return t if t < n else None

    def invoke(self, m, i, v):
        t = self.target(i)
        if t is not None:
            m.emit(t, v, "emit")
            return
        n = len(self.case["modes"])
        m.trace.append((">", i, v))
        k = self.calls[i]
        self.calls[i] += 1
        script = self.case["slots"][i]["script"]
        own = self.case["slots"][i]["sig"] % n
        self.depth += 1
        if k < len(script):
            for e in script[k]:
                s = own if e[1] else e[0] % n
                self.next_val += 1
                self.ctx.label("nested-" + self.case["modes"][s] + ("-fast" if e[2] == "fast" else ""))
                if len(self.order[s]) > 1:
                    self.ctx.nontrivial()
                if self.depth > 1:
                    self.ctx.label("depth>=2")
                m.emit(s, self.next_val, e[2])
        self.depth -= 1
        m.trace.append(("<", i, v))

    def top(self, m):
        n = len(self.case["modes"])
        for s, _, how in self.case["top"]:
            self.next_val += 1
            m.emit(s % n, self.next_val, how)
            m.trace.append(("top",))


class Real:
    def __init__(self, case, prog):
        from psygnal import Signal, SignalInstance

        self.trace = []
        n = len(case["modes"])
        if case["bound"]:
            ns = {f"s{j}": Signal(int, reemission=case["modes"][j]) for j in range(n)}
            self.obj = type("E", (), ns)()
            self.sigs = [getattr(self.obj, f"s{j}") for j in range(n)]
        else:
            self.sigs = [SignalInstance((int,), reemission=m) for m in case["modes"]]
        for i, s in enumerate(case["slots"]):
            sig = self.sigs[s["sig"] % n]
            t = prog.target(i)
            if t is not None:
                sig.connect(self.sigs[t].emit, priority=s["prio"])
            else:
                sig.connect(lambda v, i=i: prog.invoke(self, i, v), max_args=1, priority=s["prio"])

    def emit(self, s, v, how):
        (self.sigs[s].emit_fast if how == "fast" else self.sigs[s].emit)(v)


def run_case(case, ctx):
    prog = Prog(case, ctx)
    model = Model(case, prog)
    try:
        prog.top(model)
    except OverflowError:
        return  # too big; not explored
    labels, nt = set(ctx.labels), ctx.nontrivial_flag
    prog.reset()
    real = Real(case, prog)
    try:
        prog.top(real)
    except RecursionError:
        raise Violation("RecursionError in a finite program; trace so far %r" % real.trace[:40]) from None
    finally:
        ctx.labels, ctx.nontrivial_flag = labels, nt
    if real.trace != model.trace:
        k = next((k for k, (a, b) in enumerate(zip(real.trace, model.trace)) if a != b),
                 min(len(real.trace), len(model.trace)))
        raise Violation(
            f"modes {case['modes']}: traces differ at step {k}:\n got      {real.trace[max(0, k - 6):k + 6]}\n"
            f" expected {model.trace[max(0, k - 6):k + 6]}"
        )


_S = lambda script, sig=0: {"sig": sig, "prio": 0, "relay": None, "script": script}  # noqa: E731
REGRESSIONS = [
    {"modes": ["latest-only"], "bound": True,
     "slots": [_S([[[0, True, "emit"], [0, True, "emit"]], [[0, True, "emit"]]]), _S([])], "top": [[0, True, "emit"]]},
    {"modes": ["latest-only"], "bound": True,
     "slots": [_S([[[0, True, "emit"]]]), _S([])], "top": [[0, True, "fast"], [0, True, "emit"]]},
]
