"""C13: blocking and pausing a group is exact and restores what was before."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C13"
RULE = (
    "A case is a group with 1-4 (sometimes up to 12) members and a tree of nested blocked()/paused() contexts of the group (with exclusions "
    "by name or instance, reducers) and of members, block()/unblock() pairs, exceptional exits and emissions (of members, or "
    "directly of the group) at any point, also inside a callback of the group; group and member callbacks are compared with a model of the block and pause states. Non-trivial: an "
    "emission happens inside a group context and one after it."
)
ASSUMPTIONS = ["contexts are left in the reverse order of entering them; a group.block() is undone by group.unblock()"]
QUICK, THOROUGH = 1500, 50000
QUICK_S = 20
NAMES = ["a", "b", "c", "d", *(f"n{i}" for i in range(8))]


def strategy(tier):
    m = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(4, 11))
    excl = st.lists(st.tuples(m, st.booleans()).map(list), max_size=2)
    red = st.sampled_from([None, None, None, "two", "one", "two_init"])
    emit = st.tuples(st.just("emit"), m).map(list)
    gemit = st.tuples(st.just("gemit"), m).map(list)

    def node(body):
        body = st.lists(body, max_size=4)
        exc = st.sampled_from([False, False, False, True])
        return st.one_of(
            emit, emit, gemit,
            st.tuples(st.just("gblock"), excl, body, exc).map(list),
            st.tuples(st.just("gblock"), excl, body, exc).map(list),
            st.tuples(st.just("mblock"), m, body, exc).map(list),
            st.tuples(st.just("gpause"), red, body, exc).map(list),
            st.tuples(st.just("mpause"), m, body, exc).map(list),
            st.tuples(st.just("plain"), st.lists(excl, min_size=1, max_size=2), body).map(list),
            st.tuples(st.just("mplain"), m, body).map(list),
            st.tuples(st.just("ppause"), red, body).map(list),
            st.tuples(st.just("hook"), m, body).map(list),
        )

    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12)),
        "via": st.sampled_from(["group", "all"]),
        "late": st.booleans(),
        "prog": st.lists(st.recursive(emit, node, max_leaves=10 if tier == "quick" else 30), min_size=1, max_size=6),
    })


class Boom(Exception):
    pass


def run_case(case, ctx):
    from psygnal import EmissionInfo, Signal, SignalGroup

    names = NAMES[: case["n"]]
    g = type("G", (SignalGroup,), {n: Signal(int) for n in names})()
    api = g if case["via"] == "group" else g.all
    glog, dlog, gwant, dwant = [], [], [], []
    g.connect(lambda info: glog.append((0, info.signal.name, info.args)))
    g.connect(lambda info: glog.append((1, info.signal.name, info.args)))
    for n in names:
        g[n].connect(lambda *a, n=n: dlog.append((n, a)), priority=1)
    if case["late"]:
        x = lambda info: None  # noqa: E731
        g.connect(x)
        g.disconnect(x)

    blocked = dict.fromkeys(names, False)
    gblocked = [False]
    mqueue = dict.fromkeys(names)  # None: not paused
    gqueue = [None]
    val = [0]
    inside = [0]
    flags = set()

    def relay(n, args):
        if gqueue[0] is not None:
            gqueue[0].append((n, args))
        else:
            gwant.extend((k, n, args) for k in (0, 1))

    def deliver(n, args):
        dwant.append((n, args))
        relay(n, args)

    def memit(n, args):
        if blocked[n]:
            ctx.label("suppressed")
        elif mqueue[n] is not None:
            mqueue[n].append(args)
        else:
            deliver(n, args)

    def verify(what):
        if glog != gwant:
            raise Violation(f"{what}: group callbacks got {glog}, expected {gwant}")
        if dlog != dwant:
            raise Violation(f"{what}: member callbacks got {dlog}, expected {dwant}")

    def mk_excl(e):
        out, ex = [], set()
        for i, by_name in e:
            n = names[i % len(names)]
            ex.add(n)
            out.append(n if by_name else g[n])
        return out, ex

    def two(a, b):
        return (EmissionInfo(b[0].signal, a[0].args + b[0].args),)

    def reducer(kind):
        if kind is None:
            return (), None
        if kind == "two":
            return (two,), lambda q: [(q[-1][0], sum((x[1] for x in q), ()))]
        if kind == "one":
            return (lambda it: _last(it),), lambda q: [q[-1]]
        init = EmissionInfo(g[names[0]], (-1,))
        return (two, (init,)), lambda q: [(q[-1][0], (-1, *sum((x[1] for x in q), ())))]

    def _last(it):
        return list(it)[-1]

    armed, errs = [], []

    def hook(info):
        if armed:
            try:
                run(armed.pop())
            except Violation as e:
                errs.append(e)

    g.connect(hook)

    def run(items):
        for it in items:
            w = it[0]
            if w == "hook":  # the body runs in a callback of the group
                n = names[it[1] % len(names)]
                if not (blocked[n] or mqueue[n] is not None or gqueue[0] is not None):
                    armed.append(it[2])
                    ctx.label("inside-callback")
                run([["emit", it[1]]])
                if errs:
                    raise errs[0]
                check(not armed, "an emission of %s did not reach the last callback of the group", n)
                continue
            if w == "emit":
                n = names[it[1] % len(names)]
                val[0] += 1
                if inside[0]:
                    flags.add("in")
                elif "left" in flags:
                    flags.add("after")
                memit(n, (val[0],))
                g[n].emit(val[0])
                verify(f"emission {val[0]} of {n}")
                continue
            if w == "gemit":  # an event of the group itself
                n = names[it[1] % len(names)]
                val[0] += 1
                if not gblocked[0]:
                    relay(n, (val[0],))
                g.all.emit(EmissionInfo(g[n], (val[0],)))
                verify(f"emission {val[0]} of the group")
                continue
            if w == "gblock":
                excl, ex = mk_excl(it[1])
                before = dict(blocked)
                gbefore = gblocked[0]
                inside[0] += 1
                if any(before.values()):
                    ctx.label("overlapping-blocks")
                try:
                    with api.blocked(exclude=excl) if excl else api.blocked():
                        for n in names:
                            if n not in ex:
                                blocked[n] = True
                        gblocked[0] = True
                        run(it[2])
                        if it[3]:
                            raise Boom
                except Boom:
                    ctx.label("exceptional-exit")
                inside[0] -= 1
                blocked.update(before)
                gblocked[0] = gbefore
            elif w == "mblock":
                n = names[it[1] % len(names)]
                before = blocked[n]
                try:
                    with g[n].blocked():
                        blocked[n] = True
                        run(it[2])
                        if it[3]:
                            raise Boom
                except Boom:
                    pass
                blocked[n] = before
            elif w == "gpause":
                args, f = reducer(it[1])
                outer = gqueue[0]
                inside[0] += 1
                try:
                    with api.paused(*args):
                        if outer is None:
                            gqueue[0] = []
                        run(it[2])
                        n_before = len(glog)
                        if outer is None:
                            q, gqueue[0] = gqueue[0], None
                            if q:
                                ctx.label("resumed" if f is None else "reduced")
                            for n, a in (q if f is None or not q else f(q)):
                                gwant.extend((k, n, a) for k in (0, 1))
                        if it[3]:
                            raise Boom
                except Boom:
                    ctx.label("exceptional-exit")
                inside[0] -= 1
                verify("leaving a group pause")
            elif w == "ppause":
                if gqueue[0] is not None:
                    run(it[2])
                    continue
                args, f = reducer(it[1])
                inside[0] += 1
                api.pause()
                gqueue[0] = []
                run(it[2])
                api.resume(*args)
                q, gqueue[0] = gqueue[0], None
                for n, a in (q if f is None or not q else f(q)):
                    gwant.extend((k, n, a) for k in (0, 1))
                inside[0] -= 1
                verify("group.resume()")
            elif w == "mpause":
                n = names[it[1] % len(names)]
                outer = mqueue[n]
                try:
                    with g[n].paused():
                        if outer is None:
                            mqueue[n] = []
                        run(it[2])
                        if it[3]:
                            raise Boom
                except Boom:
                    pass
                if outer is None:
                    q, mqueue[n] = mqueue[n], None
                    for a in q:
                        deliver(n, a)
                verify("leaving a member pause")
            elif w == "plain":
                if inside[0]:
                    run(it[2])
                    continue
                before = dict(blocked)
                inside[0] += 1
                ctx.label("plain-block")
                for e in it[1]:
                    excl, ex = mk_excl(e)
                    if excl:
                        api.block(exclude=excl)
                    else:
                        api.block()
                    for n in names:
                        if n not in ex:
                            blocked[n] = True
                gblocked[0] = True
                run(it[2])
                api.unblock()
                gblocked[0] = False
                inside[0] -= 1
                blocked.update(before)
            elif w == "mplain":
                n = names[it[1] % len(names)]
                if blocked[n]:
                    run(it[2])
                    continue
                g[n].block()
                blocked[n] = True
                run(it[2])
                g[n].unblock()
                blocked[n] = False
            if not inside[0]:
                flags.add("left")
            verify(f"after {w}")

    run(case["prog"])
    for n in names:
        run([["emit", names.index(n)], ["gemit", names.index(n)]])
    if {"in", "after"} <= flags:
        ctx.nontrivial()
    eq(len(g.all), 3, "len(group.all)")
    check(all(n in g for n in names))


REGRESSIONS = []
