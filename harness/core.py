"""Shared driver: sharded Hypothesis search, shrinking, replay, evidence.

A property module (``props/<id>.py``) provides

    ID, RULE          property id, one sentence "how cases are made / non-trivial when"
    strategy(tier)    a Hypothesis strategy producing JSON-able cases
    run_case(case, c) runs one case against psygnal and the oracle; raises on a
                      mismatch; reports through ``c`` (labels, non-trivial)
    REGRESSIONS       list of explicit cases always run first (optional)
    QUICK / THOROUGH  number of examples per shard
    ASSUMPTIONS       list of strings (optional)
    prepare()         called once per process before psygnal is imported (optional)

The case is the replay artefact: ``run.py <id> --replay file`` runs exactly that
case, without Hypothesis.
"""
from __future__ import annotations

import argparse
import collections
import gc
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

CASE_HANG_S = 30  # one case normally takes milliseconds
SHRINK_BUDGET_S = 25
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery (not psygnal) is in trouble: exit 2, never a VIOLATION."""


class Hang(BaseException):
    """A case did not finish."""


class _StopShrink(BaseException):
    pass


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, msg=""):
    if got != want:
        raise Violation(f"{msg}: got {got!r}, expected {want!r}")


class Ctx:
    """What one case reports about itself."""

    __slots__ = ("labels", "nontrivial_flag", "excluded")

    def __init__(self):
        self.labels = set()
        self.nontrivial_flag = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_flag = True


def setup_path():
    """Import psygnal from /repo's working tree; Hypothesis from the tooling venv."""
    src = os.path.join(REPO, "src")
    if sys.path[:1] != [src]:
        sys.path.insert(0, src)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(HYP_SITE):
            sys.path.append(HYP_SITE)  # appended: the venv's own packages win
        else:
            import glob

            for w in glob.glob(WHEELS + "/hypothesis-*.whl") + glob.glob(
                WHEELS + "/sortedcontainers-*.whl"
            ):
                sys.path.append(w)
        try:
            import hypothesis  # noqa: F401
        except ImportError as e:
            raise HarnessError(f"hypothesis not importable: {e}") from e


def load(pid):
    setup_path()
    try:
        mod = importlib.import_module(f"props.{pid.lower()}")
    except ImportError:
        # psygnal failing to import is an error of the build, not of a property
        raise
    import psygnal

    if not os.path.abspath(psygnal.__file__).startswith(
        os.path.abspath(os.path.join(REPO, "src"))
    ):
        raise HarnessError(f"psygnal imported from {psygnal.__file__}")
    return mod


# --------------------------------------------------------------------- one case


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _on_alarm(*_):
    raise Hang()


def execute(mod, case, ctx=None):
    """Run one case; return None if it holds or a message if it does not."""
    ctx = ctx or Ctx()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_HANG_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(case, ctx)
    except HarnessError:
        raise
    except Hang:
        return "HANG: the case did not finish in %d s" % CASE_HANG_S
    except Violation as e:
        return f"{e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:][::-1])
        return f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return None


# ------------------------------------------------------------------------ shard


def run_shard(pid, tier, seed, shard, out, stop_at=None):
    mod = load(pid)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    st = mod.strategy(tier)
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    soft = float(os.environ.get("VERIF_SOFT_S", "0")) or (
        getattr(mod, "QUICK_S", 45) if tier == "quick" else getattr(mod, "THOROUGH_S", 600)
    )
    t0 = time.monotonic()
    stats = {"evaluations": 0, "skipped_budget": 0, "labels": collections.Counter()}
    nontriv = set()
    samples = []
    fails = []
    known = {canon(k["case"]) for k in known_findings(pid)}
    state = {"first_fail": None, "n": 0}

    def one(case):
        now = time.monotonic()
        if state["first_fail"] is None:
            if now - t0 > soft:
                stats["skipped_budget"] += 1
                return
        elif now - state["first_fail"] > SHRINK_BUDGET_S:
            raise _StopShrink()
        state["n"] += 1
        if stop_at is not None and state["n"] > stop_at:
            raise _StopShrink()
        ctx = Ctx()
        key = canon(case)
        msg = execute(mod, case, ctx)
        if state["first_fail"] is None:
            stats["evaluations"] += 1
            stats["labels"].update(ctx.labels)
            if ctx.nontrivial_flag:
                h = hashlib.blake2b(key.encode(), digest_size=8).hexdigest()
                if h not in nontriv:
                    nontriv.add(h)
                    if len(samples) < 3 or (len(nontriv) % 997 == 0 and len(samples) < 6):
                        samples.append(case)
        if msg is not None and key not in known:
            if state["first_fail"] is None:
                state["first_fail"] = now
            fails.append({"case": case, "msg": msg, "n": state["n"], "size": len(key)})
            if msg.startswith("HANG"):
                raise _StopShrink()
            raise Violation(msg)

    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(seed * 1000003 + shard * 7919 + 17)(hypothesis.given(st)(one)))
    err = None
    try:
        if shard == 0:
            for case in getattr(mod, "REGRESSIONS", []):
                one(json.loads(json.dumps(case)))
        test()
    except (_StopShrink, Violation):
        pass
    except hypothesis.errors.HypothesisException as e:
        if not fails:
            err = f"{type(e).__name__}: {e}"
    except BaseExceptionGroup:  # pragma: no cover
        pass
    res = {
        "evaluations": stats["evaluations"],
        "skipped_budget": stats["skipped_budget"],
        "labels": dict(stats["labels"]),
        "nontriv": sorted(nontriv),
        "samples": samples,
        "fail": min(fails, key=lambda f: f["size"]) if fails else None,
        "first": fails[0] if fails else None,
        "error": err,
    }
    with open(out, "w") as f:
        json.dump(res, f)


# ---------------------------------------------------------------- known findings


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status", "known") == "known":
                        out.append(d)
    return out


# ----------------------------------------------------------------------- parent


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        HYPOTHESIS_NO_PLUGINS="1",
        QT_QPA_PLATFORM="offscreen",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), "verif-hyp"),
    )
    env.pop("PYTHONPATH", None)
    return env


def spawn(args, **kw):
    return subprocess.Popen(
        [VENV_PY, "-B", os.path.join(VERIF, "run.py"), *args],
        env=child_env(),
        cwd=VERIF,
        stdin=subprocess.DEVNULL,
        start_new_session=True,
        **kw,
    )


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def replay_file(pid, path):
    """Exit status and output of a fresh-process replay."""
    p = spawn([pid, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        kill(p)
        return 1, "HANG: replay did not finish"
    if p.returncode == 1 and "VIOLATION property=" not in out:
        return 2, out  # an interpreter error, not a reproduction
    return p.returncode, out


def save_replay(pid, payload):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(canon(payload).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **payload}, f, indent=1)
    return path


def do_replay(pid, path):
    with open(path) as f:
        payload = json.load(f)
    if "history" in payload:
        h = payload["history"]
        with tempfile.TemporaryDirectory() as td:
            out = os.path.join(td, "o.json")
            run_shard(pid, h["tier"], h["seed"], h["shard"], out, stop_at=h["n"])
            with open(out) as f:
                res = json.load(f)
        if res["first"]:
            print("REPRODUCED:", res["first"]["msg"])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print("replay: the property holds on this history")
        return 0
    mod = load(pid)
    tries = getattr(mod, "REPLAY_TRIES", 1)
    for _ in range(tries):
        msg = execute(mod, payload["case"])
        if msg is not None:
            print("REPRODUCED:", msg)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    print("replay: the property holds on this case")
    return 0


def run_property(pid, tier, seed):
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, f"{pid}.json")
    for stale in (ev_path,):
        if os.path.exists(stale):
            os.remove(stale)
    td = tempfile.mkdtemp(prefix="verif-")
    problems, violations, results = [], [], []
    try:
        # 1. seconds-long replay tier: listed findings
        for k in known_findings(pid):
            path = os.path.join(td, "known.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": k["case"]}, f)
            rc, out = replay_file(pid, path)
            if rc == 1:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
            elif rc != 0:
                problems.append(f"known-finding replay exited {rc}: {out[-400:]}")
        # 2. generated search, sharded
        procs = []
        for i in range(NSHARDS):
            out = os.path.join(td, f"s{i}.json")
            err = open(os.path.join(td, f"s{i}.err"), "w+")
            procs.append(
                (i, out, err, spawn([pid, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--out", out],
                                    stdout=err, stderr=err))
            )
        limit = 700 if tier == "quick" else 7200
        deadline = time.monotonic() + limit
        for i, out, err, p in procs:
            try:
                p.wait(timeout=max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                kill(p)
                problems.append(f"shard {i} exceeded {limit} s")
            err.seek(0)
            text = err.read()
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                r["shard"] = i
                results.append(r)
                if r["error"]:
                    problems.append(f"shard {i}: {r['error']}")
            else:
                problems.append(f"shard {i} gave no result (rc {p.returncode}): {text[-1500:]}")
        # 3. confirm what was found, in a fresh process
        seen = set()
        for r in sorted((r for r in results if r["fail"]), key=lambda r: r["fail"]["size"]):
            if len(violations) >= 3:
                break
            for cand in (r["fail"], r["first"]):
                if canon(cand["case"]) in seen:
                    continue
                seen.add(canon(cand["case"]))
                path = save_replay(pid, {"case": cand["case"], "msg": cand["msg"], "tier": tier, "seed": seed})
                rc, out = replay_file(pid, path)
                if rc == 1:
                    violations.append((path, cand["msg"]))
                    break
                os.remove(path)
            else:
                if violations:
                    continue
                # depends on what ran before it: replay the whole history
                path = save_replay(pid, {"history": {"tier": tier, "seed": seed, "shard": r["shard"],
                                                     "n": r["first"]["n"]},
                                         "case": r["first"]["case"], "msg": r["first"]["msg"]})
                rc, out = replay_file(pid, path)
                if rc == 1:
                    violations.append((path, r["first"]["msg"]))
                else:
                    problems.append("not reproducible: %s  %s" % (r["first"]["msg"], canon(r["first"]["case"])[:600]))
                    os.remove(path)
    finally:
        shutil.rmtree(td, ignore_errors=True)

    labels = collections.Counter()
    nontriv = set()
    samples = []
    for r in results:
        labels.update(r["labels"])
        nontriv.update(r["nontriv"])
        samples.extend(r["samples"][:2])
    mod_rule, assumptions = _static_info(pid)
    evals = sum(r["evaluations"] for r in results)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "rule": mod_rule,
            "samples": samples[:6],
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "shards": len(results),
            "skipped_after_time_budget": sum(r["skipped_budget"] for r in results),
        },
        "assumptions": assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} tier={tier} seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, "
          f"{ev['wall_s']} s")
    if violations:
        for path, msg in violations:
            print("  " + msg.replace("\n", "\n  ")[:2000])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        for p in problems:
            print("HARNESS PROBLEM:", p)
        return 2
    if evals == 0 or not nontriv:
        print("HARNESS PROBLEM: nothing non-trivial was explored")
        return 2
    return 0


def _static_info(pid):
    import ast

    src = open(os.path.join(VERIF, "props", pid.lower() + ".py")).read()
    rule, assumptions = "", []
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id == "RULE":
                rule = ast.literal_eval(node.value)
            elif node.targets[0].id == "ASSUMPTIONS":
                assumptions = ast.literal_eval(node.value)
    return rule, assumptions


def main(argv):
    try:
        _main(argv)
    except Exception:
        # an error of the machinery is never exit status 1
        traceback.print_exc()
        sys.stderr.flush()
        sys.exit(2)


def _main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.shard is None and os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(VENV_PY, [VENV_PY, "-B", os.path.join(VERIF, "run.py"), *argv], child_env())
    if a.replay:
        sys.exit(do_replay(pid, a.replay))
    if a.shard is not None:
        gc.set_threshold(5000, 20, 20)
        run_shard(pid, a.tier, a.seed, a.shard, a.out)
        os._exit(0)
    sys.exit(run_property(pid, a.tier, a.seed))
