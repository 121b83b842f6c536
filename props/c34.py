"""C34: psygnal neither needs nor loads a package that the program does not use."""
from __future__ import annotations

import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from harness.core import REPO, HarnessError, Violation

ID = "C34"
RULE = (
    "A case is a fresh interpreter, a set of packages that are missing (in one of two ways), packages that the program has "
    "loaded before psygnal or between two steps, and a program of 1-9 of 32 steps that together use all parts of psygnal. "
    "Non-trivial: at least 3 steps give their result while a package that psygnal knows about is missing or was loaded early, "
    "or a step that needs a missing package is refused."
)
ASSUMPTIONS = ["the packages installed here; mypy_extensions may be loaded if it is there (it is on import)"]
QUICK, THOROUGH = 60, 1500
QUICK_S = 40
MISSING = ["numpy", "pydantic", "attr", "msgspec", "wrapt", "toolz", "qtpy", "typing_extensions", "mypy_extensions", "dask", "rich"]
PRELOAD = ["numpy", "pydantic", "attr", "msgspec", "wrapt", "toolz", "typing_extensions", "PySide2"]
OPS = ["signal", "weak_method", "set_targets", "group", "evented_dataclass", "evented_descriptor", "odd_equality",
       "evented_attrs", "evented_msgspec", "evented_pydantic", "pydantic_list", "numpy_field", "toolz_curry", "evented_list",
       "dict_and_set", "selectable", "throttle", "debounce", "failing", "queued", "monitor", "typed", "copies",
       "introspect", "callables", "paused", "plain_class", "children", "array_likes", "proxy", "model", "qt"]


def strategy(tier):
    return st.fixed_dictionaries({
        "missing": st.one_of(st.lists(st.sampled_from(MISSING), unique=True, max_size=4), st.just(MISSING), st.just([])),
        "how": st.sampled_from(["finder", "finder", "none"]),
        "preload": st.lists(st.tuples(st.sampled_from(PRELOAD), st.integers(0, 6)).map(list), max_size=3),
        "ops": st.lists(st.sampled_from(OPS), unique=True, min_size=1, max_size=9),
    })


_cache = []


def _pycache():
    if not _cache:
        d = tempfile.mkdtemp(prefix="verif-c34-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        _cache.append(d)
    return _cache[0]


def run_case(case, ctx):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPYCACHEPREFIX=_pycache(), PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", QT_QPA_PLATFORM="offscreen")
    child = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c34_child.py")
    try:
        p = subprocess.run([sys.executable, "-P", child, os.path.join(REPO, "src")], input=json.dumps(case), env=env,
                           capture_output=True, text=True, timeout=28)
    except subprocess.TimeoutExpired:
        raise Violation("the program does not finish") from None
    try:
        res = json.loads(p.stdout)
    except ValueError:
        raise HarnessError(f"child: rc={p.returncode} {p.stdout[-300:]} {p.stderr[-1500:]}") from None
    for lab in set(res["labels"]):
        ctx.label(lab)
    if res["problems"]:
        raise Violation(res["problems"][0])
    if (res["ok"] >= 3 and (case["missing"] or "preloaded" in res["labels"])) or res["blocked"]:
        ctx.nontrivial()


REGRESSIONS = [
    {"missing": MISSING, "how": h, "preload": [], "ops": sorted(set(OPS))[a::4]} for h in ("finder", "none") for a in range(4)
] + [{"missing": [], "how": "finder", "preload": [[m, 0] for m in PRELOAD], "ops": sorted(set(OPS))[a::4]} for a in range(4)]
REGRESSIONS += [{"missing": [], "how": "finder", "preload": [["PySide2", 0]], "ops": ["model", "evented_pydantic"]}]
