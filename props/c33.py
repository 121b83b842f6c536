"""C33: decompile() hides exactly the compiled modules of psygnal, recompile() restores exactly those."""
from __future__ import annotations

import atexit
import importlib
import importlib.machinery
import os
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from harness.core import Violation, check, eq

ID = "C33"
RULE = (
    "A case is a tree of up to 10 files in a scratch copy of the package (compiled modules of both kinds with any ABI tag, "
    "some hidden before, links; odd names and directories; files that only look alike) and beside it, and up to 8 of "
    "decompile, recompile, adding and removing a compiled module, from any working directory. "
    "Non-trivial: a call must rename a file, and one must stay."
)
ASSUMPTIONS = [
    "a module that is there both hidden and not hidden, and directories named like compiled modules, are not generated: "
    "the documentation does not say what becomes of them"
]
QUICK, THOROUGH = 500, 8000
QUICK_S = 20
STEMS = ["_signal", "mod", "mod.abi3", "mod.cpython-312-x86_64-linux-gnu", "a b", "\u00e9", "[x]", "x.so", "x_BAK", "pyd", "x.py", "_group"]
DIRS = [".", ".", "containers", "containers/deep/er", "_pyinstaller_util", "dir_BAK", "d.ir", "[d]", "__pycache__", ".hidden"]
EXTS = [".so", ".so", ".pyd", ".so_BAK", ".pyd_BAK"]
OTHERS = ["x.txt", "x.so.1", "x.sox", "x.pyd~", "x_BAK", "xso", "x.pyi", "x.so_BAK2", "x.BAK", "so_BAK", "x.py_BAK", "x.c", "_signal.pyc", "xpyd_BAK"]
OUTSIDE = ["../site.so", "../other/y.so", "../z.pyd_BAK", "../other/psygnal/_signal.so", "../../up.so", "../psygnal_x/q.so"]

_active = [None]  # the directory that the code under test may change


def _inside(path):
    return os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(path)))).startswith(_active[0])


def _audit(event, args):
    if _active[0] is None:
        return
    if event in ("os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod"):
        paths = args[:2] if event in ("os.rename", "os.link", "os.symlink") else args[:1]
        bad = [p for p in paths if isinstance(p, (str, bytes, os.PathLike)) and not _inside(p)]
    elif event == "open" and isinstance(args[0], (str, bytes)) and isinstance(args[2], int):
        bad = [args[0]] if args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and not _inside(args[0]) else []
    elif event.startswith(("subprocess.", "os.system", "os.exec", "os.posix_spawn", "os.fork")):
        bad = [event]
    else:
        return
    if bad:
        raise Violation(f"{event} of {bad} outside the package")


_env = {}


def _scratch():
    """A copy of the package under test, which is what is imported as psygnal from now on."""
    if _env:
        return _env
    import psygnal

    src = os.path.dirname(os.path.abspath(psygnal.__file__))
    root = os.path.realpath(tempfile.mkdtemp(prefix="verif-c33-"))
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
    site = os.path.join(root, "up", "site")
    os.makedirs(os.path.join(root, "cwd"))
    shutil.copytree(src, os.path.join(site, "psygnal"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyd", "*_BAK"))
    for name in [m for m in sys.modules if m == "psygnal" or m.startswith("psygnal.")]:
        del sys.modules[name]
    sys.path.insert(0, site)
    importlib.invalidate_caches()
    import psygnal.utils as utils

    assert os.path.realpath(utils.__file__).startswith(site), utils.__file__
    sys.addaudithook(_audit)
    _env.update(root=root, site=site, pkg=os.path.join(site, "psygnal"), utils=utils)
    _env["base"] = _snapshot(root)
    return _env


def _snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    out[r] = fh.read()
    return out


def strategy(tier):
    compiled = st.tuples(st.sampled_from(DIRS), st.sampled_from(STEMS), st.sampled_from(EXTS), st.sampled_from([0, 0, 0, 1])).map(list)
    other = st.tuples(st.sampled_from(DIRS), st.sampled_from(OTHERS)).map(list)
    outside = st.sampled_from(OUTSIDE).map(lambda x: [x])
    add = compiled.map(lambda c: ["add", *c])
    return st.fixed_dictionaries({
        "files": st.lists(st.one_of(compiled, compiled, compiled, other, outside), max_size=10),
        "ops": st.lists(st.one_of(st.just(["decompile"]), st.just(["recompile"]), st.just(["decompile"]),
                                  st.just(["recompile"]), add, st.tuples(st.just("del"), st.integers(0, 9)).map(list)),
                        min_size=1, max_size=8),
        "cwd": st.sampled_from(["cwd", "up/site/psygnal", "up", "up/site"]),
    })


def _base(path):
    return path[: -len("_BAK")] if path.endswith("_BAK") else path


def run_case(case, ctx):
    env = _scratch()
    root, pkg, utils = env["root"], env["pkg"], env["utils"]
    model = {}  # path relative to root -> content, without the files of the copy
    n = [0]
    made_dirs = []

    def write(rel, link=False):
        p = os.path.normpath(os.path.join(pkg, rel))
        r = os.path.relpath(p, root)
        if r in env["base"] or r in model or _base(r) in {_base(x) for x in model}:
            return
        d = os.path.dirname(p)
        todo = []
        while not os.path.isdir(d):
            todo.append(d)
            d = os.path.dirname(d)
        for x in reversed(todo):
            os.mkdir(x)
            made_dirs.append(x)
        n[0] += 1
        if link:
            os.symlink(f"target{n[0]}", p)
            model[r] = f"-> target{n[0]}"
            ctx.label("link")
        else:
            data = b"content %d" % n[0]
            with open(p, "wb") as fh:
                fh.write(data)
            model[r] = data

    def in_pkg(r):
        return os.path.join(root, r).startswith(pkg + os.sep)

    def compare(where):
        got, want = _snapshot(root), {**env["base"], **model}
        if got != want:
            lost = sorted(k for k in want if k not in got)
            new = sorted(k for k in got if k not in want)
            changed = sorted(k for k in got if k in want and got[k] != want[k])
            raise Violation(f"{where}: missing {lost}, unexpected {new}, changed {changed}")

    def importable(where, hidden):
        """What Python finds for a compiled module with a plain name."""
        importlib.invalidate_caches()
        for r in model:
            p = os.path.join(root, _base(r))
            stem, dot, ext = os.path.basename(p).partition(".")
            if not in_pkg(r) or str(model[r]).startswith("->") or "." + ext not in importlib.machinery.EXTENSION_SUFFIXES or not stem.isidentifier():
                continue
            found = importlib.machinery.PathFinder.find_spec(stem, [os.path.dirname(p)])
            is_ext = found is not None and isinstance(found.loader, importlib.machinery.ExtensionFileLoader)
            if is_ext and hidden:
                raise Violation(f"{where}: Python still loads {found.origin}")
            if not hidden:
                check(is_ext, "%s: Python does not load %s", where, p)
            ctx.label("import-checked")

    old_cwd = os.getcwd()
    try:
        for f in case["files"]:
            if len(f) == 1:
                write(f[0])
            elif len(f) == 2:
                write(f"{f[0]}/{f[1]}")
            else:
                write(f"{f[0]}/{f[1]}{f[2]}", bool(f[3]))
        compare("harness")
        os.chdir(os.path.join(root, case["cwd"]))
        for i, op in enumerate(case["ops"]):
            where = f"op {i} {op}"
            if op[0] == "add":
                write(f"{op[1]}/{op[2]}{op[3]}", bool(op[4]))
            elif op[0] == "del":
                mine = sorted(r for r in model if in_pkg(r))
                if mine:
                    r = mine[op[1] % len(mine)]
                    os.unlink(os.path.join(root, r))
                    del model[r]
            else:
                hide = op[0] == "decompile"
                ends = (".so", ".pyd") if hide else (".so_BAK", ".pyd_BAK")
                moved = {r: (r + "_BAK" if hide else _base(r)) for r in model if in_pkg(r) and r.endswith(ends)}
                if moved:
                    ctx.label("renamed")
                    if len(moved) < len(model):
                        ctx.nontrivial()
                else:
                    ctx.label("nothing to do")
                for a, b in moved.items():
                    model[b] = model.pop(a)
                _active[0] = root
                try:
                    try:
                        res = getattr(utils, op[0])()
                    finally:
                        _active[0] = None
                except Violation:
                    raise
                except Exception as e:
                    raise Violation(f"{where} failed: {e!r}") from e
                eq(res, None, where)
                compare(where)
                importable(where, hide)
    finally:
        os.chdir(old_cwd)
        # back to the bare copy, whatever has happened
        for r in _snapshot(root):
            if r not in env["base"]:
                os.unlink(os.path.join(root, r))
        for d in reversed(made_dirs):
            if os.path.isdir(d) and not os.listdir(d):
                os.rmdir(d)
        left = _snapshot(root)
        for r, data in env["base"].items():
            if left.get(r) != data:
                with open(os.path.join(root, r), "wb") as fh:
                    fh.write(data)


REGRESSIONS = [
    {"files": [[".", "_signal", ".so", 0], ["containers", "mod.cpython-312-x86_64-linux-gnu", ".so", 0],
               [".", "_group", ".pyd", 0], ["containers", "x.so.1"], ["../site.so"]],
     "ops": [["decompile"], ["decompile"], ["recompile"], ["recompile"]], "cwd": "cwd"},
    {"files": [["containers/deep/er", "mod.abi3", ".so_BAK", 0], [".", "x.so", ".so", 1], [".", "x_BAK"]],
     "ops": [["recompile"], ["decompile"], ["add", ".", "mod", ".so", 0], ["recompile"]], "cwd": "up/site/psygnal"},
]
