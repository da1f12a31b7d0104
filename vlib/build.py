"""Scratch copy of the working tree's package; Fortran kernels are built in it when first needed."""
import ast
import atexit
import concurrent.futures
import glob
import importlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import types

REPO = os.environ.get("MAGPIE_REPO", "/repo")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class HarnessError(Exception):
    """Something other than the code under test went wrong."""


def scratch(prefix="magpie-verif-"):
    path = tempfile.mkdtemp(prefix=prefix)
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(remove)
    return path


def copy_package(dst):
    src = os.path.join(REPO, "magpie")
    if not os.path.isdir(src):
        raise HarnessError("no package at " + src)
    shutil.copytree(src, os.path.join(dst, "magpie"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.pyd", "*.dylib"))


def extensions():
    """(name, sources) of every Extension(...) in setup.py."""
    with open(os.path.join(REPO, "setup.py"), "rb") as f:
        tree = ast.parse(f.read(), "setup.py")
    out = []
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Extension":
            args = dict(zip(("name", "sources"), node.args))
            args.update((k.arg, k.value) for k in node.keywords)
            out.append((ast.literal_eval(args["name"]), ast.literal_eval(args["sources"])))
    if not out:
        raise HarnessError("setup.py declares no extensions")
    return out


def _build_one(root, name, sources, flags, link):
    module = name.rpartition(".")[2]
    work = os.path.join(root, "fbuild", name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cmd = [sys.executable, "-m", "numpy.f2py", "-c", "--backend", "meson", "--build-dir", os.path.join(work, "meson")]
    if flags:
        cmd += ["--f77flags=" + flags, "--f90flags=" + flags]
    cmd += ["-I" + os.path.join(root, d) for d in sorted({os.path.dirname(s) for s in sources})]
    cmd += ["-m", module] + [os.path.join(root, s) for s in sources]
    env = dict(ENV)
    if flags:
        env["FFLAGS"] = flags
    if link:
        env["LDFLAGS"] = link
    run = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", env=env, timeout=600)
    built = os.path.join(work, module + SUFFIX)
    if run.returncode or not os.path.exists(built):
        raise HarnessError("build of %s failed:\n%s" % (name, run.stdout[-3000:]))
    os.replace(built, os.path.join(root, name.replace(".", "/") + SUFFIX))
    shutil.rmtree(work, ignore_errors=True)


def build_fortran(root, flags="", link=""):
    exts = extensions()
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for job in [pool.submit(_build_one, root, n, s, flags, link) for n, s in exts]:
            job.result()


class _Lazy(types.ModuleType):
    """Stands in for magpie.src until something needs a kernel."""

    def __init__(self, root):
        super().__init__("magpie.src")
        self.__dict__["_root"] = root
        self.__dict__["_real"] = None
        self.__dict__["__path__"] = []

    def _load(self):
        if self._real is None:
            build_fortran(self._root)
            sys.modules.pop("magpie.src", None)
            try:
                real = importlib.import_module("magpie.src")
            except ImportError as e:
                raise HarnessError("cannot import the kernels: %s" % e)
            self.__dict__["_real"] = real
            if "magpie" in sys.modules:
                sys.modules["magpie"].src = real
        return self._real

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return getattr(self._load(), name)


def load(need_fortran=False):
    """Imports magpie from a fresh scratch copy and returns it, with all subpackages."""
    root = scratch()
    copy_package(root)
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(REPO)]
    sys.path.insert(0, root)
    lazy = _Lazy(root)
    sys.modules["magpie.src"] = lazy
    names = ["magpie", "magpie.coords", "magpie.grids", "magpie.one_d", "magpie.pixel", "magpie.polar",
             "magpie.randoms", "magpie.remap", "magpie.utils", "magpie.montecarlo", "magpie.densegrid"]

    def imports():
        for n in names:
            importlib.import_module(n)
        return sys.modules["magpie"]
    try:
        magpie = imports()
    except Exception:
        # the package uses magpie.src in another way at import time: build first, then import for real
        for n in [m for m in sys.modules if m == "magpie" or m.startswith("magpie.")]:
            del sys.modules[n]
        build_fortran(root)
        try:
            magpie = imports()
            importlib.import_module("magpie.src")
        except Exception as e:
            raise HarnessError("cannot import magpie: %s: %s" % (type(e).__name__, e))
        lazy = None
    if not os.path.abspath(magpie.__file__).startswith(root + os.sep):
        raise HarnessError("imported magpie from " + magpie.__file__)
    if need_fortran and lazy is not None:
        lazy._load()
    return magpie, root


def plots():
    try:
        return importlib.import_module("magpie.plots")
    except Exception as e:
        raise HarnessError("cannot import magpie.plots: %s: %s" % (type(e).__name__, e))


def fortran_sources(root):
    return sorted(glob.glob(os.path.join(root, "magpie", "src", "*.f90")))
