"""Process-wide state that no library call may change, and the acts (files, processes, sockets) it may not perform."""
import contextlib
import decimal
import gc
import hashlib
import io
import locale
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

# acts recorded while a call is watched
ACTS = ("subprocess.", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.kill", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chdir",
        "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.putenv", "os.unsetenv", "os.utime", "shutil.", "socket.", "urllib.", "tempfile.",
        "sys.settrace", "sys.setprofile", "signal.", "ctypes.", "_thread.start_new_thread", "builtins.input", "os.killpg", "os.forkpty")
_on = [False]
_acts = []
_ready = [False]


def _hook(event, args):
    if not _on[0]:
        return
    if event == "open":
        mode, flags = (args + (None, None, None))[1:3]
        if (isinstance(mode, str) and set(mode) & set("wax+")) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            _acts.append("open for writing %r" % (args[0],))
    elif event.startswith(ACTS):
        _acts.append("%s %r" % (event, args[:2]))


def library(mods):
    """The identity of every attribute of other libraries' modules and types (a call may not replace one)."""
    out = {}
    for m in mods:
        for k, v in list(vars(m).items()):
            if k not in ("__warningregistry__", "__builtins__"):
                out[m.__name__, k] = id(v)
    return out


def generator():
    s = np.random.get_state()
    return hashlib.sha1(pickle.dumps((s[0], s[1].tobytes(), s[2:]))).hexdigest()


def state(mods=(), draws=False, plots=False, files=False):
    """draws: the call may advance NumPy's global generator."""
    s = dict(errors=tuple(sorted(np.geterr().items())), error_call=id(np.geterrcall()), buffer=np.getbufsize(),
             printing=repr(sorted((k, v) for k, v in np.get_printoptions().items())),
             warning_filters=[(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters], show_warning=id(warnings.showwarning),
             python_generator=hash(random.getstate()), cwd=os.getcwd(), environment=sorted(os.environ.items()), locale=locale.setlocale(locale.LC_ALL),
             path=list(sys.path), streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
             gc=(gc.isenabled(), gc.get_threshold()), trace=(id(sys.gettrace()), id(sys.getprofile())), hooks=(id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
             decimals=str(decimal.getcontext()).split(", capitals")[0], threads=sorted(t.name for t in threading.enumerate()),
             signals=[str(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1)],
             libraries=library(mods),
             legacy=id(np.random.mtrand._rand) if hasattr(np.random.mtrand, "_rand") else None)
    if not draws:
        s["generator"] = generator()
    if files:
        s["open_files"] = sorted(os.listdir("/proc/self/fd"))
        s["working_directory"] = sorted(os.listdir("."))
    if plots:
        import matplotlib
        import matplotlib.pyplot as plt
        s["settings"] = sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())
        s["backend"] = matplotlib.get_backend()
        s["figures"] = plt.get_fignums()
        if plt.get_fignums():
            s["current_figure"] = plt.gcf().number
            s["figure_axes"] = [id(a) for a in plt.gcf().axes]
            s["current_axes"] = id(plt.gcf()._axstack.current()) if plt.gcf().axes else None
    return s


def differences(a, b):
    out = []
    for k in a:
        if k == "libraries":                    # modules may gain attributes: submodules are loaded on demand
            changed = [".".join(n) for n in a[k] if a[k][n] != b[k].get(n)]
            if changed:
                out.append("%s: %s" % (k, changed[:4]))
        elif a[k] != b.get(k):
            out.append("%s: %s -> %s" % (k, str(a[k])[:150], str(b.get(k))[:150]))
    return out


@contextlib.contextmanager
def watched(acts, text):
    """Records acts and everything written to standard output and error (also below Python) while a call runs."""
    if not _ready[0]:
        sys.addaudithook(_hook)
        _ready[0] = True
    out = io.StringIO()
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    with tempfile.TemporaryFile() as low:
        o, e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = out
        os.dup2(low.fileno(), 1)
        os.dup2(low.fileno(), 2)
        del _acts[:]
        try:
            _on[0] = True
            yield
        finally:
            _on[0] = False
            swapped = sys.stdout is not out or sys.stderr is not out
            sys.stdout, sys.stderr = o, e
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)
            os.close(keep[0])
            os.close(keep[1])
            low.seek(0)
            acts.extend(_acts)
            if swapped:
                acts.append("standard streams replaced")
            text.append(out.getvalue() + low.read().decode(errors="replace"))
