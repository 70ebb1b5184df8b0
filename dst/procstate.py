"""Everything process-wide that a library call has no business changing."""
import atexit
import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings

import numpy as np

_mine = threading.local()


def _fns(mod):
    """Identity of a module's public functions and classes (monkey-patching shows)."""
    return {k: id(v) for k, v in list(vars(mod).items()) if not k.startswith("__") and not isinstance(v, types.ModuleType)}


def _loggers():
    out = {}
    for nm, lg in [("root", logging.getLogger())] + sorted((n, x) for n, x in logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger)):
        v = (lg.level, lg.propagate, lg.disabled, tuple(type(h).__name__ + str(h.level) for h in lg.handlers), len(lg.filters))
        if nm == "root" or v != (0, True, False, (), 0):
            out[nm] = v
    return out


def _fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[int(f)] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    # Matplotlib keeps the fonts it has drawn with open
    return {k: v for k, v in out.items() if not v.startswith("/proc/") and not v.endswith((".ttf", ".afm", ".otf"))}


def _rc(mpl):
    return {k: repr(v) for k, v in dict.items(mpl.rcParams)}


def snapshot(noise=False, plots=False):
    import matplotlib
    import matplotlib.pyplot as plt
    import scipy.special

    s = {}
    try:
        s["working directory"] = os.getcwd()
    except OSError:
        s["working directory"] = None
    s["environment"] = dict(os.environ)
    s["C environment"] = {k: v for k, v in os.environb.items()}
    s["signal handlers"] = {n: str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGPIPE, signal.SIGSEGV, signal.SIGFPE)}
    s["blocked signals"] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s["timers"] = (signal.getitimer(signal.ITIMER_REAL)[1], signal.getitimer(signal.ITIMER_REAL)[0] > 0)
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warnings.showwarning"] = (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn), id(warnings.filters))
    s["logging"] = _loggers()
    s["logging manager"] = (logging.root.manager.disable, logging.raiseExceptions, str(logging.getLoggerClass()), id(logging.getLogRecordFactory()), logging.lastResort is None, logging._srcfile is None, {k: v for k, v in logging._levelToName.items()})
    s["floating-point error handling"] = (np.geterr(), repr(np.geterrcall()), np.getbufsize())
    s["special-function error handling"] = scipy.special.geterr()
    s["print options"] = repr(np.get_printoptions())
    s["decimal context"] = repr(decimal.getcontext())
    s["plotting defaults"] = _rc(matplotlib)
    s["plotting backend"] = (matplotlib.get_backend(), plt.isinteractive())
    if not plots:
        s["figures"] = {n: id(plt.figure(n)) if False else n for n in plt.get_fignums()}
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count())
    s["standard streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__), getattr(sys.stdout, "closed", None), getattr(sys.stderr, "closed", None))
    s["interpreter"] = (sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), sys.dont_write_bytecode, sys.get_int_max_str_digits(), [str(x) for x in sys.path], len(sys.meta_path), len(sys.path_hooks), tracemalloc.is_tracing(), faulthandler.is_enabled(), threading.stack_size(), sys.flags.optimize)
    s["tracing"] = (str(getattr(threading, "_trace_hook", None)), str(getattr(threading, "_profile_hook", None)), str(sys.getprofile()), str(sys.gettrace()))
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["exit handlers"] = atexit._ncallbacks()
    s["umask"] = os.umask(0o22)
    os.umask(s["umask"])
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["time zone"] = (time.tzname, os.environ.get("TZ"))
    s["resource limits"] = [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_STACK, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU, resource.RLIMIT_NPROC)]
    s["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    s["socket timeout"] = socket.getdefaulttimeout()
    s["open descriptors"] = _fds()
    s["identity"] = (os.getpid(), os.getppid(), os.getuid(), os.getgid(), os.getpgid(0), os.getsid(0))
    s["Python random state"] = hash(random.getstate())
    if not noise:
        st = np.random.get_state()
        s["NumPy random state"] = (st[0], st[1].tobytes(), st[2:])
    s["NumPy random generator"] = (id(np.random.mtrand._rand), id(np.random.mtrand._rand._bit_generator))
    mods = {"builtins": builtins, "numpy": np, "numpy.random": np.random, "numpy.fft": np.fft, "math": math, "os": os, "os.path": os.path, "warnings": warnings, "time": time, "random": random, "logging": logging, "matplotlib": matplotlib, "scipy.special": scipy.special}
    for nm in ("scipy.interpolate", "matplotlib.pyplot", "cv2", "inspect"):
        if nm in sys.modules:
            mods[nm] = sys.modules[nm]
    skip = {("matplotlib", "rcParams"), ("warnings", "_filters_version"), ("warnings", "_onceregistry"), ("warnings", "filters"), ("builtins", "_"), ("os", "environ")}
    for nm, m in mods.items():
        s["module " + nm] = {k: v for k, v in _fns(m).items() if (nm, k) not in skip}
    s["module matplotlib.pyplot"] = {k: v for k, v in s["module matplotlib.pyplot"].items() if k[0] != "_" and callable(getattr(sys.modules["matplotlib.pyplot"], k, None))}
    if "cv2" in sys.modules:
        cv2 = sys.modules["cv2"]
        s["OpenCV"] = (cv2.getNumThreads(), cv2.useOptimized(), cv2.ocl.useOpenCL() if hasattr(cv2, "ocl") else None)
        # OpenCV's generator (one for each thread) cannot be read: it always stands at
        # the same place between snapshots, and gives the same number unless someone used it
        if not getattr(_mine, "seeded", False):
            cv2.setRNGSeed(4711)
            _mine.seeded = True
        s["OpenCV random state"] = float(cv2.randu(np.zeros((1, 1)), 0.0, 1.0)[0, 0])
        cv2.setRNGSeed(4711)
    return s


def difference(a, b, ignore=()):
    """(area, description) of the first difference, or None."""
    for k in a:
        if k in ignore or k not in b:
            continue
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict) and isinstance(y, dict):
                ch = ["%s: %s -> %s" % (i, _b(x.get(i)), _b(y.get(i))) for i in sorted(set(x) | set(y), key=str) if x.get(i) != y.get(i)]
                return k, "; ".join(ch[:3])
            if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
                ch = ["[%d] %s -> %s" % (i, _b(p), _b(q)) for i, (p, q) in enumerate(zip(x, y)) if p != q]
                return k, "; ".join(ch[:3])
            return k, "%s -> %s" % (_b(x), _b(y))
    return None


def _b(x):
    r = repr(x)
    return r if len(r) < 160 else r[:157] + "..."
