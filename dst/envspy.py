"""The process environment as the simulator wants pyBSM to see it.

Every question pyBSM's code asks about the world around it (environment
variables, clocks, dates, host, user, process ids, processors, temporary
directory) is answered with values drawn from the seed; other code's questions
are passed on.
"""
import collections.abc
import datetime
import getpass
import os
import platform
import random
import socket
import sys
import tempfile
import time

ASKED = []


def from_pybsm(depth=2):
    """Whether the nearest caller outside the standard library's environment code is pyBSM."""
    f = sys._getframe(depth)
    while f is not None:
        fn = f.f_code.co_filename
        if fn in SKIP or fn.startswith("<frozen "):
            f = f.f_back
            continue
        return str(f.f_globals.get("__name__", "")).split(".")[0] == "pybsm"
    return False


SKIP = {os.__file__, collections.abc.__file__, __file__, getpass.__file__, platform.__file__, tempfile.__file__, datetime.__file__, os.path.__file__}
VALUES = ["1", "0", "", "true", "off", "/nonexistent", "4", "float32", "nearest", "/tmp", "DEBUG", "12.5", "é"]


def install(seed):
    r = random.Random(seed)
    drawn = {}

    def value(name):
        if name not in drawn:
            drawn[name] = r.choice(VALUES)
        ASKED.append(str(name))
        return drawn[name]

    E = type(os.environ)

    class Environ(E):
        def __getitem__(self, k):
            if from_pybsm():
                return value(k)
            return E.__getitem__(self, k)

        def __contains__(self, k):
            if from_pybsm():
                value(k)
                return True
            return E.__contains__(self, k)

        def get(self, k, default=None):
            if from_pybsm():
                return value(k)
            return E.get(self, k, default)

    os.environ.__class__ = Environ
    skew = r.choice([-3e8, -4000.0, 0.0, 0.25, 86400.0 * 200, 4e9])
    step = r.choice([0.0, 1e-3, 30.0, -5.0, 9e5])
    tick = [0.0]

    def now():
        tick[0] += step
        return 1.7e9 + skew + tick[0]

    def wrap(mod, name, fn):
        real = getattr(mod, name, None)
        if real is None:
            return

        def asked(*a, **k):
            if from_pybsm():
                ASKED.append(mod.__name__ + "." + name)
                return fn(*a, **k)
            return real(*a, **k)

        asked.__name__ = name
        setattr(mod, name, asked)

    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        wrap(time, name, now)
        wrap(time, name + "_ns", lambda: int(now() * 1e9))
    for name in ("localtime", "gmtime"):
        real = getattr(time, name)
        wrap(time, name, lambda *a, real=real: real(*(a or (now(),))))
    wrap(time, "sleep", lambda s: tick.__setitem__(0, tick[0] + s))
    D, DT = datetime.date, datetime.datetime

    class FakeDT(DT):
        @classmethod
        def now(cls, tz=None):
            return DT.fromtimestamp(now(), tz) if from_pybsm() else DT.now(tz)

        @classmethod
        def utcnow(cls):
            return DT.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None) if from_pybsm() else DT.now(datetime.timezone.utc).replace(tzinfo=None)

        today = now

    class FakeD(D):
        @classmethod
        def today(cls):
            return DT.fromtimestamp(now()).date() if from_pybsm() else D.today()

    datetime.datetime, datetime.date = FakeDT, FakeD
    pid = r.randrange(2, 4_000_000)
    for mod, name, v in (
        (os, "getpid", pid), (os, "getppid", 1), (os, "cpu_count", r.choice([1, 2, 64, None])), (os, "getuid", 12345), (os, "getlogin", "nobody"), (os, "getenvb", b""),
        (socket, "gethostname", "host%d" % r.randrange(9)), (socket, "getfqdn", "x.example"), (platform, "node", "n"), (platform, "system", r.choice(["Windows", "Darwin", "Linux", "Java"])),
        (platform, "machine", r.choice(["arm64", "x86_64", ""])), (platform, "processor", ""), (platform, "platform", "?"), (platform, "release", "0"), (getpass, "getuser", "nobody"),
        (os, "getloadavg", (99.0, 50.0, 10.0)), (tempfile, "gettempdir", "/nonexistent/tmp"),
    ):
        wrap(mod, name, lambda *a, v=v, **k: v)
    if hasattr(os, "process_cpu_count"):
        wrap(os, "process_cpu_count", lambda: 3)
