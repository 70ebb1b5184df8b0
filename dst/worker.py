"""A simulated machine's process: imports pyBSM from its own disk, then forks one
child per run (or, as the oracle, one child per question), so that every run
starts from the same freshly imported state.

    python -m dst.worker run|oracle BASE [preimport options]
"""
import collections
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback


def send(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b[: 1 << 20])
        b = b[n:]


def recv(fd, deadline=None):
    def rd(n):
        out = b""
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out

    (n,) = struct.unpack("<Q", rd(8))
    return pickle.loads(rd(n))


GRID = 61  # simulate_image's frequency grid in simulated runs (1501 in the code); None: as in the code


PADDING, SMALL = 100, 24
REDUCED = 1501


def patch_grid():
    import numpy as np

    real = np.linspace

    def linspace(start, stop, num=50, *a, **k):
        if GRID:
            if num == REDUCED:
                num = GRID
            elif num == PADDING and sys._getframe(1).f_globals.get("__name__") == "pybsm.otf.functional":
                num = SMALL
        return real(start, stop, num, *a, **k)

    linspace.__wrapped__ = real
    np.linspace = linspace
    real_fft2 = np.fft.fft2

    # filter_OTF's zero padding ("the exact size doesn't matter too much"), whose triangulation dominates
    def fft2(a, s=None, *r, **k):
        if GRID and s is not None and np.ndim(a) == 2 and list(np.ravel(s)) == [PADDING, PADDING] and max(np.shape(a)) <= SMALL:
            s = [SMALL, SMALL]
        return real_fft2(a, s, *r, **k)

    fft2.__wrapped__ = real_fft2
    np.fft.fft2 = fft2


PARSED = {}
ITS_FILTERS = []  # the warning filters pyBSM adds when it is imported


def patch_parse():
    """Parse an undamaged decoder table once: the file is still opened and read every time."""
    import numpy as np

    real = np.genfromtxt

    def genfromtxt(fname, *a, **k):
        if GRID and isinstance(fname, (str, os.PathLike)) and not a:
            with open(fname, "rb") as f:
                data = f.read()
            key = (hash(data), len(data), repr(sorted(k.items())))
            if key not in PARSED:
                if len(data) < 45000:
                    return real(fname, **k)
                PARSED[key] = real(fname, **k)
            return PARSED[key].copy()
        return real(fname, *a, **k)

    genfromtxt.__wrapped__ = real
    np.genfromtxt = genfromtxt


def boot(base, sub="src", silence=True):
    """Import pyBSM from the machine's own disk."""
    src = os.path.join(base, sub)
    sys.path.insert(0, src)
    from . import disk

    layout = disk.Layout(base)  # before any of pyBSM's code has run
    if silence:
        fd = os.open(os.path.join(os.path.dirname(base), os.path.basename(base) + ".stderr"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(fd, 2)
        os.close(fd)
    os.chdir(os.path.join(base, "cwd"))
    from . import sim

    sim.patch_locks()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401

    patch_grid()
    patch_parse()
    sim.patch_clock()
    try:
        import cv2

        cv2.setNumThreads(0)
    except ImportError:
        pass
    try:
        import pkg_resources  # noqa: F401
    except ImportError:
        pass
    import warnings

    before = list(warnings.filters)
    import pybsm  # noqa: F401
    import pybsm.geospatial
    import pybsm.metrics
    import pybsm.noise
    import pybsm.otf
    import pybsm.radiance
    import pybsm.simulation
    import pybsm.utils  # noqa: F401

    ITS_FILTERS[:] = [f for f in warnings.filters if f not in before]
    assert os.path.realpath(pybsm.__file__).startswith(os.path.realpath(src)), pybsm.__file__
    warm()
    calibrate()
    layout.restore()
    return layout


def calibrate():
    """Do without a size reduction that the code, as it now is, does not bear (tried out in a child)."""
    global PADDING, REDUCED

    def tries(which):
        pid = os.fork()
        if pid:
            return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0
        code = 1
        try:
            import warnings

            import numpy as np

            warnings.simplefilter("ignore")
            from . import ops

            if which == "padding":
                u, v = (ops.make_array(k, 5, [2e4]) for k in "UV")
                ops.resolve("otf.filter_OTF")(u, v, ops.make_array("kern", 3, [0.125]), 1e-5)
            else:
                sn = ops.make({"k": "sensor", "name": "c", "band": 0, "a": {"D": 0.3, "f": 4.0, "p_x": 2e-5}})
                sc = ops.make({"k": "scen", "name": "s", "ihaze": 1, "altitude": 9000, "ground_range": 0, "interp": False, "a": {}})
                ref = ops.make({"k": "ref", "img": {"k": "img", "n": 20, "p": [0.5, 0.5]}, "gsd": 0.03, "name": "r"})
                ops.resolve("simulation.simulate_image")(ref, sn, sc)
            code = 0
        finally:
            os._exit(code)

    if not tries("padding"):
        PADDING = -1
    if not tries("grid"):
        REDUCED = -1


def warm():
    """Load what NumPy, SciPy and Matplotlib import lazily, so that it is not part of any run."""
    import numpy as np
    import scipy.interpolate  # noqa: F401
    import scipy.special  # noqa: F401

    np.random.get_state()
    np.genfromtxt(os.path.join(os.path.dirname(sys.modules["pybsm"].__file__), "atms", "fileDecoder.csv"), delimiter=",", skip_header=1)
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()  # fonts and colour maps
    ax.imshow(np.eye(3), cmap="gray")
    ax.set_title("t")
    ax.legend(ax.plot([0, 1]), ["a"])
    fig.canvas.draw()
    plt.close(fig)


def answer(q):
    """In a fresh child: make the call on fresh objects and report its outcome."""
    global GRID
    import numpy as np

    import pybsm

    from . import ops, values

    GRID = q.get("grid", GRID)
    # arguments given as pickles are restored from them; the others are made afresh
    pk = q.get("pickles") or {}
    if q.get("pad"):
        # whatever is allocated from here on lies somewhere else
        import random

        r = random.Random(q["pad"])
        junk = [np.empty(r.randrange(16, 16 * 4 ** r.randrange(1, 6), 16), np.uint8) for _ in range(400)]
        r.shuffle(junk)
        del junk[::2]
        values.ARRANGE = q["pad"]
    args = [pickle.loads(pk[i]) if i in pk else values.build(a, pybsm) for i, a in enumerate(q["args"])]
    import random

    random.seed(3)
    np.random.seed(20011)
    if q.get("rng") is not None:
        np.random.set_state(q["rng"])
    f = ops.resolve(q["op"])
    if q.get("count"):
        from . import sim

        inj = sim.Injector(os.path.dirname(os.path.abspath(pybsm.__file__)), record=True)
        sim.install_audit(os.path.join(os.path.dirname(pybsm.__file__), "atms"))
        with inj:
            try:
                f(*args)
            except Exception:
                pass
        ids = {}
        seq = [ids.setdefault(x, len(ids)) for x in inj.seq]
        return ("count", inj.sites, inj.opens, seq, [(os.path.relpath(f, inj.pkg), ln) for f, ln in ids])
    try:
        r = ("ok", f(*args))
    except Exception as e:
        r = ("exc", e)
    if r[0] == "ok":
        out = ("ok", values.canon(r[1], tuple(q.get("drop", ()))))
    else:
        out = ("exc", type(r[1]).__name__)
    if q.get("rng") is not None:
        out = out + (np.random.get_state(),)
    return out


def oracle_main(base):
    layout = boot(base)
    rfd, wfd = 0, os.dup(1)
    os.dup2(2, 1)
    cache, size = collections.OrderedDict(), 0
    send(wfd, "ready")
    while True:
        try:
            key, q = recv(rfd)
        except EOFError:
            return
        if key in cache:
            cache.move_to_end(key)
            b = cache[key]
        else:
            b = in_child(lambda: pickle.dumps(answer(q), 4))
            layout.restore()  # each answer comes from a machine as it was installed
            cache[key] = b
            size += len(b)
            while size > 200 << 20:
                _, old = cache.popitem(last=False)
                size -= len(old)
        os.write(wfd, struct.pack("<Q", len(b)))
        while b:
            b = b[os.write(wfd, b[: 1 << 20]) :]


def in_child(fn, timeout=120):
    """fn() -> bytes, evaluated in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = fn()
        except BaseException:
            b = pickle.dumps(("harness", traceback.format_exc()), 4)
        try:
            while b:
                b = b[os.write(w, b[: 1 << 20]) :]
        finally:
            os._exit(0)
    os.close(w)
    out, end = [], time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return pickle.dumps(("harness", "oracle timeout"), 4)
        c = os.read(r, 1 << 20)
        if not c:
            break
        out.append(c)
    os.close(r)
    os.waitpid(pid, 0)
    return b"".join(out)


class Harness(Exception):
    """Something went wrong in the machinery, not in the code under test."""


class Ctx:
    """What a run sees of the world around it."""

    def __init__(self, base, obase, orr, oww):
        self.base, self.root = base, os.path.dirname(base)
        self.pkg = os.path.join(os.path.realpath(base), "src", "pybsm") + os.sep
        self.atms = os.path.join(base, "src", "pybsm", "atms")
        self.store = os.path.join(self.root, "store")
        self.orr, self.oww = orr, oww
        self.stats = collections.Counter()
        self.states = set()
        self.logged = []
        self.where = None
        self.notes = collections.deque(maxlen=6)
        self.asked = 0
        self._db = None
        self._time = self.seed = None
        self.grid = GRID

    @property
    def db(self):
        if self._db is None:
            from . import dbmodel

            self._db = dbmodel.DB(os.path.join(os.path.dirname(self.base), "pristine.csv"))
        return self._db

    def oracle(self, op, args, rng=None, **kw):
        from . import values

        q = {"op": op, "args": args, "rng": rng, "grid": self.grid}
        q.update(kw)
        key = values.digest(q)
        self.asked += 1
        send(self.oww, (key, q))
        n = struct.unpack("<Q", _readn(self.orr, 8))[0]
        out = pickle.loads(_readn(self.orr, n))
        if out[0] == "harness":
            raise Harness(out[1])
        return out

    def tick(self):
        """Time passes between the caller's steps: none, a little, a lot; now and then the wall clock is set."""
        from . import sim

        if self._time is None:
            import random

            self._time = random.Random(str(self.seed))
        r = self._time
        jump = r.choice([-7200.0, -1.5, 3600.0, 4e7]) if r.random() < 0.06 else 0.0
        sim.CLOCK.move(r.choice([0.0, 0.0, 1e-4, 0.3, 2.0, 61.0, 3601.0, 90000.0]), jump)
        if jump:
            self.stats["fault:clock jump"] += 1

    def log(self, item):
        self.logged.append(item)

    def note(self, *a):
        self.notes.append(a)


def _readn(fd, n):
    out = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            raise Harness("oracle ended")
        out.append(c)
        n -= len(c)
    return b"".join(out)


def execute(prop, plan, ctx):
    """One simulated run. Returns a JSON-able result."""
    import hashlib
    import importlib

    from . import machine, sim

    global GRID
    mod = importlib.import_module("dst.props." + prop.lower())
    GRID = ctx.grid = plan.get("grid", GRID)
    sim.install_audit(ctx.atms)
    import random

    import numpy as np

    h = hashlib.blake2b(str(plan.get("seed", "")).encode(), digest_size=8).digest()
    random.seed(h)
    np.random.seed(list(h))
    vio = None
    ctx.seed = plan.get("seed")
    try:
        mod.run(plan, ctx)
    except machine.Found as e:
        vio = {"class": e.cls, "detail": e.detail, "where": ctx.where}
    except (sim.Deadlock, sim.Violation) as e:
        vio = {"class": "progress", "detail": str(e), "where": ctx.where}
    if sim.CLOCK.read:
        ctx.stats["clock read"] += sim.CLOCK.read
    ctx.stats["virtual seconds"] += int(sim.CLOCK.mono - 5000)
    digest = hashlib.blake2b(repr(ctx.logged).encode(), digest_size=12).hexdigest()
    return {"violation": vio, "stats": dict(ctx.stats), "digest": digest, "states": sorted(ctx.states), "log": ctx.logged[-40:] if plan.get("trace") else None}


def run_main(base, obase):
    env = dict(os.environ)
    orc = _spawn_oracle(obase, env)
    layout = boot(base)
    rfd, wfd = 0, os.dup(1)
    os.dup2(2, 1)
    from . import ops, values, machine, sim, dbmodel, disk  # noqa: F401

    _oracle_ready(orc)
    send(wfd, "ready")
    import gc

    gc.collect()
    gc.freeze()
    # This process does as little as possible between runs, so that each starts from the same memory.
    while True:
        head = os.read(rfd, 16)
        if len(head) < 16:
            break
        (n, limit) = struct.unpack("<Qd", head)
        if orc is None:
            orc = _spawn_oracle(obase, env)
            _oracle_ready(orc)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            job = pickle.loads(_readn(rfd, n))
            os.close(rfd)
            os.close(wfd)
            os.open(os.devnull, os.O_RDONLY)
            os.setpgid(0, 0)
            ctx = Ctx(base, obase, orc.stdout.fileno(), orc.stdin.fileno())
            try:
                out = execute(job["prop"], job["plan"], ctx)
            except BaseException:
                out = {"harness": traceback.format_exc()}
            try:
                try:
                    send(w, out)
                except BaseException:
                    send(w, {"harness": traceback.format_exc()})
            finally:
                os._exit(0)
        os.close(w)
        b, why = [], None
        end = time.monotonic() + limit
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                why = {"harness": "run timed out after %d s" % limit, "timeout": True}
                break
            c = os.read(r, 1 << 20)
            b.append(c)
            if not c:
                break
        os.close(r)
        for kill, who in ((os.killpg, pid), (os.kill, pid)):
            try:
                kill(who, signal.SIGKILL)
            except OSError:
                pass
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        b = b"".join(b)
        if why is None and (len(b) < 8 or len(b) != 8 + struct.unpack("<Q", b[:8])[0]):
            why = {"harness": "run process died (%d)" % code}
        if why is not None:
            b = pickle.dumps(why, 4)
            b = struct.pack("<Q", len(b)) + b
        if why is not None or b"harness" in b[:60]:
            orc.kill()
            orc.wait()
            orc = None
        pid = os.fork()  # the disk is put back by another process, so that this one stays as it is
        if pid == 0:
            try:
                disk.heal_all(base)
                layout.restore()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        while b:
            b = b[os.write(wfd, b[: 1 << 20]) :]
    if orc is not None:
        orc.kill()


def _spawn_oracle(obase, env):
    import subprocess

    p = subprocess.Popen([sys.executable, "-m", "dst.worker", "oracle", obase], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=0, cwd=env["DST_HOME"])
    return p


def _oracle_ready(p):
    assert recv(p.stdout.fileno()) == "ready"


if __name__ == "__main__":
    sys.modules["dst.worker"] = sys.modules["__main__"]
    if sys.argv[1] == "oracle":
        oracle_main(sys.argv[2])
    else:
        run_main(sys.argv[2], sys.argv[3])
