"""The simulator: scheduling, failure injection and process kills under its control.

Real Python threads run one at a time.  A trace function parks the running
thread at each line (or bytecode instruction) of pyBSM's own code and at each
file access, and the schedule (a list drawn from the seed beforehand) says after
how many such points which thread goes on.  The same points carry the injected
failures.
"""
import _thread
import ast
import errno
import os
import sys
import threading
import time

_REAL_LOCK = _thread.allocate_lock
_SLEEP = time.sleep
_REAL = {n: getattr(threading, n) for n in ("Lock", "RLock")}

CURRENT = None  # the Sim whose threads are running, if any


class Violation(Exception):
    pass


class Deadlock(BaseException):
    pass


class SimLock:
    """Stands in for threading.Lock/RLock when pyBSM's code makes one."""

    def __init__(self, reentrant):
        self.re, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        sim = CURRENT
        if sim is not None:
            sim.point(None)
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking or timeout >= 0:
                if not blocking or timeout == 0 or sim is None or not sim.pause(timeout):
                    return False
                timeout = 0  # the others have had time meanwhile
            elif sim is None or not sim.block(self):
                if not self._foreign():
                    raise Deadlock("waits for a lock that nobody will release")
        self.owner, self.n = me, self.n + 1
        return True

    def _foreign(self):
        """Threads the library started by itself may release it: real time passes while they run."""
        for _ in range(4000):
            if self.owner is None:
                return True
            ours = set(CURRENT.idents) if isinstance(CURRENT, Sim) else {_thread.get_ident()}
            if not any(t.is_alive() and t.ident not in ours and t is not threading.main_thread() for t in threading.enumerate()):
                return False
            _SLEEP(0.005)
        return False

    def release(self):
        if self.owner is None or (self.re and self.owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0
            if CURRENT is not None:
                CURRENT._unblock()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    _is_owned = locked

    def _release_save(self):
        n, self.n = self.n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n

    def _at_fork_reinit(self):
        self.owner, self.n = None, 0

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self.re else "lock"))


def patch_locks():
    """Locks made by pyBSM's modules, also inside a Condition, Event or Semaphore of theirs, become simulated ones (call before importing it)."""

    def for_pybsm():
        f = sys._getframe(2)
        while f is not None and f.f_globals.get("__name__") == "threading":
            if isinstance(f.f_locals.get("self"), threading.Thread):
                return False
            f = f.f_back
        return f is not None and str(f.f_globals.get("__name__", "")).split(".")[0] == "pybsm"

    def factory(name, real):
        def make(*a, **k):
            if for_pybsm():
                return SimLock(name == "RLock")
            return real(*a, **k)

        return make

    for n in _REAL:
        setattr(threading, n, factory(n, _REAL[n]))
    threading._allocate_lock = factory("Lock", threading._allocate_lock)


# ------------------------------------------------------------------ the clock


class Clock:
    """The time pyBSM's code sees, if it asks: virtual, moved only by the simulator."""

    def __init__(self):
        self.wall, self.mono, self.read = 1.7e9, 5000.0, 0

    def move(self, dt, jump=0.0):
        """dt seconds pass; jump: the wall clock is set besides."""
        self.mono += dt
        self.wall += dt + jump


CLOCK = Clock()


def patch_clock():
    """Clocks asked by pyBSM's own modules answer with virtual time (call before importing it)."""
    import datetime
    import time

    def inside():
        return str(sys._getframe(2).f_globals.get("__name__", "")).split(".")[0] == "pybsm"

    def wrap(name, fn):
        real = getattr(time, name)

        def asked(*a, **k):
            if inside():
                CLOCK.read += 1
                return fn(*a, **k)
            return real(*a, **k)

        asked.__name__ = name
        setattr(time, name, asked)

    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        wrap(name, lambda: CLOCK.mono)
        wrap(name + "_ns", lambda: int(CLOCK.mono * 1e9))
    wrap("time", lambda: CLOCK.wall)
    wrap("time_ns", lambda: int(CLOCK.wall * 1e9))
    for name in ("localtime", "gmtime", "ctime"):
        wrap(name, lambda *a, real=getattr(time, name): real(*(a or (CLOCK.wall,))))

    def sleep(s):
        CLOCK.move(float(s))
        if CURRENT is not None:
            CURRENT.pause(0.0)

    wrap("sleep", sleep)
    D, DT = datetime.date, datetime.datetime

    class datetime_(DT):
        @classmethod
        def now(cls, tz=None):
            return DT.fromtimestamp(CLOCK.wall, tz) if inside() else DT.now(tz)

        @classmethod
        def utcnow(cls):
            return DT.fromtimestamp(CLOCK.wall if inside() else DT.now().timestamp(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return DT.fromtimestamp(CLOCK.wall) if inside() else DT.today()

    class date_(D):
        @classmethod
        def today(cls):
            return DT.fromtimestamp(CLOCK.wall).date() if inside() else D.today()

    datetime_.__name__ = datetime_.__qualname__ = "datetime"
    date_.__name__ = date_.__qualname__ = "date"
    datetime.datetime, datetime.date = datetime_, date_


# ------------------------------------------------------------------ failure sites

_sites = {}


def eligible_lines(filename):
    """Lines where a call, an arithmetic operation or an indexing can fail.

    Code that is itself cleaning up (finally and except bodies, with headers,
    __exit__ methods) is left out, so code that restores state in such places
    is given the chance to.
    """
    got = _sites.get(filename)
    if got is not None:
        return got
    ok, cleanup = set(), set()
    try:
        tree = ast.parse(open(filename).read())
    except (OSError, SyntaxError):
        _sites[filename] = (ok, cleanup)
        return _sites[filename]

    def risky(n):
        return any(isinstance(m, (ast.Call, ast.BinOp, ast.Subscript)) for m in ast.walk(n))

    def walk(stmts, clean):
        for s in stmts:
            if clean:
                for ln in range(s.lineno, s.end_lineno + 1):
                    cleanup.add(ln)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                walk(s.body, clean or s.name in ("__exit__", "__del__", "__enter__"))
            elif isinstance(s, ast.ClassDef):
                walk(s.body, clean)
            elif isinstance(s, ast.Try):
                walk(s.body, clean)
                walk(s.orelse, clean)
                for h in s.handlers:
                    walk(h.body, True)
                walk(s.finalbody, True)
            elif isinstance(s, ast.With):
                walk(s.body, clean)
            elif isinstance(s, (ast.If, ast.While)):
                if risky(s.test) and not clean:
                    ok.add(s.lineno)
                walk(s.body, clean)
                walk(s.orelse, clean)
            elif isinstance(s, ast.For):
                if risky(s.iter) and not clean:
                    ok.add(s.lineno)
                walk(s.body, clean)
                walk(s.orelse, clean)
            elif not clean and risky(s):
                ok.add(s.lineno)

    walk(tree.body, False)
    ok -= cleanup
    _sites[filename] = (ok, cleanup)
    return _sites[filename]


ERRNOS = {"EIO": errno.EIO, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES, "ENOMEM": errno.ENOMEM, "ENFILE": errno.ENFILE, "EINTR": errno.EIO}
EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "FloatingPointError": FloatingPointError, "RecursionError": RecursionError, "RuntimeError": RuntimeError}


def make(name):
    """An exception of that name, as the libraries underneath raise them."""
    if name in EXCS:
        return EXCS[name]("injected")
    if name == "LinAlgError":
        import numpy as np

        return np.linalg.LinAlgError("injected: SVD did not converge")
    if name == "QhullError":
        from scipy.spatial import QhullError

        return QhullError("injected: QH6154 initial simplex is flat")
    if name == "cv2.error":
        cv2 = sys.modules.get("cv2")
        return getattr(cv2, "error", RuntimeError)("injected: insufficient memory")
    raise KeyError(name)


class Injector:
    """Counts failure sites during one call; raises, swaps files or kills at a chosen one.

    fault: None, or {"kind": "site", "exc": name, "at": n}
                  | {"kind": "open", "err": name, "at": n}
                  | {"kind": "kill", "at": n}           (n-th site: the process dies)
                  | {"kind": "hook", "at": n, "fn": callable}  (before the n-th database open)
                  | {"kind": "call", "at": n, "fn": callable}  (before the n-th site, as a signal handler would)
    """

    def __init__(self, pkg, fault=None, record=False):
        self.pkg, self.fault = pkg, fault
        self.seq = [] if record else None
        self.sites = self.opens = 0
        self.fired = None

    # -- trace
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pkg):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.line(frame)
        return self._local

    def line(self, frame):
        ok, _ = eligible_lines(frame.f_code.co_filename)
        if frame.f_lineno not in ok or frame.f_code.co_name == "<module>":
            return
        f = frame.f_back
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(self.pkg):
                if f.f_lineno in eligible_lines(fn)[1]:
                    return
            elif f.f_code.co_name in ("__exit__", "__del__"):
                return
            f = f.f_back
        self.sites += 1
        if self.seq is not None:
            self.seq.append((frame.f_code.co_filename, frame.f_lineno))
        ft = self.fault
        if ft is not None and self.fired is None and self.sites == ft.get("at") and ft["kind"] in ("site", "kill", "call"):
            self.fired = "%s:%d" % (os.path.relpath(frame.f_code.co_filename, self.pkg), frame.f_lineno)
            if ft["kind"] == "call":
                ft["fn"]()
                return
            if ft["kind"] == "kill":
                os._exit(77)
            raise make(ft["exc"])

    # -- audit
    def open(self, path):
        self.opens += 1
        ft = self.fault
        if ft is not None and self.fired is None and self.opens == ft.get("at") and ft["kind"] in ("open", "hook", "killopen"):
            self.fired = "open #%d %s" % (self.opens, os.path.basename(path))
            if ft["kind"] == "killopen":
                os._exit(77)
            if ft["kind"] == "hook":
                ft["fn"]()
                return
            raise OSError(ERRNOS[ft["err"]], "injected %s" % ft["err"], path)

    def __enter__(self):
        global INJ
        INJ = self
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        global INJ
        sys.settrace(self._prev)
        INJ = None


def at(fault, cnt):
    """Which failure site (or open) of a call a fault hits; cnt: what the oracle counted in that call.

    Half of the sites are drawn among the distinct source lines visited, then
    among the visits to that line, so that a line run once is hit as often as one in a loop.
    """
    frac = fault["frac"]
    if fault["kind"] not in ("site", "kill", "call"):
        return 1 + int(frac * max(1, cnt[2]))
    seq = cnt[3] if len(cnt) > 3 else None
    if not seq or ("line" not in fault and (frac * 997.0) % 1.0 < 0.5):
        return 1 + int(frac * max(1, cnt[1]))
    lines = list(dict.fromkeys(seq))
    mine = lines[int(fault.get("line", frac) * len(lines))]
    visits = [i for i, x in enumerate(seq) if x == mine]
    return 1 + visits[int((frac * 99991.0) % 1.0 * len(visits))]


INJ = None
AUDIT = []  # callables (event, args), called for every audit event
_dbdir = None


def install_audit(dbdir):
    """One process-wide audit hook, dispatching to whatever is active."""
    global _dbdir
    _dbdir = os.path.realpath(dbdir)

    def hook(event, args):
        if event == "open":
            p = args[0]
            if isinstance(p, (str, bytes)):
                p = os.fsdecode(p)
                if _dbdir in p or os.path.realpath(p).startswith(_dbdir):
                    if CURRENT is not None:
                        CURRENT.at_open(p)
                    elif INJ is not None:
                        INJ.open(p)
        if AUDIT:
            for f in AUDIT:
                f(event, args)

    sys.addaudithook(hook)


# ------------------------------------------------------------------ scheduler


class Sim:
    """Runs functions as threads under a schedule: [[gap, pick], ...]."""

    MAXPOINTS = 3_000_000

    def __init__(self, pkg, fns, schedule, opcode=(), injectors=None, first=0, on_point=None, meet=None, visits=()):
        self.pkg, self.fns = pkg, fns
        self.sched = list(schedule)
        self.opcode = tuple(opcode)  # file basenames traced per instruction
        self.inj = injectors if injectors is not None else {}
        self.points = 0
        self.switches = 0
        self.gap = self.sched[0][0] if self.sched else None
        self.pos = 0
        self.cur = first % max(1, len(fns))
        self.state = ["ready"] * len(fns)
        self.batons = [_REAL_LOCK() for _ in fns]
        for b in self.batons:
            b.acquire()
        self.done = _REAL_LOCK()
        self.done.acquire()
        self.idents = {}
        self.path = []
        self.dead = None
        self.on_point = on_point
        # a place (file, line) at which threads wait for each other before the schedule begins, and on which visit
        self.meet = (os.path.join(pkg, meet[0]), meet[1]) if meet else None
        self.visits = [1 + visits[i % len(visits)] if visits else 1 for i in range(len(fns))]
        self.there = set()
        self.then = None  # who goes on first when they have met

    def arrive(self, me):
        """Thread me is at the meeting place: the others get there first."""
        if self.meet is None or me in self.there or me != self.cur or self.dead:
            return
        self.there.add(me)
        away = [i for i, s in enumerate(self.state) if s == "ready" and i not in self.there]
        if away:
            self.switch(me, away[0], "meets")
            return
        self.meet = None
        if self.then not in (None, me) and self.state[self.then] == "ready":
            self.switch(me, self.then, "met")

    # called by the running thread only
    def point(self, where):
        me = self.idents.get(_thread.get_ident())
        if me is None or me != self.cur or self.dead:
            return
        self.points += 1
        if self.points > self.MAXPOINTS:
            self.dead = "no progress within %d steps" % self.MAXPOINTS
            raise Deadlock(self.dead)
        if self.on_point is not None:
            self.on_point(self, me)
        if self.gap is None or self.meet is not None:
            return
        self.gap -= 1
        if self.gap > 0:
            return
        pick = self.sched[self.pos][1]
        self.pos += 1
        self.gap = self.sched[self.pos][0] if self.pos < len(self.sched) else None
        ready = [i for i, s in enumerate(self.state) if s == "ready"]
        to = ready[pick % len(ready)]
        if to != me:
            self.switch(me, to, where)

    def switch(self, me, to, where):
        self.switches += 1
        CLOCK.move(0.02)
        self.path.append((me, to, where))
        self.cur = to
        self.batons[to].release()
        if self.state[me] != "done":
            self.batons[me].acquire()

    def pause(self, dt):
        """The running thread waits for some time: another one goes on meanwhile. False: there is none."""
        me = self.idents.get(_thread.get_ident())
        CLOCK.move(dt)
        if me is None or me != self.cur or self.dead:
            return False
        others = [i for i, s in enumerate(self.state) if s == "ready" and i != me]
        if not others:
            return False
        self.switch(me, others[self.switches % len(others)], "waits")
        return True

    def block(self, lock):
        """Park the running thread until the lock is free. False: nobody can run."""
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return False
        self.state[me] = lock
        self._unblock()
        if self.state[me] == "ready":
            return True
        ready = [i for i, s in enumerate(self.state) if s == "ready"]
        if not ready:
            self.dead = "deadlock: every thread waits for a lock"
            self.state[me] = "ready"
            return False
        self.switch(me, ready[0], "lock")
        self.state[me] = "ready"
        return not self.dead

    def _unblock(self):
        for i, s in enumerate(self.state):
            if isinstance(s, SimLock) and s.owner is None:
                self.state[i] = "ready"

    def at_open(self, path):
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return
        inj = self.inj.get(me)
        if inj is not None:
            inj.open(path)
        self.point("open " + os.path.basename(path))

    def _trace(self, i):
        pkg, ops = self.pkg, self.opcode

        def local(frame, event, arg):
            try:
                return turn(frame, event)
            except BaseException:
                # Tracing of this thread ends here, but CPython still calls the trace function it has just dropped
                # for the instructions of frames marked so, and crashes.
                f = frame
                while f is not None:
                    if f.f_trace_opcodes:
                        f.f_trace_opcodes = False
                    f = f.f_back
                raise

        def turn(frame, event):
            if event == "line":
                inj = self.inj.get(i)
                if inj is not None:
                    inj.line(frame)
                if self.meet is not None and frame.f_lineno == self.meet[1] and frame.f_code.co_filename == self.meet[0]:
                    self.visits[i] -= 1
                    if self.visits[i] <= 0:
                        self.arrive(i)
                if not frame.f_trace_opcodes:
                    self.point((frame.f_code.co_name, frame.f_lineno))
            elif event == "opcode":
                self.point((frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(pkg):
                if os.path.basename(fn) in ops:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def rearm(self, i):
        """Tracing stops when an injected exception passes; start it again."""
        sys.settrace(self._trace(i))

    def _body(self, i):
        self.batons[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            sys.settrace(self._trace(i))
            self.fns[i](self, i)
        except Deadlock as e:
            self.dead = self.dead or str(e)
        except BaseException as e:  # noqa: BLE001  harness bug: reported by run()
            self.error = e
        finally:
            sys.settrace(None)
            self.state[i] = "done"
            self._unblock()
            ready = [k for k, s in enumerate(self.state) if s == "ready"]
            if ready:
                if self.meet is not None:
                    # who has still to get to the meeting place goes first
                    ready = [k for k in ready if k not in self.there] or ready
                    if ready[0] in self.there:
                        self.meet = None
                        if self.then in ready:
                            ready = [self.then]
                self.path.append((i, ready[0], "end"))
                self.cur = ready[0]
                self.batons[ready[0]].release()
            elif any(s != "done" for s in self.state):
                self.dead = self.dead or "deadlock: a lock is never released"
                for k, s in enumerate(self.state):
                    if s != "done":
                        self.state[k] = "ready"
                        self.cur = k
                        self.batons[k].release()
                        break
            else:
                self.done.release()

    def run(self):
        global CURRENT
        self.error = None
        CURRENT = self
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.batons[self.cur].release()
        self.done.acquire()
        for t in ts:
            t.join()
        CURRENT = None
        if self.error is not None:
            raise self.error
        return self
