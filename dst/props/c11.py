"""C11: evaluations only read: nothing written, started or left open."""
import os
import resource
import signal
import sys
import tempfile

from .. import disk, machine, ops, scen, sim, values
from ..machine import Found

RULE = (
    "One run = 4-10 calls drawn from the seed, some failing at a drawn site or file access, some on a damaged database, some with a full disk, and in half of the runs a process killed at a drawn "
    "instant inside a call and a new one after it; file, process and network operations are recorded during each call, descriptors and mappings compared after it, and the machine's whole disk compared at the end. "
    "Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (function, outcome or place of death) pairs"
TIERS = {"quick": {"runs": 700, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["killed", "failures", "fault:full disk", "damaged"]
ALLOPS = sorted(ops.OPS)
BANNED = {
    "os.mkdir", "os.rmdir", "os.remove", "os.rename", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink", "os.utime", "os.setxattr", "os.removexattr", "os.lockf", "os.fork", "os.forkpty", "os.exec",
    "os.posix_spawn", "os.spawn", "os.startfile", "os.system", "os.kill", "os.killpg", "os.chflags", "os.chroot", "subprocess.Popen", "pty.spawn", "fcntl.flock", "fcntl.lockf", "signal.pthread_kill",
    "shutil.copyfile", "shutil.copymode", "shutil.copystat", "shutil.copytree", "shutil.move", "shutil.rmtree", "shutil.chown", "shutil.make_archive", "shutil.unpack_archive",
    "tempfile.mkstemp", "tempfile.mkdtemp", "sqlite3.connect", "urllib.Request", "webbrowser.open", "ftplib.connect", "http.client.connect", "smtplib.connect", "ctypes.dlopen", "ensurepip.bootstrap",
    "resource.setrlimit", "syslog.openlog", "syslog.syslog", "mmap.__new__",
}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    focus = (ALLOPS + ["metrics.plot_noise_terms", "metrics.plot_common_MTFs", "obj.show"])[i % (len(ALLOPS) + 3)]
    n = rng.randrange(3, 8)
    for k in range(n):
        op = focus if rng.random() < 0.5 else rng.choice(ALLOPS + ["obj.atm", "utils.load_database_atmosphere", "utils.load_database_atmosphere_no_interp"] * 3)
        if op in ops.HEAVY and sum(c[1] in ops.HEAVY for c in b.calls) >= 3:
            op = "obj.atm"
        opts = {}
        if rng.random() < 0.35:
            opts["fault"] = {"kind": rng.choice(["site", "open"]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "err": rng.choice(["EIO", "EMFILE"]), "frac": rng.random()}
        b.call(op, **opts)
    plan = {"steps": b.steps, "full": rng.random() < 0.2, "damage": rng.choice([None, None, None, "bin", "csv"]), "hurt": rng.choice(disk.BIN_FAULTS), "csv": rng.choice(disk.CSV_FAULTS), "frac": rng.random()}
    if rng.random() < 0.5:
        calls = [k for k, st in enumerate(b.steps) if st[0] == "call"]
        plan["kill"] = {"at": rng.choice(calls), "kind": rng.choice(["kill", "kill", "killopen"]), "frac": rng.random()}
    return plan


def tree(base):
    """Everything on the machine's disk: kind, mode, size, times and (small files) contents."""
    out = {}
    for d, dirs, files in os.walk(base, followlinks=False):
        st = os.lstat(d)
        out[os.path.relpath(d, base)] = ("dir", st.st_mode)
        dirs.sort()
        for f in files:
            p = os.path.join(d, f)
            st = os.lstat(p)
            big = f.endswith(".bin")
            data = None
            if not big and os.path.isfile(p) and not os.path.islink(p):
                try:
                    with open(p, "rb") as h:
                        data = hash(h.read())
                except OSError:
                    pass
            out[os.path.relpath(p, base)] = ("file", st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, data)
    return out


def differ(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s was %s" % (k, "created" if k not in a else "removed" if k not in b else "changed")
    return None


def qhull():
    """SciPy's triangulation takes an unnamed scratch file for its messages (created and unlinked at once)."""
    f = sys._getframe(3)
    while f is not None and f.f_code.co_filename in (tempfile.__file__, os.__file__):
        f = f.f_back
    return f is not None and any(x in f.f_code.co_filename for x in ("/scipy/interpolate/", "/scipy/spatial/"))


class Recorder:
    def __init__(self):
        self.on, self.bad = False, None

    def __call__(self, event, args):
        if not self.on or self.bad:
            return
        if event in ("open", "os.remove", "tempfile.mkstemp") and qhull():
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and isinstance(flags, int) and flags & WRITE)
            if w and os.fsdecode(path) != os.devnull:
                self.bad = "opened %s for writing" % os.fsdecode(path)
        elif event in BANNED or (event.startswith("socket.") and event not in ("socket.gethostname",)):
            if event == "mmap.__new__" and len(args) > 2 and args[0] == -1:
                return
            self.bad = "%s %s" % (event, values.brief([a for a in args if isinstance(a, (str, bytes, int))]))

    def note(self, what):
        if self.on and not self.bad:
            self.bad = what


def watch_c(rec):
    """Writers that go round Python's audit events."""
    try:
        import cv2
    except ImportError:
        return
    for n in ("imwrite", "imwritemulti", "imwriteanimation", "VideoWriter", "FileStorage"):
        real = getattr(cv2, n, None)
        if real is None:
            continue

        def make(n=n, real=real):
            def f(*a, **k):
                rec.note("cv2.%s" % n)
                return real(*a, **k)

            return f

        setattr(cv2, n, make())


def opened(base):
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if not t.startswith("/proc/") and not t.endswith((".ttf", ".afm", ".otf")):
            out[int(f)] = t
    maps = set()
    with open("/proc/self/maps") as h:
        for ln in h:
            if base in ln:
                maps.add(ln.split(None, 5)[5].strip())
    return out, maps


class M(machine.Machine):
    rec = None
    kill = None
    at = -1

    def call(self, st):
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        before = [values.canon(a) for a in args]
        f = opts.get("fault")
        if self.kill and self.kill["at"] == self.at:
            f = dict(self.kill)
        inj = None
        if f:
            cnt = self.ctx.oracle(op, before, None, count=True)
            inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
        fds = opened(self.ctx.base)
        self.rec.on = True
        try:
            if inj:
                with inj:
                    out = self.invoke(op, args)
            else:
                out = self.invoke(op, args)
        finally:
            self.rec.on = False
        what = op
        if inj and inj.fired:
            self.st["failures"] += 1
            self.st["fault:%s %s" % (f["kind"], f.get("exc") if f["kind"] == "site" else f.get("err"))] += 1
            what = "%s, failing at %s," % (op, inj.fired)
        self.st["calls"] += 1
        self.st["op:" + op] += 1
        self.st["ok" if out[0] == "ok" else "raised"] += 1
        if out[0] == "ok":
            self.res[cid] = out[1]
            self.info[cid] = (op, dargs)
        got = out[0] if out[0] == "ok" else type(out[1]).__name__
        self.ctx.log((cid, op, got))
        self.ctx.states.add("%s|%s" % (op, "failed" if inj and inj.fired else got))
        del out
        if self.rec.bad:
            raise Found("wrote:%s" % op, "%s: %s" % (what, self.rec.bad))
        now = opened(self.ctx.base)
        if now != fds:
            extra = [v for k, v in now[0].items() if k not in fds[0]] + sorted(now[1] - fds[1]) or ["(closed) " + v for k, v in fds[0].items() if k not in now[0]]
            raise Found("open:%s" % op, "%s left open: %s" % (what, ", ".join(extra)))

    def go(self, steps):
        for i, st in enumerate(steps):
            self.ctx.where = self.at = i
            try:
                self.step(st)
            except machine.Skip:
                self.ctx.stats["skipped"] += 1


def run(plan, ctx):
    rec = Recorder()
    sim.AUDIT.append(rec)
    watch_c(rec)
    where = None
    if plan["damage"]:
        # a damaged file among those the run uses
        if plan["damage"] == "csv":
            where = "fileDecoder.csv"
            disk.damage(ctx.base, where, plan["csv"], plan["frac"])
        else:
            sc = [st[2] for st in plan["steps"] if st[0] == "new" and st[2]["k"] == "scen"]
            if sc:
                k = ctx.db.indices(ops.num(sc[0]["altitude"]), ops.num(sc[0]["ground_range"]), sc[0]["ihaze"], sc[0]["interp"])
                if k:
                    where = "%d.bin" % k[int(plan["frac"] * len(k))]
                    disk.damage(ctx.base, where, plan["hurt"], plan["frac"])
        if where:
            ctx.stats["fault:disk " + (plan["csv"] if plan["damage"] == "csv" else plan["hurt"])] += 1
            ctx.stats["damaged"] += 1
    before = tree(ctx.base)
    if plan["full"]:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        ctx.stats["fault:full disk"] += 1
    if plan.get("kill"):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                m = M(ctx, check_oracle=False, stability=False)
                m.rec, m.kill = rec, plan["kill"]
                m.go(plan["steps"])
            except Found:
                code = 3
            except BaseException:
                code = 4
            os._exit(code)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        if code == 4:
            raise RuntimeError("the process to be killed failed otherwise")
        if code == 77:
            ctx.stats["killed"] += 1
            ctx.stats["fault:%s" % plan["kill"]["kind"]] += 1
            ctx.states.add("killed|%s|%.1f" % (plan["steps"][plan["kill"]["at"]][2] if plan["kill"]["at"] < len(plan["steps"]) else "", plan["kill"]["frac"]))
        ctx.log(("first process", code))
        d = differ(before, tree(ctx.base))
        if d:
            raise Found("disk", "after a process that was killed inside a call, %s" % d)
    m = M(ctx, check_oracle=False, stability=False)
    m.rec = rec
    m.go(plan["steps"])
    d = differ(before, tree(ctx.base))
    if d:
        raise Found("disk", "after the calls, %s" % d)
