"""C19: failures and interruptions reach the caller and end the call they hit, and no other."""
import hashlib
import signal
import sys

import numpy as np

from .. import machine, ops, sched, sim, values
from ..machine import Found
from . import c04, c06

RULE = (
    "One run = one call made some twenty times with an exception arising at another place each time (the drawn statements spread over the lines it runs through; file accesses; a function "
    "of the caller's own), raised there or by a signal handler of the caller, or 2-3 threads making calls under a drawn interleaving in which some are hit. The exception object has to come "
    "out of the call it hit, without the call going on with its work, and every other call has to return what it returns alone. Non-trivial: at least one failure reached its caller; distinct: by digest of all outcomes."
)
MEASURE = "distinct (function, failure position, exception) triples"
TIERS = {"quick": {"runs": 700, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["failures", "switches", "fault:signal"]
ALLOPS = sorted(ops.OPS)
PLOTS = sorted(ops.PLOTS)
WORK = 25  # steps a call may still take on its way out


class Timeout(Exception):
    """The caller's own time limit."""


class Cancelled(BaseException):
    """The caller's own way to end a call, as asyncio's."""


OTHER = {"TimeoutError": TimeoutError, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit, "AssertionError": AssertionError}


def make(name):
    if name in ("Timeout", "Cancelled"):
        return {"Timeout": Timeout, "Cancelled": Cancelled}[name]("the caller's %s" % name)
    if name == "CancelledError":
        from asyncio import CancelledError

        return CancelledError("the caller's task was cancelled")
    if name in OTHER:
        return OTHER[name]("the caller's %s" % name)
    if name.startswith("E"):
        return OSError(sim.ERRNOS[name], "injected %s" % name)
    return sim.make(name)


EXC = ["KeyboardInterrupt", "MemoryError", "Timeout", "Cancelled", "FloatingPointError", "QhullError", "RuntimeError", "KeyboardInterrupt", "MemoryError", "cv2.error", "TimeoutError", "CancelledError", "SystemExit", "AssertionError"]
FILES = ["obj.atm", "metrics.niirs", "metrics.niirs5", "simulation.simulate_image", "utils.load_database_atmosphere", "utils.load_database_atmosphere_no_interp"]
LONG = {"simulation.simulate_image": 12, "metrics.niirs": 6, "metrics.niirs5": 6}
WEIGHTED = [o for o in ALLOPS + PLOTS for _ in range(LONG.get(o) or (3 if o in PLOTS else 0) or (4 if o in ops.HEAVY or o in c04.MID else 1))]
WEIGHTED = [WEIGHTED[(k * 37) % len(WEIGHTED)] for k in range(len(WEIGHTED))]


def fault(rng, op, n):
    k = rng.random()
    if op in FILES and k < 0.2:
        return {"kind": "open", "err": rng.choice(["EIO", "EMFILE", "EACCES", "ENOMEM"]), "frac": rng.random()}
    f = {"kind": "signal" if k > 0.75 else "raise", "exc": EXC[(n * 5 + n // 97) % len(EXC)], "frac": rng.random()}
    if rng.random() < 0.8:
        f["line"] = (n * c04.PHI + 0.003 * rng.random()) % 1.0
    if f["kind"] == "signal":
        f["exc"] = rng.choice(["KeyboardInterrupt", "Timeout", "TimeoutError", "Cancelled", "SystemExit"])
    return f


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    if i % 4 == 3:
        return threads(rng, b)
    i = i // 4 * 3 + i % 4
    op = WEIGHTED[i % len(WEIGHTED)]
    serial = 20 * (i // len(WEIGHTED) * WEIGHTED.count(op) + WEIGHTED[: i % len(WEIGHTED)].count(op))
    if rng.random() < 0.3:
        b.call(op)
    args = None
    for k in range(20 if op in PLOTS or op in ops.HEAVY or op in c04.MID or op in LONG else 8):
        if k % 7 == 6:
            args = None
        b.call(op, args, fault=fault(rng, op, serial + k))
        args = b.calls[-1][2]
    if any(isinstance(a, dict) and "f" in a for a in args):
        for k in range(6):
            b.call(op, args, fault={"kind": "caller", "exc": rng.choice(["Timeout", "Cancelled", "KeyboardInterrupt", "RuntimeError"]), "at": 1 + int(5 ** rng.random())})
    b.call(op, args)
    return {"steps": b.steps}


def threads(rng, b):
    nt = rng.choice([2, 2, 3])
    focus = rng.choice(ALLOPS) if rng.random() < 0.5 else rng.choice(c06.HEAVYISH)
    for k in ("sensor", "scen", "ref"):
        for _ in range(rng.choice([1, 2])):
            b.obj(k, 1.0)
    out, args = [], None
    for t in range(nt):
        calls = []
        for _ in range(rng.choice([1, 2])):
            opts = {}
            if rng.random() < 0.6:
                opts["fault"] = {"kind": "raise", "exc": rng.choice(EXC), "frac": rng.random()}
            op = focus if rng.random() < 0.75 else rng.choice(ALLOPS)
            b.call(op, args if op == focus and rng.random() < 0.6 else None, **opts)
            if op == focus:
                args = b.calls[-1][2]
            calls.append(b.steps.pop())
        out.append(calls)
    meet = c06.draw_meet(rng, nt, 0.4)
    return {"steps": b.steps, "threads": out, "first": rng.randrange(nt), "sched": sched.dense(rng) if meet else sched.draw(rng, nt, 3000 if focus in ops.HEAVY else 60), "meet": meet}


class Own:
    """A function of the caller's that fails at its n-th call."""

    def __init__(self, fn, n, exc):
        self.fn, self.n, self.exc, self.fired = fn, n, exc, None

    def __call__(self, *a):
        self.n -= 1
        if self.n == 0:
            self.fired = "its argument"
            raise self.exc
        return self.fn(*a)


class Work:
    """Counts what pyBSM does after the failure, cleaning up apart: the calls its functions make."""

    def __init__(self, pkg):
        self.pkg, self.n, self.where = pkg, 0, None

    def __call__(self, frame, event, arg):
        if event == "call":
            frame = frame.f_back
        elif event != "c_call":
            return
        if frame is None or not frame.f_code.co_filename.startswith(self.pkg):
            return
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(self.pkg):
                if f.f_lineno in sim.eligible_lines(fn)[1]:
                    return
            elif f.f_code.co_name in ("__exit__", "__del__"):
                return
            f = f.f_back
        self.n += 1
        if self.n == WORK:
            self.where = "%s:%d" % (frame.f_code.co_filename[len(self.pkg):].lstrip("/"), frame.f_lineno)


def invoke(op, args):
    f = ops.resolve(op)
    try:
        return ("ok", f(*args))
    except BaseException as e:  # noqa: BLE001
        return ("exc", e)


def judge(op, out, exc, fired, kind):
    how = "%r, raised %s %s" % (exc, {"signal": "by a signal handler at", "open": "by", "caller": "by"}.get(kind, "at"), fired)
    if out[0] == "ok":
        raise Found("swallowed:%s" % op, "%s returned in spite of %s" % (op, how))
    if out[1] is not exc:
        raise Found("replaced:%s" % op, "%s ended with %r instead of %s" % (op, out[1], how))


class M(machine.Machine):
    def call(self, st):
        _, cid, op, dargs, opts = st
        f = opts.get("fault")
        if not f:
            return super().call(st)
        args = self.args(op, dargs)
        kind, exc = f["kind"], make(f.get("exc") or f["err"])
        work = Work(self.ctx.pkg)
        if kind == "caller":
            args = [Own(a, f["at"], exc) if isinstance(a, values.Fn) else a for a in args]
            inj = [a for a in args if isinstance(a, Own)][0]
            out = invoke(op, args)
        else:
            cnt = self.ctx.oracle(op, [machine.canon(a) for a in args], machine.np.random.get_state() if op in ops.NOISY else None, count=True)

            def strike(*a):
                sys.setprofile(work)
                if kind == "signal":
                    signal.raise_signal(signal.SIGALRM if f["exc"] != "KeyboardInterrupt" else signal.SIGINT)
                    return
                raise exc

            def handler(*a):
                raise exc

            old = [(n, signal.signal(n, handler)) for n in ((signal.SIGALRM, signal.SIGINT) if kind == "signal" else ())]
            if kind == "open":
                ft = {"kind": "hook", "at": sim.at(f, cnt), "fn": strike}
            else:
                ft = {"kind": "call", "at": sim.at(dict(f, kind="site"), cnt), "fn": strike}
            inj = sim.Injector(self.ctx.pkg, ft)
            try:
                with inj:
                    out = invoke(op, args)
            finally:
                sys.setprofile(None)
                for n, h in old:
                    signal.signal(n, h)
        self.st["calls"] += 1
        self.st["ok" if out[0] == "ok" else "raised"] += 1
        self.st["op:" + op] += 1
        self.ctx.log((cid, op, out[0], inj.fired, type(out[1]).__name__ if out[0] == "exc" else ""))
        for d in dargs:
            if isinstance(d, dict) and "o" in d:
                # a NIIRS evaluation sets the scenario's target and background also when it fails
                self.expect[d["o"]] = machine.canon(self.heap[d["o"]])
        if not inj.fired:
            return
        self.st["failures"] += 1
        self.st["fault:" + (kind if kind == "signal" else "%s %s" % (kind, f.get("exc") or f["err"]))] += 1
        self.ctx.states.add("%s@%s %s" % (op, inj.fired, type(exc).__name__))
        judge(op, out, exc, inj.fired, kind)
        if work.n >= WORK:
            raise Found("goes-on:%s" % op, "%s went on with its work after %r at %s: it got to %s before ending" % (op, exc, inj.fired, work.where))
        del out


def run(plan, ctx):
    m = M(ctx, check_oracle="threads" not in plan, stability=False)
    m.run(plan["steps"])
    if "threads" not in plan:
        return
    jobs, wants = [], {}
    for calls in plan["threads"]:
        mine = []
        for st in calls:
            try:
                args = m.args(st[2], st[3])
            except machine.Skip:
                continue
            before = [values.canon(a) for a in args]
            rng = np.random.get_state() if st[2] in ops.NOISY else None
            wants[st[1]] = ctx.oracle(st[2], before, rng)
            f = st[4].get("fault")
            if f:
                f["at"] = sim.at(dict(f, kind="site"), ctx.oracle(st[2], before, rng, count=True))
            mine.append((st, args, before))
        jobs.append(mine)
    inj, outs = {}, []

    def body(mine):
        def fn(s, i):
            for st, args, before in mine:
                f, exc = st[4].get("fault"), None
                if f:
                    exc = make(f["exc"])

                    def strike():
                        raise exc

                    inj[i] = sim.Injector(ctx.pkg, {"kind": "call", "at": f["at"], "fn": strike})
                out = invoke(st[2], args)
                if out[0] == "exc" and isinstance(out[1], sim.Deadlock):
                    raise out[1]
                fired = inj[i].fired if f else None
                inj.pop(i, None)
                if fired:
                    s.rearm(i)
                outs.append((i, st, out, fired, exc, values.canon(out[1], c06.DROP) if out[0] == "ok" else type(out[1]).__name__))

        return fn

    meet = plan.get("meet") or {}
    s = sim.Sim(ctx.pkg, [body(j) for j in jobs], plan["sched"], injectors=inj, first=plan["first"], meet=c06.place(ctx, meet, [x for mine in jobs for x in mine]), visits=meet.get("visits", ()))
    s.run()
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    if s.switches:
        ctx.states.add(hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    if s.dead:
        raise Found("progress", s.dead)
    for i, st, out, fired, exc, got in sorted(outs, key=lambda o: o[1][1]):
        op = st[2]
        ctx.stats["calls"] += 1
        ctx.stats["op:" + op] += 1
        ctx.stats["ok" if out[0] == "ok" else "raised"] += 1
        ctx.log((st[1], op, out[0], fired, values.digest(got[:4] if op in ops.NOISY and out[0] == "ok" else got)))
        if fired:
            ctx.stats["failures"] += 1
            ctx.stats["fault:raise " + st[4]["fault"]["exc"]] += 1
            judge(op, out, exc, fired + " in one of several threads", "raise")
        else:
            c06.check(ctx, st, out, got, wants[st[1]], "in thread %d, beside calls that fail, " % i)
