"""C18: forked worker processes evaluate like their parent, and neither disturbs the other."""
import atexit
import gc
import hashlib
import os
import pickle
import select
import signal
import struct
import sys
import time

import numpy as np

from .. import machine, ops, sched, sim, values
from ..machine import Found
from . import c06

RULE = (
    "One run = after a few calls of its own a simulated process runs 2-3 threads, one of which forks 1-2 worker processes at drawn moments while the others are in the middle of evaluations; worker and parent then run "
    "alternately, a drawn number of steps at a time, the worker calling functions on the objects it inherited, changing them, failing, ending normally or being killed. Every result in either process is compared with the same "
    "call alone in a fresh process, and the parent's objects must keep their values. Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct sequences of turns taken by threads and worker processes, by the lines they happened at"
TIERS = {"quick": {"runs": 1200, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["forks", "forks amid a call", "worker calls", "turns of workers", "fault:worker killed"]
ALLOPS, LIGHT, HEAVYISH, DROP = c06.ALLOPS, c06.LIGHT, c06.HEAVYISH, c06.DROP
SILENT = 6.0  # real seconds without any answer from a worker


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": 5})
    focus = ALLOPS[(i // 2) % len(ALLOPS)] if i % 2 else rng.choice(HEAVYISH)
    heavy = focus in ops.HEAVY
    for k in ("sensor", "scen", "ref"):
        for _ in range(rng.choice([1, 2])):
            b.obj(k, 1.0)
    for _ in range(rng.choice([0, 0, 1, 2])):
        b.call(focus if rng.random() < 0.5 and not heavy else rng.choice(LIGHT))
    pool = []

    def calls(n, faults=0.1):
        out = []
        for _ in range(n):
            op = focus if rng.random() < (0.7 if not heavy else 0.5) else rng.choice(LIGHT if rng.random() < 0.9 else ALLOPS)
            args = None
            if op == focus and pool and rng.random() < 0.5:
                args = [dict(x) if isinstance(x, dict) else x for x in pool[0]]
                if rng.random() < 0.5:
                    j = rng.randrange(len(args))
                    args[j] = b.arg(ops.OPS[op][j], None)
            opts = {}
            if rng.random() < faults:
                opts["fault"] = {"kind": rng.choice(["site", "site", "open"]), "exc": "MemoryError", "err": "EIO", "at": 1 + int(40 ** rng.random())}
            b.call(op, args, **opts)
            if op == focus and not pool:
                pool.append(b.calls[-1][2])
            out.append(b.steps.pop())
        return out

    nt = rng.choice([2, 2, 3])
    threads = [calls(rng.choice([1, 2]) if heavy else rng.choice([1, 2, 3])) for _ in range(nt)]
    kids = []
    for _ in range(rng.choice([1, 1, 2])):
        mine = []
        for _ in range(rng.choice([1, 2]) if heavy else rng.choice([2, 3, 4])):
            mark = len(b.steps)
            if rng.random() < 0.35 and b.desc:
                b.set_attr(rng.choice(list(b.desc)))
                mine += b.steps[mark:]
                del b.steps[mark:]
            if rng.random() < 0.3:
                # what another thread of the parent may be in the middle of
                st = rng.choice(rng.choice(threads[1:]))
                b.call(st[2], st[3])
                mine.append(b.steps.pop())
            else:
                mine += calls(1, 0.15)
            if rng.random() < 0.3:
                mine.append(["scribble", mine[-1][1], rng.random() < 0.5])
        end = rng.choice(["exit", "exit", "leave", "kill"])
        kids.append({
            "after": rng.randrange(len(threads[0]) + 1), "steps": mine, "end": end, "turns": [1 + int((600 if heavy else 60) ** rng.random()) for _ in range(rng.randrange(3, 14))],
            "at": rng.randrange(1, 6), "wait": 1 + int((800 if heavy else 12) ** rng.random()), "ahead": rng.randrange(0, 4), "closes": rng.random() < 0.5,
        })
    meet = None
    if rng.random() < 0.5:
        # the other threads are at one line of an evaluation when the first worker is forked
        meet = {"frac": rng.random(), "visits": [10**9] + [int(8 ** rng.random()) - 1 if rng.random() < 0.4 else 0 for _ in range(nt - 1)]}
    return {"steps": b.steps, "threads": threads, "kids": kids, "first": rng.randrange(nt), "sched": sched.draw(rng, nt, 4000 if heavy else 60), "last": calls(2, 0.0), "meet": meet}


# ------------------------------------------------------------------ the worker's side


class KidSim:
    """In a worker process: runs a given number of points, then waits for its next turn."""

    def __init__(self, pkg, rfd, wfd):
        self.pkg, self.rfd, self.wfd = pkg, rfd, wfd
        self.left = 0
        self.points = 0
        self.inj = None

    def point(self, where):
        self.points += 1
        if self.points > sim.Sim.MAXPOINTS:
            raise sim.Deadlock("no progress within %d steps" % sim.Sim.MAXPOINTS)
        self.left -= 1
        if self.left <= 0:
            put(self.wfd, ("paused", where))
            self.turn()

    def turn(self):
        self.left = struct.unpack("<q", must(self.rfd, 8))[0]

    def block(self, lock):
        return False  # the threads that hold it are in another process

    def pause(self, dt):
        sim.CLOCK.move(dt)
        return False

    def _unblock(self):
        pass

    def at_open(self, path):
        if self.inj is not None:
            self.inj.open(path)
        self.point("open " + os.path.basename(path))

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pkg):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            if self.inj is not None:
                self.inj.line(frame)
            self.point((frame.f_code.co_name, frame.f_lineno))
        return self.local


def must(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            os._exit(1)  # the parent is gone
        out += c
    return out


def put(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b[: 1 << 16]) :]


def worker(m, ctx, kid, rfd, wfd):
    """Life of a worker process; does not return."""
    sys.settrace(None)
    code = 0
    try:
        ks = sim.CURRENT = KidSim(ctx.pkg, rfd, wfd)
        ks.turn()
        for nm, o in m.heap.items():
            m.expect[nm] = values.canon(o)  # a NIIRS evaluation may have been under way at the fork
        recs = []
        for st in kid["steps"]:
            try:
                if st[0] != "call":
                    try:
                        m.step(st)
                    except (machine.Skip, AttributeError, ValueError, KeyError):
                        pass
                    continue
                try:
                    args = m.args(st[2], st[3])
                except machine.Skip:
                    continue
                before = [values.canon(a) for a in args]
                f = st[4].get("fault")
                ks.inj = sim.Injector(ctx.pkg, f) if f else None
                sys.settrace(ks.trace)
                out = m.invoke(st[2], args)
                sys.settrace(None)
                fired = ks.inj.fired if f else None
                ks.inj = None
                if st[2] in machine.NIIRS_OPS:
                    for d in st[3]:
                        if isinstance(d, dict) and d.get("o") in m.heap:
                            m.expect[d["o"]] = values.canon(m.heap[d["o"]])
                if out[0] == "ok":
                    m.res[st[1]], m.info[st[1]] = out[1], (st[2], st[3])
                recs.append((st, before, out[0], values.canon(out[1], DROP) if out[0] == "ok" else type(out[1]).__name__, fired, [values.canon(a) for a in args]))
            except Found as e:
                put(wfd, ("found", e.cls, e.detail))
                os._exit(0)
        put(wfd, ("records", recs))
        if kid["end"] == "exit":
            if kid["closes"]:
                m.res.clear()
                m.heap.clear()
                gc.collect()
            atexit._run_exitfuncs()
        put(wfd, ("done", ks.points))
    except sim.Deadlock as e:
        sys.settrace(None)
        put(wfd, ("dead", str(e)))
    except BaseException:  # noqa: BLE001
        sys.settrace(None)
        import traceback

        put(wfd, ("harness", traceback.format_exc()))
        code = 3
    finally:
        os._exit(code)


# ------------------------------------------------------------------ the parent's side


class Kid:
    def __init__(self, m, ctx, n, plan):
        self.plan, self.n = plan, n
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        sys.stdout.flush()
        state = np.random.get_state()
        self.pid = os.fork()
        now = np.random.get_state()
        if (state[1] != now[1]).any() or state[2:] != now[2:]:
            if self.pid:
                os.kill(self.pid, 9)
                os.waitpid(self.pid, 0)
                raise Found("random state", "a fork changes the random state of the process that forks")
            put(w, ("found", "random state", "a worker does not inherit the random state its parent had at the fork"))
            os._exit(0)
        if not self.pid:
            os.close(self.w)
            os.close(self.r)
            worker(m, ctx, plan, r, w)
        os.close(r)
        os.close(w)
        self.turns, self.recs, self.found, self.alive, self.shot, self.how = 0, [], None, True, False, None

    def msg(self):
        def rd(n):
            out, end = b"", time.monotonic() + SILENT
            while len(out) < n:
                left = end - time.monotonic()
                if left <= 0 or not select.select([self.r], [], [], left)[0]:
                    return None
                c = os.read(self.r, n - len(out))
                if not c:
                    return b""
                out += c
            return out

        h = rd(8)
        if not h:
            return h
        b = rd(struct.unpack("<Q", h)[0])
        return pickle.loads(b) if b else b

    def go(self, s, i):
        """One turn: so many steps in the worker, then a chance for the parent's other threads."""
        t = self.plan["turns"]
        if self.plan["end"] == "kill" and self.turns >= self.plan["at"]:
            os.kill(self.pid, signal.SIGKILL)
            return self.reap("killed")
        self.tell(t[self.turns % len(t)] * (1 + self.turns // len(t)))
        self.turns += 1
        while True:
            x = self.msg()
            if x is None:
                # it may wait for something another process holds: looked at again when the parent's threads have ended
                self.alive, self.how = False, "silent"
                return s.point(("silent", self.n))
            if x == b"" and self.shot:
                return self.reap("stopped")
            if x == b"":
                self.found = ("worker", "worker process %d died" % self.n)
                return self.reap("died")
            if x[0] == "paused":
                s.path.append(("w%d" % self.n, x[1]))
                s.point(("worker", self.n))
                return
            if x[0] == "records":
                self.recs = x[1]
                continue
            if x[0] == "dead":
                self.found = ("progress", "in worker process %d: %s" % (self.n, x[1]))
            elif x[0] == "found":
                self.found = ("worker:" + x[1], "in worker process %d: %s" % (self.n, x[2]))
            elif x[0] == "harness":
                raise RuntimeError("worker: " + x[1])
            return self.reap(x[0])

    def tell(self, n):
        try:
            os.write(self.w, struct.pack("<q", n))
        except BrokenPipeError:
            pass

    def late(self):
        """Nobody else runs any more: now it has to go on."""
        while True:
            x = self.msg()
            if not x or x[0] not in ("paused", "records"):
                break
            if x[0] == "records":
                self.recs = x[1]
            else:
                self.tell(1 << 40)
        if x is None or (x and x[0] == "dead"):
            self.found = ("progress", "worker process %d does not go on%s" % (self.n, ": " + x[1] if x else ""))
        elif x and x[0] == "found":
            self.found = ("worker:" + x[1], "in worker process %d: %s" % (self.n, x[2]))
        if x is None:
            os.kill(self.pid, signal.SIGKILL)
        self.reap("late")

    def reap(self, how):
        self.alive, self.how = False, how
        os.waitpid(self.pid, 0)
        os.close(self.r)
        os.close(self.w)


def run(plan, ctx):
    m = machine.Machine(ctx, check_oracle=False, stability=False)
    m.run(plan["steps"])
    jobs = []
    for calls in plan["threads"]:
        mine = []
        for st in calls:
            try:
                args = m.args(st[2], st[3])
            except machine.Skip:
                continue
            mine.append((st, args, [values.canon(a) for a in args]))
        jobs.append(mine)
    inj, outs, kids = {}, {}, []

    def call(s, i, st, args, before):
        f = st[4].get("fault")
        if f:
            inj[i] = sim.Injector(ctx.pkg, f)
        out = m.invoke(st[2], args)
        fired = inj[i].fired if f else None
        inj.pop(i, None)
        if fired:
            s.rearm(i)
        outs[st[1]] = (st, args, before, out, fired, values.canon(out[1], DROP) if out[0] == "ok" else type(out[1]).__name__)

    busy = set()

    def other(s, i):
        for j in jobs[i]:
            busy.add(i)
            call(s, i, *j)
            busy.discard(i)

    def forker(s, i):
        for k in range(len(jobs[0]) + 1):
            for kp in plan["kids"]:
                if kp["after"] == k or (k == len(jobs[0]) and kp["after"] > k):
                    s.arrive(i)
                    for _ in range(0 if s.there else kp["wait"]):
                        s.point("about to fork")
                    ctx.stats["forks"] += 1
                    ctx.stats["forks amid a call"] += bool(busy)
                    kid = Kid(m, ctx, len(kids), kp)
                    kids.append(kid)
                    for _ in range(kp["ahead"]):
                        if kid.alive:
                            kid.go(s, i)
            if k < len(jobs[0]):
                for kid in kids:
                    if kid.alive:
                        kid.go(s, i)
                call(s, i, *jobs[0][k])
        while any(k.alive for k in kids):
            for kid in kids:
                if kid.alive:
                    kid.go(s, i)

    meet = plan.get("meet") or {}
    s = sim.Sim(
        ctx.pkg, [forker] + [other] * (len(jobs) - 1), plan["sched"], injectors=inj, first=plan["first"],
        meet=c06.place(ctx, meet, [x for mine in jobs[1:] for x in mine]), visits=meet.get("visits", ()),
    )
    s.then = 0
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with Watch(s, kids):
            s.run()
        for kid in kids:
            if kid.how == "silent":
                kid.late()
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    ctx.states.add(hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    for kid in kids:
        ctx.stats["turns of workers"] += kid.turns
        ctx.stats["fault:worker killed"] += kid.how == "killed"
        ctx.log(("worker", kid.turns, kid.how))
        if kid.found:
            raise Found(*kid.found)
    if s.dead:
        raise Found("progress", s.dead)

    def want(op, before):
        return ctx.oracle(op, before, np.random.get_state() if op in ops.NOISY else None)

    for kid in kids:
        for st, before, how, got, fired, after in kid.recs:
            ctx.stats["worker calls"] += 1
            if fired:
                f = st[4]["fault"]
                ctx.stats["fault:%s %s" % (f["kind"], f["exc"] if f["kind"] == "site" else f["err"])] += 1
            ctx.log((st[1], st[2], how, fired, values.digest(got[:4] if st[2] in ops.NOISY and how == "ok" else got)))
            judge(ctx, st, before, how, got, fired, after, want(st[2], before), "in worker process %d, " % kid.n)
    for calls in plan["threads"]:
        for st in calls:
            if st[1] in outs:
                st, args, before, out, fired, got = outs[st[1]]
                ctx.log((st[1], st[2], out[0], fired, values.digest(got[:4] if st[2] in ops.NOISY and out[0] == "ok" else got)))
                judge(ctx, st, before, out[0], got, fired, [values.canon(a) for a in args], want(st[2], before), "in the parent of worker processes, ")
    # what the caller's objects hold now, and calls made after the workers have gone
    for nm, o in m.heap.items():
        now = values.canon(o)
        d = machine.niirs_ok(m.expect[nm], now, None) if isinstance(now, dict) and now.get("obj") == "Scenario" else values.same(now, m.expect[nm], 0.0)
        if d:
            raise Found("parent", "%s of the parent process was changed%s" % (nm, d))
    again = [st for kid in kids if kid.how != "done" for st in kid.plan["steps"] if st[0] == "call"]
    for st in plan["last"] + [x[0] for x in outs.values() if x[4]] + again:
        try:
            args = m.args(st[2], st[3])
        except machine.Skip:
            continue
        before = [values.canon(a) for a in args]
        w = want(st[2], before)
        with Watch(s, ()):
            out = m.invoke(st[2], args)
        judge(ctx, st, before, out[0], values.canon(out[1], DROP) if out[0] == "ok" else type(out[1]).__name__, None, [values.canon(a) for a in args], w, "after the worker processes, ")


class Watch:
    """Ends what does not go on: first the workers, in case it waits for one of them, then the run."""

    def __init__(self, s, kids):
        self.s, self.kids, self.seen, self.n = s, kids, None, 0

    def tick(self, *_):
        now = (self.s.points, round(time.process_time(), 1))
        if now != self.seen:
            self.seen, self.n = now, 0
            return
        self.n += 1
        left = [k for k in self.kids if k.alive or k.how == "silent"]
        if left and self.n < 3:
            for kid in left:
                os.kill(kid.pid, signal.SIGKILL)
                kid.shot = True
        elif self.n > 1:
            raise Found("progress", "the process that forked does not go on")

    def __enter__(self):
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, 4, 4)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def judge(ctx, st, before, how, got, fired, after, want, when):
    op = st[2]
    ctx.stats["calls"] += 1
    ctx.stats["op:" + op] += 1
    ctx.stats["ok" if how == "ok" else "raised"] += 1
    for d, now, b in zip(st[3], after, before):
        if isinstance(now, dict) and now.get("obj") == "Scenario":
            e = machine.niirs_ok(b, now, None)
        else:
            e = values.same(now, b, 0.0)
        if e:
            raise Found("forked-argument:%s" % op, "%sargument %s of %s was changed%s" % (when, machine._dname(d), op, e))
    if fired and how == "exc":
        return
    if want[0] == "ok" and how == "ok":
        w, g = want[1], got
        if op in ("metrics.niirs", "metrics.niirs5"):
            w = {"obj": w["obj"], "d": {k: v for k, v in w["d"].items() if k not in DROP}}
        if op in ops.NOISY:
            w, g = w[:4], g[:4]
        d = values.same(g, w)
    else:
        d = machine.compare((how, got), want)
    if d:
        raise Found("forked:%s" % op, "%s%s%s" % (when, op, d))


def simplify(plan):
    for k in range(len(plan["kids"])):
        yield dict(plan, kids=plan["kids"][:k] + plan["kids"][k + 1 :])
        for j in range(len(plan["kids"][k]["steps"])):
            kid = dict(plan["kids"][k])
            kid["steps"] = kid["steps"][:j] + kid["steps"][j + 1 :]
            yield dict(plan, kids=plan["kids"][:k] + [kid] + plan["kids"][k + 1 :])
