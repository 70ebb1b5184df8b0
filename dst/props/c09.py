"""C09: library calls leave process-wide settings and state alone."""
import gc
import hashlib
import io
import logging
import os
import random
import signal
import sys
import time
import warnings

import numpy as np

from .. import machine, ops, procstate, sched, sim, values
from ..machine import Found
from . import c04, c06

RULE = (
    "One run = a prior setting of process-wide state drawn from the seed (error handling, print options, warning filters, logging, working directory, streams, figures, "
    "random states, ...), then 3-10 calls, some failing at drawn sites or file accesses, or 2-3 threads making calls under a drawn interleaving; the whole state is compared before and after "
    "each call. Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (prior setting, function, outcome) triples"
TIERS = {"quick": {"runs": 1300, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["failures", "switches"]
ALLOPS = sorted(ops.OPS)
PRIOR = [
    "none", "errstate-raise", "errstate-warn", "printopts", "warn-error", "warn-always", "warn-default", "logging-basic", "logging-debug", "logging-disabled", "cwd", "streams", "figures", "rc", "gc-off",
    "signals", "umask", "seeds", "recursion", "env", "nomask", "decimal", "bufsize", "cvthreads", "special",
]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    focus = ALLOPS[i % len(ALLOPS)]
    # saturated sensors and oversampled images take the advisory paths
    for _ in range(1):
        d = ops.draw_sensor(rng)
        if rng.random() < 0.6:
            d["a"]["max_n"] = int(rng.choice([50, 400, 3000]))
            d["a"]["int_time"] = 0.05
        b.new(d)
        d = ops.draw_scenario(rng)
        if rng.random() < 0.5:
            d["altitude"], d["ground_range"], d["interp"] = rng.choice([500, 1000]), 0, False
        b.new(d)
    d = ops.draw_ref(rng)
    if rng.random() < 0.5:
        # coarser than what the sensor sees, so that the image comes out oversampled
        sn, sc = b.steps[0][2], b.steps[1][2]
        d["gsd"] = float("%.4g" % (rng.choice([1.5, 2.5]) * sn["a"]["p_x"] / sn["a"]["f"] * (sc["altitude"] ** 2 + sc["ground_range"] ** 2) ** 0.5))
    b.new(d)
    prior = [rng.choice(PRIOR) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.5 and "cvthreads" not in prior:
        prior.append("cvthreads")
    if rng.random() < (0.5 if focus in ops.HEAVY or focus in c04.MID else 0.35):
        nt = rng.choice([2, 2, 3])
        threads = []
        for _ in range(nt):
            calls = []
            for _ in range(rng.choice([1, 2])):
                opts = {"fault": {"kind": "site", "exc": "MemoryError", "frac": rng.random()}} if rng.random() < 0.15 else {}
                b.call(focus if rng.random() < 0.85 else rng.choice(ALLOPS), **opts)
                calls.append(b.steps.pop())
            threads.append(calls)
        meet = c06.draw_meet(rng, nt, 0.65)
        schedule = sched.dense(rng) if meet else sched.draw(rng, nt, 4000 if focus in ops.HEAVY else 60)
        return {"prior": prior, "steps": b.steps, "threads": threads, "first": rng.randrange(nt), "sched": schedule, "meet": meet}
    if (focus in ops.HEAVY or focus in c04.MID) and rng.random() < 0.5:
        # one call, failed at places spread over its lines
        b.call(focus)
        args = b.calls[-1][2]
        serial = rng.randrange(1000)
        for k in range(8):
            b.call(focus, args, fault={"kind": "site", "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "frac": rng.random(), "line": ((serial + k) * c04.PHI) % 1.0})
        return {"prior": prior, "steps": b.steps}
    for k in range(rng.randrange(2, 6)):
        op = focus if rng.random() < 0.7 else rng.choice(ALLOPS + ["metrics.plot_noise_terms", "metrics.plot_common_MTFs", "obj.show"])
        opts = {}
        if rng.random() < 0.3:
            opts["fault"] = {"kind": rng.choice(["site", "site", "open"]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "err": "EIO", "frac": rng.random()}
        b.call(op, **opts)
    return {"prior": prior, "steps": b.steps}


def apply(name, i):
    if name == "errstate-raise":
        np.seterr(all="raise", under="ignore")
    elif name == "errstate-warn":
        np.seterr(divide="ignore", over="print", invalid="call")
        np.seterrcall(_errcall)
    elif name == "printopts":
        np.set_printoptions(precision=2, threshold=5, suppress=True)
    elif name == "warn-error":
        warnings.simplefilter("error", UserWarning)
    elif name == "warn-always":
        warnings.simplefilter("always")
    elif name == "warn-default":
        warnings.resetwarnings()
    elif name == "logging-basic":
        logging.basicConfig(level=logging.WARNING, stream=io.StringIO())
    elif name == "logging-debug":
        logging.getLogger().setLevel(logging.DEBUG)
    elif name == "logging-disabled":
        logging.disable(logging.CRITICAL)
    elif name == "cwd":
        os.chdir("/")
    elif name == "streams":
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    elif name == "figures":
        import matplotlib.pyplot as plt

        plt.figure(11)
        plt.plot([1, 2], [3, 4])
        plt.figure(4)
    elif name == "rc":
        import matplotlib

        matplotlib.rcParams["font.size"] = 7.5
        matplotlib.rcParams["axes.grid"] = True
    elif name == "gc-off":
        gc.disable()
        gc.set_threshold(500, 7, 9)
    elif name == "signals":
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        signal.signal(signal.SIGALRM, _errcall)
    elif name == "umask":
        os.umask(0o077)
    elif name == "nomask":
        os.umask(0)
    elif name == "seeds":
        random.seed(5)
        np.random.seed(99)
        np.random.standard_normal()
    elif name == "recursion":
        sys.setrecursionlimit(1500)
        sys.setswitchinterval(0.02)
    elif name == "env":
        os.environ["TMPDIR"] = "/nonexistent"
        os.environ["OMP_NUM_THREADS"] = "3"
        os.environ["TZ"] = "Asia/Tokyo"
        time.tzset()
    elif name == "decimal":
        import decimal

        decimal.getcontext().prec = 9
    elif name == "bufsize":
        np.setbufsize(16384)
    elif name == "cvthreads":
        import cv2

        cv2.setNumThreads(2)
        cv2.setUseOptimized(False)
    elif name == "special":
        import scipy.special

        scipy.special.seterr(loss="warn")


def _errcall(*a):
    pass


def judge(before, after, what, ignore=()):
    d = procstate.difference(before, after, ignore)
    if d:
        raise Found("state:%s" % d[0], "%s changed the process's %s: %s" % (what, d[0], d[1]))


class M(machine.Machine):
    prior = ()

    def call(self, st):
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        f = opts.get("fault")
        inj = None
        if f:
            cnt = self.ctx.oracle(op, [machine.canon(a) for a in args], None, count=True)
            inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
        noise, plots = op in ops.NOISY, op in ops.PLOTS
        before = procstate.snapshot(noise, plots)
        if inj:
            with inj:
                out = self.invoke(op, args)
        else:
            out = self.invoke(op, args)
        what = op
        if inj and inj.fired:
            self.st["failures"] += 1
            self.st["fault:%s %s" % (f["kind"], f["exc"] if f["kind"] == "site" else f["err"])] += 1
            what = "%s, failing at %s," % (op, inj.fired)
        after = procstate.snapshot(noise, plots)
        self.st["calls"] += 1
        self.st["op:" + op] += 1
        self.st["ok" if out[0] == "ok" else "raised"] += 1
        self.ctx.log((cid, op, out[0] if out[0] == "ok" else type(out[1]).__name__))
        self.ctx.states.add("%s|%s|%s" % (",".join(self.prior), op, "failed" if inj and inj.fired else out[0]))
        out = (out[0], out[1] if out[0] == "ok" else None)
        judge(before, after, what)
        if out[0] == "ok":
            self.res[cid] = out[1]


def run(plan, ctx):
    m = M(ctx, check_oracle=False, stability=False)
    m.prior = sorted(set(plan["prior"]))
    for i, p in enumerate(plan["prior"]):
        apply(p, i)
    if "threads" not in plan:
        m.run(plan["steps"])
        return
    m.run(plan["steps"])
    jobs, noise = [], False
    for calls in plan["threads"]:
        mine = []
        for st in calls:
            try:
                args = m.args(st[2], st[3])
            except machine.Skip:
                continue
            f = st[4].get("fault")
            if f:
                cnt = ctx.oracle(st[2], [machine.canon(a) for a in args], None, count=True)
                f["at"] = sim.at(f, cnt)
            noise = noise or st[2] in ops.NOISY
            mine.append((st, args))
        jobs.append(mine)
    inj = {}

    def body(mine):
        def fn(s, i):
            for st, args in mine:
                f = st[4].get("fault")
                if f:
                    inj[i] = sim.Injector(ctx.pkg, f)
                th = (dict(np.geterr()), np.getbufsize())
                out = m.invoke(st[2], args)
                fired = inj[i].fired if f else None
                inj.pop(i, None)
                if fired:
                    s.rearm(i)
                    ctx.stats["failures"] += 1
                    ctx.stats["fault:site MemoryError"] += 1
                if (dict(np.geterr()), np.getbufsize()) != th:
                    bad.append("floating-point error handling of the calling thread after %s" % st[2])
                ctx.stats["calls"] += 1
                ctx.stats["op:" + st[2]] += 1
                ctx.stats["ok" if out[0] == "ok" else "raised"] += 1
                ctx.log((i, st[1], out[0] if out[0] == "ok" else type(out[1]).__name__, s.points))

        return fn

    bad = []
    meet = plan.get("meet") or {}
    s = sim.Sim(
        ctx.pkg, [body(j) for j in jobs], plan["sched"], injectors=inj, first=plan["first"],
        meet=c06.place(ctx, meet, [(st, args, [machine.canon(a) for a in args]) for mine in jobs for st, args in mine]), visits=meet.get("visits", ()),
    )
    before = procstate.snapshot(noise)
    s.run()
    after = procstate.snapshot(noise)
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    ctx.states.add(hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    if s.dead:
        raise Found("progress", s.dead)
    what = "interleaved calls (%s)" % ", ".join(sorted({st[2] for j in jobs for st, _ in j}))
    if bad:
        raise Found("state:thread", "interleaved calls changed " + bad[0])
    judge(before, after, what)
