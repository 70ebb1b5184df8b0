"""C16: long histories accumulate nothing."""
import functools
import gc
import os
import sys
import tracemalloc
import warnings

import numpy as np

from .. import disk, machine, ops, sched, sim
from ..machine import Found

RULE = (
    "One run = one round of 1-4 calls on drawn objects, repeated 10 times or more with other values each time; in some runs the arrays grow from round to round, a call fails at a drawn site or file access in every round, a file of "
    "the database is damaged, the same objects live through all rounds and are changed in between, or threads under a drawn schedule make the calls. After each round everything of the caller's is dropped and "
    "memory (all Python and NumPy allocations), objects, descriptors, mappings and threads are counted. Growth from round to round is followed up with many more rounds before it is reported. "
    "Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (function, outcome, kind of history) triples"
TIERS = {"quick": {"runs": 500, "seconds": 150, "need": 60}, "thorough": {"runs": 40000, "seconds": 600, "need": 60}}
REQUIRED = ["rounds", "kept", "failures", "threads", "damaged", "growing arrays"]
ALLOPS = sorted(ops.OPS) + ["obj.atm"] * 6 + ["simulation.simulate_image"] * 5 + ["metrics.niirs", "metrics.niirs5"] + ["metrics.plot_noise_terms", "metrics.plot_common_MTFs", "obj.show"]
WARM, ROUNDS = 4, 12
ALT, RNG = ops.ALTS[5:20], ops.RNGS[:9]
ATTR = {"sensor": ["int_time", "D", "f", "read_noise", "s_x", "filter_kernel", "qe", "name"], "scen": ["altitude", "ground_range", "ihaze", "ha_wind_speed", "target_reflectance", "name"], "ref": ["gsd", "img", "name"]}


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    focus = ALLOPS[i % len(ALLOPS)]
    mode = rng.choice(["drop", "drop", "drop", "keep", "keep", "threads"])
    if focus in ops.PLOTS and mode == "threads":
        mode = "drop"
    b.call(focus)
    if focus not in ops.HEAVY and focus not in ops.PLOTS:
        for _ in range(rng.randrange(0, 3)):
            op = rng.choice([focus] * 2 + ALLOPS[:-3] + ["obj.atm"] * 8)
            if op not in ops.HEAVY and "metrics" not in str(ops.OPS.get(op)):
                b.call(op)
    plan = {"steps": b.steps, "mode": mode, "rounds": ROUNDS, "vary": focus not in ops.PLOTS and rng.random() < 0.85, "later": 300}
    if mode != "keep" and plan["vary"] and rng.random() < 0.4:
        plan["grow"] = 1
    calls = [k for k, st in enumerate(b.steps) if st[0] == "call"]
    if rng.random() < 0.4 and mode != "threads":
        plan["fault"] = {"kind": rng.choice(["site", "site", "open"]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "err": rng.choice(["EIO", "EMFILE"]), "frac": rng.random(), "call": rng.choice(calls)}
    if rng.random() < 0.4:
        plan["hurt"] = [rng.choice(disk.BIN_FAULTS), rng.random()] if rng.random() < 0.75 else [rng.choice(disk.CSV_FAULTS), rng.random(), "fileDecoder.csv"]
    if mode == "keep":
        # what is changed of the objects that live on, in this order
        plan["attrs"] = {k: rng.sample(v, rng.choice([1, 1, 2, len(v)])) for k, v in ATTR.items()}
    if mode == "threads":
        plan["sched"] = sched.draw(rng, 2, 400)
        plan["first"] = rng.randrange(2)
    return plan


def vary(x, r, stay=False, grow=0):
    """The same description with other values, in round r; stay: at the same place; grow: arrays longer by so much every round."""
    f = 1.0 + 1e-4 * r
    if not isinstance(x, dict):
        return x * f if isinstance(x, float) else x
    d = dict(x)
    k = d.get("k")
    if k == "scen":
        if not isinstance(d["altitude"], dict) and not stay:
            if d["interp"]:
                d["altitude"] = d["altitude"] * (1.0 - 1e-4 * r) if d["altitude"] > 1500 else d["altitude"] + r * 0.25
                d["ground_range"] = d["ground_range"] + r * 0.25
            else:
                d["altitude"] = ALT[(int(d["altitude"]) + r) % len(ALT)]
                d["ground_range"] = RNG[(int(d["ground_range"]) + r // 3) % len(RNG)]
        d["a"] = {n: v * f if isinstance(v, float) else v for n, v in d["a"].items()}
        d["name"] = "%s%d" % (d["name"], r)
    elif k == "sensor":
        d["a"] = {n: v * f if isinstance(v, float) and n != "bit_depth" else v for n, v in d["a"].items()}
        d["name"] = "%s%d" % (d["name"], r)
    elif k == "ref":
        d["gsd"] = d["gsd"] * f
        d["name"] = "%s%d" % (d["name"], r)
        d["img"] = vary(d["img"], r, grow=grow)
    elif k == "atm":
        d["p"] = [d["p"][0] + r]
    elif "p" in d:
        d["p"] = [p * f if isinstance(p, float) else p for p in d["p"]]
        if grow and "n" in d and k != "kern":
            d["n"] = d["n"] + r * grow
    return d


class Rounds:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.m = machine.Machine(ctx, check_oracle=False, stability=False)
        self.counts = {}
        self.caches = None

    def new(self, st, r):
        d = vary(st[2], r, bool(self.plan.get("hurt")), self.plan.get("grow", 0)) if self.plan["vary"] else st[2]
        m = self.m
        if self.plan["mode"] == "keep" and st[1] in m.heap:
            # the object lives on and takes the new values
            o, n = m.heap[st[1]], ops.make(d)
            if d["k"] in ATTR:
                for a in self.plan["attrs"][d["k"]]:
                    setattr(o, a, getattr(n, a))
            elif o.flags.writeable and o.shape == n.shape:
                o[...] = n
        else:
            m.heap[st[1]] = ops.make(d)

    def call(self, i, st, r):
        m = self.m
        args = [vary(a, r) if self.plan["vary"] and isinstance(a, float) else a for a in st[3]]
        try:
            args = m.args(st[2], args)
        except machine.Skip:
            return "skipped"
        f = self.plan.get("fault")
        if f and f["call"] == i:
            if i not in self.counts:
                # where this call can fail, counted in the first round
                inj = sim.Injector(self.ctx.pkg, None, record=True)
                with inj:
                    m.invoke(st[2], args)
                self.counts[i] = sim.at(f, (None, inj.sites, inj.opens, inj.seq))
            inj = sim.Injector(self.ctx.pkg, dict(f, at=self.counts[i]))
            with inj:
                out = m.invoke(st[2], args)
            if inj.fired:
                self.ctx.stats["failures"] += 1
        else:
            out = m.invoke(st[2], args)
        if out[0] == "ok":
            m.res[st[1]] = out[1]
            return "ok"
        return type(out[1]).__name__

    def round(self, r):
        m, plan = self.m, self.plan
        np.random.seed(r)
        got = []
        if plan["mode"] == "threads":
            jobs = []
            for i, st in enumerate(plan["steps"]):
                if st[0] == "call":
                    jobs.append((i, st))
                else:
                    self.other(st, r)
            def body(s, k):
                for i, st in jobs:
                    got.append(self.call(i, st, r))
            s = sim.Sim(self.ctx.pkg, [body, body], plan["sched"], first=plan["first"])
            s.run()
            if s.dead:
                raise Found("progress", s.dead)
        else:
            for i, st in enumerate(plan["steps"]):
                if st[0] == "call":
                    got.append(self.call(i, st, r))
                else:
                    self.other(st, r)
        return got

    def other(self, st, r):
        if st[0] == "new":
            self.new(st, r)
        elif st[0] == "set" and self.m.heap.get(st[1]) is not None:
            setattr(self.m.heap[st[1]], st[2], ops.num(st[3]))

    def clean(self):
        self.m.res.clear()
        if self.plan["mode"] != "keep":
            self.m.heap.clear()
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
            if self.caches is None:
                # Matplotlib's own (bounded) memories of texts laid out
                ms = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "matplotlib"]
                self.caches = [f for m in ms for f in list(vars(m).values()) if isinstance(f, functools._lru_cache_wrapper)]
            for f in self.caches:
                f.cache_clear()
        sys._clear_type_cache()  # holds the names last looked up
        gc.collect()

    def measure(self, into):
        fd, got = os.open("/proc/self/maps", os.O_RDONLY), []
        while not got or got[-1]:
            got.append(os.read(fd, 1 << 16))
        os.close(fd)
        maps = b"".join(got).count(os.fsencode(self.ctx.base))
        fds = 0
        for f in range(256):
            try:
                os.fstat(f)
            except OSError:
                continue
            fds += not os.readlink("/proc/self/fd/%d" % f).endswith((".ttf", ".afm", ".otf"))
        del fd, got, f
        tasks = len(os.listdir("/proc/self/task"))
        n = len(gc.get_objects())
        into[1], into[2], into[3], into[4] = n, fds, maps, tasks
        del n, fds, maps, tasks
        into[0] = tracemalloc.get_traced_memory()[0]


WHAT = ["bytes of memory", "objects", "open descriptors", "mapped files", "threads"]
LEAST = [8, 1, 1, 1, 1]


def growing(ms, block):
    """Which of the counts goes up block after block, by more than the least there can be to a round."""
    for k, w in enumerate(WHAT):
        v = [m[k] for m in ms][::block]
        d = [b - a for a, b in zip(v, v[1:])]
        if len(d) >= 3 and sum(x > 0 for x in d) >= 0.75 * len(d) and sum(d) >= LEAST[k] * block * len(d) * 0.9:
            return w, sum(d) / (block * len(d))
    return None


def run(plan, ctx):
    q = Rounds(plan, ctx)
    st = ctx.stats
    if plan.get("hurt"):
        sc = [s[2] for s in plan["steps"] if s[0] == "new" and s[2]["k"] == "scen"]
        k = ctx.db.indices(ops.num(sc[0]["altitude"]), ops.num(sc[0]["ground_range"]), sc[0]["ihaze"], sc[0]["interp"]) if sc else []
        if k:
            what, frac = plan["hurt"][:2]
            disk.damage(ctx.base, plan["hurt"][2] if len(plan["hurt"]) > 2 else "%d.bin" % k[int(frac * len(k))], what, frac)
            st["fault:disk " + what] += 1
            st["damaged"] += 1
    # warnings are filtered as in most programs (shown once for each text and place), and go nowhere
    warnings.simplefilter("default")
    warnings.showwarning = lambda *a, **k: None
    gc.unfreeze()
    gc.collect()
    gc.freeze()
    tracemalloc.start()
    ms, more = (np.zeros((n, len(WHAT)), np.int64) for n in (plan["rounds"], plan["later"]))  # counting must not count itself
    last = None
    try:
        for r in range(plan["rounds"]):
            ctx.where = r
            ctx.tick()
            last = q.round(r)
            q.clean()
            q.measure(ms[r])
        g = growing(ms[WARM:].tolist(), 2)
        if g:
            st["followed up"] += 1
            for r in range(plan["later"]):
                q.round(plan["rounds"] + r)
                q.clean()
                q.measure(more[r])
            g = growing(more[plan["later"] // 2 :].tolist(), 6)
    finally:
        tracemalloc.stop()
    calls = [s[2] for s in plan["steps"] if s[0] == "call"]
    st["rounds"] += plan["rounds"]
    st["calls"] += plan["rounds"] * len(calls)
    st["growing arrays"] += bool(plan.get("grow"))
    st["kept"] += plan["mode"] == "keep"
    st["threads"] += plan["mode"] == "threads"
    f = plan.get("fault")
    if f and st["failures"]:
        st["fault:%s %s" % (f["kind"], f["exc"] if f["kind"] == "site" else f["err"])] += st["failures"]
    for op, o in zip(calls, last):
        st["op:" + op] += plan["rounds"]
        st["ok" if o == "ok" else "raised"] += 1
        ctx.states.add("%s|%s|%s|%s" % (op, o, plan["mode"], bool(f)))
    ctx.log((calls, last, plan["mode"], plan["vary"], q.counts))
    if g:
        raise Found("grows:%s" % g[0], "%s: %.1f %s more after every round of calls whose objects and results have been dropped (%s)" % (", ".join(dict.fromkeys(calls)), g[1], g[0], plan["mode"] + (", failing" if f else "")))
