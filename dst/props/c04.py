"""C04: a failed evaluation changes nothing and can simply be retried."""
from .. import machine, ops, sim
from ..machine import Found

RULE = (
    "One run = one history of 6-14 calls on shared objects in which evaluations fail at a drawn failure site (a call, arithmetic or indexing statement of pyBSM, as "
    "MemoryError, KeyboardInterrupt, FloatingPointError, or SciPy's and OpenCV's own errors) or at a drawn file access (EIO, EMFILE, EACCES, ENOMEM), one or several times, and are then repeated; "
    "arguments are compared before and after each failure and repeats and other calls with a fresh process. Non-trivial: at least one call succeeded; distinct: by digest."
)
MEASURE = "distinct (function, failure position) pairs"
TIERS = {"quick": {"runs": 700, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["failures", "retries"]
ALLOPS = sorted(ops.OPS)
# cheap one-liners have one or two sites: spend the runs where failing half-way means something
MID = {"obj.estimate", "obj.atm", "otf.apply_otf_to_image", "radiance.photon_detector_SNR", "utils.load_database_atmosphere_no_interp", "obj.refimage"}
LONG = {"simulation.simulate_image": 10, "metrics.niirs": 6, "metrics.niirs5": 6}
WEIGHTED = [o for o in ALLOPS for _ in range(LONG.get(o) or (3 if o in ops.HEAVY or o in MID else 1))]
# far apart from one another, so that a search cut short has still met every function
WEIGHTED = [WEIGHTED[(k * 37) % len(WEIGHTED)] for k in range(len(WEIGHTED))]
EXC = ["MemoryError", "MemoryError", "KeyboardInterrupt", "KeyboardInterrupt", "FloatingPointError", "QhullError", "cv2.error"]


PHI = 0.6180339887498949


def fault(rng, op, n=0):
    if op in ("obj.atm", "metrics.niirs", "metrics.niirs5", "simulation.simulate_image") or op.startswith("utils."):
        if rng.random() < 0.3:
            return {"kind": "open", "err": rng.choice(["EIO", "EMFILE", "EACCES", "ENOMEM"]), "frac": rng.random()}
    f = {"kind": "site", "exc": rng.choice(EXC), "frac": rng.random()}
    if rng.random() < 0.7:
        # successive faults of one function spread over its lines
        f["line"] = (n * PHI + 0.003 * rng.random()) % 1.0
    return f


SWEEP = set(LONG) | ops.HEAVY | MID


def sweep(rng, b, op, serial):
    """One call, failed at a dozen places spread over its lines and repeated after each from the same random state."""
    b.steps.append(["seed", 1])
    b.call(op)
    args = b.calls[-1][2]
    for k in range(12):
        for _ in range(rng.choice([1, 1, 2])):
            b.steps.append(["seed", 1])
            b.call(op, args, fault=fault(rng, op, serial))
            serial += 1
        b.steps.append(["seed", 1])
        b.call(op, args)
    return {"steps": b.steps}


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8, 9])})
    focus = WEIGHTED[i % len(WEIGHTED)]
    serial = 6 * (i // len(WEIGHTED) * WEIGHTED.count(focus) + WEIGHTED[: i % len(WEIGHTED)].count(focus))
    if focus in SWEEP and rng.random() < 0.6:
        return sweep(rng, b, focus, 3 * serial)
    if rng.random() < 0.5:
        b.call(focus)
    for _ in range(rng.randrange(2, 5)):
        prev = [c for c in b.calls if c[1] == focus]
        if prev and rng.random() < 0.4:
            cid, op, args = rng.choice(prev)
            if rng.random() < 0.5:
                nm = rng.choice([x["o"] for x in args if isinstance(x, dict) and "o" in x] or [None])
                if nm:
                    b.set_attr(nm)
        else:
            op, args = focus, None
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            cid = b.call(op, args, fault=fault(rng, op, serial))
            serial += 1
            args = b.calls[-1][2]
            if rng.random() < 0.15:
                b.call(rng.choice(ALLOPS))
        k = rng.random()
        if k < 0.8:
            b.call(op, args)
        if k > 0.7:
            b.near_repeat((cid, op, args))
        if rng.random() < 0.2:
            b.call(rng.choice(ALLOPS))
    return {"steps": b.steps}


class M(machine.Machine):
    def call(self, st):
        _, cid, op, dargs, opts = st
        f = opts.get("fault")
        if not f:
            if getattr(self, "failed", None) == (op, repr(dargs)):
                self.st["retries"] += 1
            return super().call(st)
        args = self.args(op, dargs)
        before = [machine.canon(a) for a in args]
        rng = machine.np.random.get_state() if op in ops.NOISY else None
        cnt = self.ctx.oracle(op, before, rng, count=True)
        inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
        with inj:
            out = self.invoke(op, args)
        self.st["points"] += inj.sites
        if inj.fired:
            self.st["failures"] += 1
            self.st["fault:%s %s" % (f["kind"], f.get("exc") or f.get("err"))] += 1
            self.ctx.states.add("%s@%s" % (op, inj.fired))
            self.failed = (op, repr(dargs))
        if inj.fired and out[0] == "exc":
            self.st["calls"] += 1
            self.st["raised"] += 1
            self.ctx.log((cid, op, "failed at", inj.fired, type(out[1]).__name__))
            try:
                self.check_args(op, dargs, args, before, False)
            except Found as e:
                raise Found("after-failure:" + e.cls, "after %s failed at %s: %s" % (f.get("exc") or f.get("err"), inj.fired, e.detail))
        else:
            # not reached, or the call carried on in spite of it: then its result must be the right one
            self.finish(st, args, before, rng, out)


def run(plan, ctx):
    m = M(ctx)
    m.run(plan["steps"])
    m.check_results()
