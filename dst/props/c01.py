"""C01: a scenario's atmosphere always matches its current parameters."""
import copy
import pickle

import numpy as np

from .. import dbmodel, disk, machine, ops, scen
from ..machine import Found

RULE = (
    "One run = one history of 15-40 parameter changes, atmosphere reads, evaluations, copies and failed or interrupted reads over 1-4 scenarios; every read is "
    "compared with a model of the synthetic database in which every file differs. Non-trivial: at least one read succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (cache state, previous operation, operation, outcome) transitions of scenarios"
TIERS = {"quick": {"runs": 1100, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["failed reads", "reads after a failure"]


def gen(rng, i, tier):
    names, par = [], {}
    steps = []

    def new():
        nm = "C%d" % (len(names) + 1)
        interp = rng.random() < 0.35
        if par and rng.random() < 0.4:
            p = dict(par[rng.choice(names)])
            if rng.random() < 0.5:
                p["interp"] = not p["interp"]
        else:
            p = {"altitude": scen.alt(rng, interp), "ground_range": scen.grange(rng, interp), "ihaze": scen.haze(rng), "interp": interp}
        names.append(nm)
        par[nm] = p
        steps.append(["new", nm, {"k": "scen", "name": rng.choice(["a", "a", "b"]), "a": {}, **p}])

    for _ in range(rng.randrange(1, 4)):
        new()
    sensor = False
    pool = {}
    for _ in range(rng.randrange(15, 40)):
        c = rng.choice(names)
        p = par[c]
        k = rng.random()
        if k < 0.36:
            at = rng.choice(["altitude", "ground_range", "ihaze"])
            r2 = rng.random()
            if r2 < 0.15:  # swap altitude and ground range
                a, b = p["altitude"], p["ground_range"]
                p["altitude"], p["ground_range"] = b, a
                steps.append(["set", c, "altitude", b])
                if rng.random() < 0.5:
                    steps.append(["read", c, None])
                steps.append(["set", c, "ground_range", a])
            elif r2 < 0.4 and pool.get(at):  # back to a value used before
                p[at] = rng.choice(pool[at])
                steps.append(["set", c, at, p[at]])
            else:
                v = {"altitude": lambda: scen.alt(rng, p["interp"], p["altitude"]), "ground_range": lambda: scen.grange(rng, p["interp"], p["ground_range"]), "ihaze": lambda: scen.haze(rng)}[at]()
                pool.setdefault(at, []).append(p[at])
                p[at] = v
                steps.append(["set", c, at, v])
            if rng.random() < 0.6:
                steps.append(["read", c, None])
        elif k < 0.60:
            steps.append(["read", c, None])
        elif k < 0.72:
            steps.append(["read", c, scen.load_fault(rng)])
            if rng.random() < 0.7:
                steps.append(["heal"])
                steps.append(["read", c, None])
        elif k < 0.80:
            which, how = scen.damage_kind(rng)
            steps.append(["damage", c, which, how, rng.random()])
            steps.append(["read", c, None])
            if rng.random() < 0.8:
                steps.append(["heal"])
        elif k < 0.86 and len(names) < 6:
            nm = "C%d" % (len(names) + 1)
            names.append(nm)
            par[nm] = dict(p)
            steps.append(["copy", nm, c, rng.choice(["copy", "deepcopy", "pickle"])])
            if rng.random() < 0.5:
                steps.append(["read", rng.choice([c, nm]), None])
        elif k < 0.90:
            if not sensor:
                sensor = True
                steps.append(["new", "S", ops.draw_sensor(rng)])
            steps.append(["eval", "R%d" % len(steps), rng.choice(["metrics.niirs", "metrics.niirs5", "metrics.niirs"]), c, rng.choice([False, True])])
        elif k < 0.93:
            steps.append(["other", c, rng.choice(["name", "aircraft_speed", "ha_wind_speed", "cn2_at_1m", "target_reflectance"]), rng.choice([1, 2.5])])
            steps.append(["read", c, None])
        elif k < 0.96:
            steps.append(["scribble", c])
        elif len(names) < 6:
            new()
    steps.append(["heal"])
    for c in names:
        steps.append(["read", c, None])
    return {"steps": steps}


class Run:
    def __init__(self, ctx):
        self.ctx, self.db = ctx, ctx.db
        self.m = machine.Machine(ctx, check_oracle=False, stability=False)
        self.par, self.dirty, self.group = {}, set(), {}
        self.failed, self.last = {}, {}
        self.damaged = False
        self.faulty = scen.Faulty(ctx)

    def want(self, c):
        p = self.par[c]
        return self.db.lookup(p["altitude"], p["ground_range"], p["ihaze"], p["interp"])

    def idx(self, c):
        p = self.par[c]
        try:
            return self.db.indices(p["altitude"], p["ground_range"], p["ihaze"], p["interp"])
        except TypeError:
            return []

    def read(self, c, fault):
        ctx, o = self.ctx, self.m.get(c)
        if c in self.dirty:
            return
        faulted = False
        ctx.stats["calls"] += 1
        if fault:
            cnt = ctx.oracle("obj.atm", [machine.canon(o)], count=True)
            out, inj = self.faulty.run(lambda: o.atm, fault, cnt[1:], self.idx(c))
            if inj.fired:
                faulted = True
                if fault["kind"] == "swap":
                    self.damaged = True
        else:
            try:
                out = ("ok", o.atm)
            except Exception as e:
                out = ("exc", e)
        want = self.want(c)
        p = self.par[c]
        desc = "altitude %r, ground range %r, ihaze %r, interp %r" % (p["altitude"], p["ground_range"], p["ihaze"], p["interp"])
        if out[0] == "ok":
            ctx.stats["ok"] += 1
            if self.failed.pop(c, None):
                ctx.stats["reads after a failure"] += 1
            if want[0] == "raise":
                raise Found("atm:uncovered", "reading %s.atm (%s) returned %s although the database has no such atmosphere" % (c, desc, dbmodel.identify(self.db, out[1])))
            if want[0] == "ok" and not dbmodel.same_atm(out[1], want[1], 2e-6):
                raise Found("atm:wrong", "reading %s.atm (%s) returned %s" % (c, desc, dbmodel.identify(self.db, out[1])))
        else:
            ctx.stats["raised"] += 1
            ctx.stats["failed reads"] += 1
            if want[0] == "ok" and not faulted and not self.damaged:
                raise Found("atm:fails", "reading %s.atm (%s) raised %r although the database has that atmosphere" % (c, desc, out[1]))
            self.failed[c] = True
        ctx.log((c, out[0], type(out[1]).__name__, float(out[1][700, 3]) if out[0] == "ok" and isinstance(out[1], np.ndarray) and out[1].ndim == 2 else None))
        ctx.states.add("%s>%s/%s/%s" % (self.last.get(c), "fault" if fault else "read", out[0], want[0]))
        self.last[c] = "read " + out[0]

    def step(self, st):
        k, m = st[0], self.m
        if k == "new":
            m.step(st)
            if st[2]["k"] == "scen":
                self.par[st[1]] = {"altitude": scen.val(st[2]["altitude"]), "ground_range": scen.val(st[2]["ground_range"]), "ihaze": scen.val(st[2]["ihaze"]), "interp": st[2]["interp"]}
                self.group[st[1]] = {st[1]}
                self.last[st[1]] = "new"
        elif k == "set":
            m.get(st[1])
            setattr(m.heap[st[1]], st[2], ops.num(st[3]))
            self.par[st[1]][st[2]] = scen.val(st[3])
            self.last[st[1]] = "set after " + self.last[st[1]].split(" after ")[0]
            for at in ("altitude", "ground_range", "ihaze"):
                a, b = getattr(m.heap[st[1]], at), self.par[st[1]][at]
                if not (a == b or (a != a and b != b)):
                    raise Found("set:" + at, "after setting %s.%s to %r, %s reads %r instead of %r" % (st[1], st[2], st[3], at, a, b))
        elif k == "other":
            setattr(m.get(st[1]), st[2], "n%s" % st[3] if st[2] == "name" else st[3])
        elif k == "read":
            self.read(st[1], st[2])
        elif k == "copy":
            src = m.get(st[2])
            m.heap[st[1]] = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[st[3]](src)
            self.par[st[1]] = dict(self.par[st[2]])
            self.last[st[1]] = "copy"
            if st[3] == "copy":
                self.group[st[2]].add(st[1])
                self.group[st[1]] = self.group[st[2]]
            else:
                self.group[st[1]] = {st[1]}
            if st[2] in self.dirty:
                self.dirty.add(st[1])
        elif k == "eval":
            o = m.get(st[3])
            f = ops.resolve(st[2])
            try:
                f(m.get("S"), o, st[4])
            except Exception:
                pass
            self.ctx.stats["evaluations between"] += 1
            self.last[st[3]] = "evaluated"
        elif k == "damage":
            m.get(st[1])
            idx = self.idx(st[1])
            name = "fileDecoder.csv" if st[2] == "csv" or not idx else "%d.bin" % idx[int(st[4] * len(idx)) % len(idx)]
            if name.endswith(".csv") and st[2] != "csv":
                return
            disk.damage(self.ctx.base, name, st[3], st[4])
            self.damaged = True
            self.ctx.stats["fault:disk %s %s" % (st[2], st[3])] += 1
        elif k == "heal":
            disk.heal_all(self.ctx.base)
            self.damaged = False
        elif k == "scribble":
            # the caller overwrites the array one scenario gave it; only that scenario may notice
            o = m.get(st[1])
            try:
                a = o.atm
            except Exception:
                return
            if a is not None and a.flags.writeable:
                a[:, 1:] = -7.0
                self.dirty |= self.group[st[1]]
            self.ctx.stats["overwritten arrays"] += 1


def run(plan, ctx):
    r = Run(ctx)
    for i, st in enumerate(plan["steps"]):
        ctx.where = i
        ctx.tick()
        try:
            r.step(st)
        except machine.Skip:
            ctx.stats["skipped"] += 1
