"""C13: copies, pickles and restarts behave like the original."""
import copy
import hashlib
import os
import pickle

import numpy as np

from .. import machine, ops, sched, sim, values
from ..machine import Found
from . import c06

RULE = (
    "One run is one of three kinds. History: objects and results are copied, deep-copied or pickled (all protocols, restored here or in a new process) at drawn points between evaluations, failures and changes; "
    "copy and original are then changed and evaluated and each compared with a fresh process. Interleaved: one thread copies while others evaluate, under a drawn schedule. Campaign: evaluations checkpointed after each step, "
    "the process killed at drawn instants and restarted from the last checkpoint until done, compared with the uninterrupted campaign. Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (kind, way of copying or point of death, function) triples"
TIERS = {"quick": {"runs": 560, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["copies", "restarts", "campaigns", "switches", "new process"]
WAYS = ["copy", "deepcopy", "pickle0", "pickle2", "pickle4", "pickle5", "newproc", "together", "deepcopy", "pickle4"]
USES = {
    "sensor": ["radiance.photon_detector_SNR", "otf.common_OTFs", "metrics.niirs", "metrics.niirs5", "simulation.simulate_image", "radiance.reflectance_to_photoelectrons"],
    "scen": ["obj.atm", "obj.atm", "otf.common_OTFs", "metrics.niirs", "metrics.niirs5", "simulation.simulate_image"],
    "ref": ["obj.estimate", "simulation.simulate_image"],
}


def gen(rng, i, tier):
    plan = drawn(rng, i)
    for st in plan.get("pre", []) + plan["steps"]:
        # NumPy's pickles and copies of a read-only array can be written to
        for d in (st[2], st[2].get("img") or {}) if st[0] == "new" else ():
            if d.get("v") == "ro":
                d["v"] = "F"
    return plan


def drawn(rng, i):
    k = i % 5
    if k == 4:
        return campaign(rng)
    if k == 3:
        return interleaved(rng)
    b = ops.Builder(rng, sizes={"n": 5})
    kinds = {}
    for kind in ("sensor", "scen", "ref"):
        nm = b.obj(kind, 1.0)
        kinds[nm] = kind
    dup_of = {}
    results = []
    for _ in range(rng.randrange(8, 15)):
        x = rng.random()
        nm = rng.choice(list(kinds))
        kind = kinds[nm]
        if x < 0.3:
            new = b.name("D")
            b.steps.append(["dup", new, nm, rng.choice(WAYS)])
            b.desc[new] = b.desc[nm]
            b.objs[kind].append(new)
            kinds[new] = kind
            dup_of[new] = nm
            if rng.random() < 0.5:
                b.set_attr(rng.choice([nm, new]))
            if rng.random() < 0.6:
                use(b, rng, rng.choice([new, new, nm]), kind)
        elif x < 0.5:
            b.set_attr(nm)
        elif x < 0.6:
            op = rng.choice(["metrics.niirs", "metrics.niirs5", "obj.estimate", "otf.common_OTFs", "radiance.photon_detector_SNR"])
            results.append(b.call(op))
        elif x < 0.7 and results:
            b.steps.append(["dupres", rng.choice(results), rng.choice(WAYS[1:]), rng.random()])
        else:
            opts = {}
            if rng.random() < 0.2:
                opts["fault"] = {"kind": rng.choice(["site", "open"]), "exc": "MemoryError", "err": "EIO", "frac": rng.random()}
            use(b, rng, nm, kind, **opts)
    return {"kind": "history", "steps": b.steps}


def use(b, rng, nm, kind, **opts):
    op = rng.choice(USES[kind])
    args = []
    for role in ops.OPS[op]:
        if role[0] == kind:
            args.append({"o": nm})
        elif role[0] == "atm4":
            args.append({"r": [b.call("obj.atm", [{"o": rng.choice(b.objs["scen"])}])]})
        else:
            args.append(b.arg(role, None))
    b.call(op, args, **opts)


def campaign(rng):
    b = ops.Builder(rng, sizes={"n": 5})
    s, c, r = b.obj("sensor", 1.0), b.obj("scen", 1.0), b.obj("ref", 1.0)
    pre = b.steps
    b.fit(r, s, c)
    b.steps = []
    for _ in range(rng.randrange(4, 8)):
        for _ in range(rng.randrange(0, 3)):
            b.set_attr(rng.choice([s, c, c, r]))
        op = rng.choice(["simulation.simulate_image", "simulation.simulate_image", "metrics.niirs", "metrics.niirs5", "obj.atm", "obj.estimate"])
        args = [{"o": {"ref": r, "sensor": s, "scen": c}[x[0]]} if x[0] in ("ref", "sensor", "scen") else b.arg(x, None) for x in ops.OPS[op]]
        b.steps.append(["call", b.name("R"), op, args, {}])
    b.steps = [st for st in b.steps if st[0] != "new"]
    kills = [{"step": rng.randrange(len(b.steps)), "kind": rng.choice(["kill", "kill", "killopen"]), "frac": rng.random()} for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"kind": "campaign", "pre": pre, "steps": b.steps, "kills": sorted(kills, key=lambda k: k["step"]), "protocol": rng.choice([2, 4, 5])}


def interleaved(rng):
    b = ops.Builder(rng, sizes={"n": 5})
    for kind in ("sensor", "scen", "ref"):
        b.obj(kind, 1.0)
    names = [b.objs[k][0] for k in ("sensor", "scen", "ref")]
    nt = rng.choice([1, 2])
    threads = []
    if rng.random() < 0.5:
        b.call("obj.atm", [{"o": names[1]}])
    if rng.random() < 0.4:
        b.set_attr(names[1])
    base = list(b.steps)
    for _ in range(nt):
        op = rng.choice(["obj.atm", "obj.atm", "obj.atm", "metrics.niirs", "simulation.simulate_image", "otf.common_OTFs", "obj.estimate"])
        args = [{"o": names[("sensor", "scen", "ref").index(x[0])]} if x[0] in ("sensor", "scen", "ref") else b.arg(x, None) for x in ops.OPS[op]]
        threads.append([op, args])
    base = b.steps
    dups = [[rng.choice(names + [names[1]] * 2), rng.choice([w for w in WAYS if w not in ("newproc", "together")])] for _ in range(rng.choice([1, 2, 3]))]
    heavy = any(t[0] in ops.HEAVY for t in threads)
    at = rng.choice(["altitude", "ground_range", "ihaze"])
    v = {"altitude": lambda: rng.choice(ops.ALTS[5:16]), "ground_range": lambda: rng.choice(ops.RNGS[:8]), "ihaze": lambda: rng.choice([1, 2])}[at]()
    meet = c06.draw_meet(rng, nt, 0.5)
    return {"kind": "interleaved", "meet": meet, "steps": base, "threads": threads, "dups": dups, "first": rng.randrange(nt + 1), "sched": sched.draw(rng, nt + 1, 3000 if heavy else 100), "later": [at, v], "ops": not heavy and rng.random() < 0.5}


def duplicate(x, way):
    if way == "copy":
        n = copy.copy(x)
    elif way in ("deepcopy", "newproc"):
        n = copy.deepcopy(x)
    elif way == "together":  # in one pickle with others, and twice
        n = pickle.loads(pickle.dumps({"a": [x, 3], "b": x}, 4))["b"]
    else:
        n = pickle.loads(pickle.dumps(x, int(way[6:])))
    values.note_mode(n, x)
    return n


class M(machine.Machine):
    """Tracks which objects may see each other's array edits: shallow copies and nothing else."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.alias = {}

    def touched(self, arr):
        pass

    def others(self, nm, what):
        for o, v in self.heap.items():
            if o == nm:
                continue
            if self.alias.get(o) is not None and self.alias.get(o) == self.alias.get(nm):
                self.expect[o] = values.canon(v)
                continue
            d = values.same(values.canon(v), self.expect[o], 0.0)
            if d:
                raise Found("influence:%s" % st_kind(v), "%s %s changed %s%s" % (what, nm, o, d))

    def step(self, st):
        k = st[0]
        if k == "dup":
            _, new, old, way = st
            o = self.get(old)
            if way == "newproc":
                out = self.ctx.oracle("obj.same", [None], pickles={0: pickle.dumps(o, 4)})
                self.st["new process"] += 1
                d = machine.compare(out, ("ok", self.expect[old]))
                if d:
                    raise Found("restored:%s" % st_kind(o), "%s restored in a new process from a pickle%s" % (old, d))
            try:
                n = duplicate(o, way)
            except Exception as e:
                raise Found("copying:%s" % st_kind(o), "%s of %s fails: %r" % (way, old, e))
            self.st["copies"] += 1
            self.heap[new] = n
            c = values.canon(n)
            d = values.same(c, self.expect[old], 0.0)
            if d:
                raise Found("copy:%s" % st_kind(o), "%s of %s%s" % (way, old, d))
            self.expect[new] = c
            self.ctx.log((new, way, values.digest(c)))
            if way == "copy":
                self.alias[new] = self.alias[old] = self.alias.get(old) or new
            else:
                self.alias[new] = None
            self.others(new, "copying")
            d = values.same(values.canon(o), self.expect[old], 0.0)
            if d:
                raise Found("copied:%s" % st_kind(o), "%s changed the original %s%s" % (way, old, d))
            self.ctx.states.add("copy|%s|%s" % (way, st_kind(o)))
        elif k == "dupres":
            self.dupres(*st[1:])
        else:
            super().step(st)
            if k in ("set", "scale", "setarr", "edit", "mix"):
                self.others(st[1], "changing")

    def dupres(self, cid, way, frac):
        if cid not in self.res:
            raise machine.Skip
        r = self.res[cid]
        op = self.info[cid][0]
        c = values.canon(r)
        if way == "newproc":
            out = self.ctx.oracle("obj.same", [None], pickles={0: pickle.dumps(r, 4)})
            self.st["new process"] += 1
            d = machine.compare(out, ("ok", c))
            if d:
                raise Found("restored:%s" % op, "result %s restored in a new process from a pickle%s" % (cid, d))
        try:
            n = duplicate(r, way)
        except Exception as e:
            raise Found("copying:%s" % op, "%s of the result of %s fails: %r" % (way, op, e))
        self.st["copies"] += 1
        d = values.same(values.canon(n), c, 0.0)
        if d:
            raise Found("copy:%s" % op, "%s of the result of %s%s" % (way, op, d))
        # writing to the copy leaves the original and every object alone
        arrs = [a for a in machine.arrays_in(n, skip=()) if a.size and a.flags.writeable]
        if arrs:
            a = arrs[int(frac * len(arrs)) % len(arrs)]
            a.flat[0] = a.flat[0] + 1
        if values.is_obj(n):
            for at in ("snr", "otf", "sensor", "scenario"):
                if hasattr(n, at) and values.is_obj(getattr(n, at)):
                    for f, v in vars(getattr(n, at)).items():
                        if isinstance(v, float) and not f.startswith("_"):
                            setattr(getattr(n, at), f, v + 1)
                            break
            if hasattr(n, "scenario"):
                n.scenario.altitude = 9000
        d = values.same(values.canon(r), c, 0.0)
        if d:
            raise Found("influence:%s" % op, "changing a %s of the result of %s changed the original%s" % (way, op, d))
        for o, v in self.heap.items():
            d = values.same(values.canon(v), self.expect[o], 0.0)
            if d:
                raise Found("influence:%s" % op, "changing a %s of the result of %s changed %s%s" % (way, op, o, d))
        self.ctx.log((cid, way))
        self.ctx.states.add("result|%s|%s" % (way, op))

    def call(self, st):
        f = st[4].get("fault")
        if not f:
            return super().call(st)
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        before = [values.canon(a) for a in args]
        cnt = self.ctx.oracle(op, before, None, count=True)
        inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
        with inj:
            out = self.invoke(op, args)
        if inj.fired:
            self.st["fault:%s %s" % (f["kind"], f["exc"] if f["kind"] == "site" else f["err"])] += 1
        for d, a in zip(dargs, args):
            if isinstance(d, dict) and "o" in d and op in machine.NIIRS_OPS:
                self.expect[d["o"]] = values.canon(a)
        del out


def st_kind(x):
    return type(x).__name__


def run(plan, ctx):
    if plan["kind"] == "campaign":
        return run_campaign(plan, ctx)
    if plan["kind"] == "interleaved":
        return run_interleaved(plan, ctx)
    m = M(ctx, stability=False)
    m.run(plan["steps"])


# ------------------------------------------------------------------ copying under a schedule


def run_interleaved(plan, ctx):
    m = M(ctx, check_oracle=False, stability=False)
    m.run(plan["steps"])
    jobs = []
    for op, dargs in plan["threads"]:
        try:
            jobs.append((op, m.args(op, dargs)))
        except machine.Skip:
            pass
    made, outs = [], []

    def copier(s, i):
        s.arrive(i)
        for nm, way in plan["dups"]:
            if m.heap.get(nm) is None:
                continue
            try:
                made.append((nm, way, duplicate(m.heap[nm], way)))
            except Exception as e:
                made.append((nm, way, e))

    def evaluator(op, args):
        def fn(s, i):
            outs.append((op, m.invoke(op, args)[0]))

        return fn

    files = ("scenario.py", "sensor.py", "ref_image.py", "utils.py") if plan["ops"] else ()
    pkg = ctx.pkg
    meet = plan.get("meet") or {}
    s = sim.Sim(
        pkg, [evaluator(*j) for j in jobs] + [copier], plan["sched"], opcode=files, first=plan["first"] % (len(jobs) + 1),
        meet=c06.place(ctx, meet, [((0, 0, op), args, [values.canon(a) for a in args]) for op, args in jobs]), visits=meet.get("visits", [0])[: len(jobs)] + [10**9],
    )
    s.then = len(jobs)
    # the copying itself is interleaved too
    s.pkg = (pkg, copy.__file__)
    s.run()
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    if s.dead:
        raise Found("progress", s.dead)
    ctx.stats["calls"] += len(outs)
    for op, st in outs:
        ctx.stats["ok" if st == "ok" else "raised"] += 1
        ctx.stats["op:" + op] += 1
    ctx.log((s.points, [o for o in outs], [(a, b) for a, b, _ in made]))
    ctx.states.add("interleaved|" + hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    overridden = any(j[0] in machine.NIIRS_OPS for j in jobs)
    at, v = plan["later"]
    taken = dict(m.expect)
    for nm, way, n in made:
        if isinstance(n, Exception):
            raise Found("copying:%s" % nm[0], "%s of %s during evaluations fails: %r" % (way, nm, n))
        ctx.stats["copies"] += 1
        o = m.heap[nm]
        c = values.canon(n)
        if isinstance(c, dict) and c["obj"] == "Scenario":
            d = machine.niirs_ok(taken[nm], c, None) if overridden else values.same(c, taken[nm], 0.0)
        else:
            d = values.same(c, taken[nm], 0.0)
        if d:
            raise Found("copy:%s" % st_kind(o), "%s of %s taken during evaluations%s" % (way, nm, d))
        if st_kind(o) != "Scenario":
            continue
        for x in (n, o, n):
            for step in (None, (at, v)):
                if step:
                    setattr(x, *step)
                cc = values.canon(x)
                want = ctx.oracle("obj.atm", [cc])
                out = m.invoke("obj.atm", [x])
                d = machine.compare(m.outcome_canon(out), want)
                if d:
                    raise Found("result:obj.atm", "the atmosphere of a %s of %s taken during evaluations%s" % (way, nm, d) if x is n else "the atmosphere of %s, copied during evaluations%s" % (nm, d))


# ------------------------------------------------------------------ campaigns


def part(plan, ctx, start, kill, path):
    """In a child: carry on from a checkpoint (or the beginning), checkpointing after every step."""
    pid = os.fork()
    if pid:
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    code = 4
    try:
        m = machine.Machine(ctx, check_oracle=False, stability=False)
        if start is None:
            m.run(plan["pre"])
            np.random.seed(4711)
            k, done = 0, []
        else:
            ck = pickle.loads(start)
            m.heap, k, done = ck["heap"], ck["next"], ck["done"]
            for nm, o in m.heap.items():
                m.expect[nm] = values.canon(o)
            np.random.set_state(ck["random"])
        steps = plan["steps"]
        while k < len(steps):
            st = steps[k]
            try:
                if st[0] == "call":
                    args = m.args(st[2], st[3])
                    if kill and kill["step"] == k:
                        cnt = ctx.oracle(st[2], [values.canon(a) for a in args], None, count=True)
                        inj = sim.Injector(ctx.pkg, dict(kill, at=sim.at(kill, cnt)))
                        with inj:
                            out = m.invoke(st[2], args)
                    else:
                        out = m.invoke(st[2], args)
                    done.append((k, m.outcome_canon(out)))
                    for nm, o in m.heap.items():
                        m.expect[nm] = values.canon(o)
                    if out[0] == "ok":
                        done[-1] += (pickle.dumps(out[1], plan["protocol"]),)
                else:
                    if kill and kill["step"] == k:
                        os._exit(77)
                    m.step(st)
            except machine.Skip:
                pass
            k += 1
            b = pickle.dumps({"heap": m.heap, "next": k, "done": done, "random": np.random.get_state()}, plan["protocol"])
            with open(path + ".part", "wb") as f:
                f.write(b)
            os.rename(path + ".part", path)
        code = 0
    except Found as e:
        with open(path + ".found", "w") as f:
            f.write("%s\n%s" % (e.cls, e.detail))
        code = 3
    except BaseException:
        import traceback

        with open(path + ".found", "w") as f:
            f.write("harness\n" + traceback.format_exc())
    os._exit(code)


def run_campaign(plan, ctx):
    path = os.path.join(ctx.base, "tmp", "campaign")
    try:
        ends = []
        for kills in ([], plan["kills"]):
            for p in (path, path + ".found"):
                if os.path.exists(p):
                    os.unlink(p)
            start, left = None, list(kills)
            for _ in range(len(kills) + 2):
                code = part(plan, ctx, start, left[0] if left else None, path)
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        start = f.read()
                if code == 0:
                    break
                if code == 77:
                    ctx.stats["restarts"] += 1
                    ctx.stats["fault:%s" % left[0]["kind"]] += 1
                    st = plan["steps"][left[0]["step"]] if left[0]["step"] < len(plan["steps"]) else ["-"]
                    ctx.states.add("killed|%s|%.1f" % (st[2] if st[0] == "call" else st[0], left[0]["frac"]))
                    left.pop(0)
                    continue
                text = open(path + ".found").read() if os.path.exists(path + ".found") else "exit %d" % code
                if text.startswith("harness") and start is None:
                    raise RuntimeError(text)
                raise Found("campaign", "the campaign %s: %s" % ("resumed from a checkpoint fails" if kills else "fails", text))
            if start is None:
                return
            ends.append(pickle.loads(start))
    finally:
        for p in (path, path + ".part", path + ".found"):
            if os.path.exists(p):
                os.unlink(p)
    a, b = ends
    ctx.stats["campaigns"] += 1
    ctx.stats["calls"] += len(a["done"])
    ctx.stats["ok"] += sum(x[1][0] == "ok" for x in a["done"])
    for x in a["done"]:
        ctx.stats["op:" + plan["steps"][x[0]][2]] += 1
    ctx.log([(x[0], values.digest(x[1])) for x in a["done"]])
    if len(a["done"]) != len(b["done"]):
        raise Found("campaign", "the resumed campaign has %d results instead of %d" % (len(b["done"]), len(a["done"])))
    for x, y in zip(a["done"], b["done"]):
        d = machine.compare(y[1], x[1])
        if d:
            raise Found("campaign", "step %d (%s) of the campaign resumed after a crash%s" % (x[0], plan["steps"][x[0]][2], d))
        for z in (x, y):
            if len(z) > 2:
                d = values.same(values.canon(pickle.loads(z[2])), z[1][1], 0.0)
                if d:
                    raise Found("campaign", "the saved result of step %d (%s)%s" % (z[0], plan["steps"][z[0]][2], d))
    for nm in a["heap"]:
        d = values.same(values.canon(b["heap"][nm]), values.canon(a["heap"][nm]), 0.0)
        if d:
            raise Found("campaign", "%s after the resumed campaign%s" % (nm, d))
    if a["random"][1].tobytes() != b["random"][1].tobytes() or a["random"][2:] != b["random"][2:]:
        raise Found("campaign", "the random state after the resumed campaign differs")
