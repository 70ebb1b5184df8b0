"""C02: changing a shared scenario under concurrent readers never leaves it stale."""
import copy
import hashlib
import itertools

import numpy as np

from .. import dbmodel, machine, ops, scen, sched, sim
from ..machine import Found

RULE = (
    "One run = one simulated interleaving, decided per bytecode instruction of the scenario's accessors and per line of the loader, of 1-3 reader threads with one "
    "thread changing parameters, starting from an empty, filled or stale cache, with disk faults in some reads; the recorded history is checked against per-parameter "
    "regular registers over a model of the database, then the scenario is read again alone. Non-trivial: at least one read succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct sequences of thread switches, by the instructions they happened at"
TIERS = {"quick": {"runs": 5000, "seconds": 150, "need": 60}, "thorough": {"runs": 200000, "seconds": 600, "need": 60}}
REQUIRED = ["switches"]


def gen(rng, i, tier):
    interp = rng.random() < 0.25
    g = lambda at: {"altitude": lambda: scen.alt(rng, interp), "ground_range": lambda: scen.grange(rng, interp), "ihaze": lambda: scen.haze(rng)}[at]()  # noqa: E731

    def clean(at):
        while True:
            v = g(at)
            x = scen.val(v)
            if at == "altitude" and not (x == x and (1000 <= x <= 12000) or rng.random() < 0.02):
                continue
            if at == "ground_range" and not (0 <= x <= 10000 or rng.random() < 0.02):
                continue
            return v

    d = {"k": "scen", "name": "a", "a": {}, "interp": interp, "altitude": clean("altitude"), "ground_range": clean("ground_range"), "ihaze": scen.haze(rng)}
    pre = rng.choice([[], [["read"]], [["read"]], [["read"], ["set", "altitude", clean("altitude")]]])
    w = []
    for _ in range(rng.randrange(1, 4)):
        at = rng.choice(["altitude", "ground_range", "ihaze"])
        w.append(["set", at, clean(at)])
        if rng.random() < 0.25:
            w.append(["read"])
    if rng.random() < 0.3 and len(w) > 1:  # there and back again
        w.append(["set", w[0][1], d[w[0][1]]])
    readers = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = []
        for _ in range(rng.randrange(1, 4)):
            r.append(["read", scen.load_fault(rng) if rng.random() < 0.06 else None])
            if r[-1][1] and r[-1][1]["kind"] == "swap":
                r[-1][1] = None
        readers.append(r)
    threads = [w] + readers
    return {"scen": d, "pre": pre, "threads": threads, "first": rng.randrange(len(threads)), "sched": sched.draw(rng, len(threads), rng.choice([40, 150, 600])), "final": rng.choice([1, 2])}


def run(plan, ctx):
    db = ctx.db
    sc = ops.make(plan["scen"])
    interp = plan["scen"]["interp"]
    clock = itertools.count(1)
    # per parameter: [value, in force from, until]
    regs = {at: [[scen.val(plan["scen"][at]), 0, None]] for at in ("altitude", "ground_range", "ihaze")}
    reads = []

    def do_set(at, v):
        t = next(clock)
        entry = [scen.val(v), t, None]
        cur = regs[at][-1]
        regs[at].append(entry)
        setattr(sc, at, ops.num(v))
        cur[2] = next(clock)

    def do_read(who, faulted=None):
        t0 = next(clock)
        ctx.stats["calls"] += 1
        try:
            out = ("ok", sc.atm)
        except (Exception, KeyboardInterrupt) as e:
            out = ("exc", e)
        reads.append((who, t0, next(clock), out, faulted() if faulted else None))
        ctx.stats["ok" if out[0] == "ok" else "raised"] += 1

    for st in plan["pre"]:
        if st[0] == "set":
            do_set(st[1], st[2])
        else:
            do_read("before")

    inj = {}

    def body(steps):
        def fn(s, i):
            for st in steps:
                if st[0] == "set":
                    do_set(st[1], st[2])
                else:
                    f = st[1] if len(st) > 1 else None
                    if f:
                        n = {"site": 14, "open": 2}[f["kind"]] * (4 if interp else 1)
                        inj[i] = sim.Injector(ctx.pkg, dict(f, at=1 + int(f["frac"] * n)))
                    do_read(i, (lambda: inj[i].fired) if f else None)
                    if f:
                        if inj[i].fired:
                            ctx.stats["fault:" + f["kind"] + " " + (f.get("exc") or f.get("err"))] += 1
                            s.rearm(i)
                        del inj[i]

        return fn

    s = sim.Sim(ctx.pkg, [body(t) for t in plan["threads"]], plan["sched"], opcode=("scenario.py",), injectors=inj, first=plan["first"])
    s.run()
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    if s.switches:
        ctx.stats["runs with switches"] += 1
    ctx.states.add(hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    if s.dead:
        raise Found("progress", s.dead)
    for _ in range(plan["final"]):
        do_read("after")
    sc2 = copy.deepcopy(sc)
    sc, keep = sc2, sc
    do_read("after, deep copy")
    sc = keep
    for who, t0, t1, out, faulted in reads:
        cands = {at: [v for v, a, b in regs[at] if a < t1 and (b is None or b > t0)] for at in regs}
        combos = list(itertools.product(cands["altitude"], cands["ground_range"], cands["ihaze"]))
        wants = [db.lookup(a, g, h, interp) for a, g, h in combos]
        where = "read by %s at steps %d-%d; values in force: %s" % ("thread %s" % who if isinstance(who, int) else who, t0, t1, cands)
        ctx.log((who, out[0], type(out[1]).__name__, float(out[1][700, 3]) if isinstance(out[1], np.ndarray) else None, t0))
        if any(w[0] == "any" for w in wants):
            continue
        if out[0] == "ok":
            if out[1] is None:
                raise Found("shared:none", "Scenario.atm returned None; " + where)
            if not any(w[0] == "ok" and dbmodel.same_atm(out[1], w[1], 2e-6) for w in wants):
                cls = "shared:stale-after" if isinstance(who, str) else "shared:wrong"
                raise Found(cls, "Scenario.atm returned %s; %s" % (dbmodel.identify(db, out[1]), where))
        elif not faulted and all(w[0] == "ok" for w in wants):
            raise Found("shared:fails", "Scenario.atm raised %r; %s" % (out[1], where))
