"""C03: atmosphere loads are exact or fail, and recover once the fault is gone."""
import numpy as np

from .. import dbmodel, disk, machine, ops, scen
from ..machine import Found

RULE = (
    "One run = one history of 6-20 loads (three entry points, grid points and interpolated points) on a disk whose files go missing, get truncated, padded, "
    "replaced or unreadable before or during a load, with failing opens and interruptions, and recover; every result is compared with a model of the synthetic "
    "database in which every file differs. Non-trivial: at least one load succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (entry point, fault, outcome) combinations"
TIERS = {"quick": {"runs": 1100, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["loads refused under faults", "loads right after recovery", "loads between grid points"]


def gen(rng, i, tier):
    steps, reqs = [], []

    def req():
        if reqs and rng.random() < 0.45:
            return rng.choice(reqs)
        how = rng.choice(["grid", "interp", "interp", "atm", "atmi"])
        ii = how in ("interp", "atmi")
        if i % 3 == 0 and ii:  # systematically: every interval of both axes
            A = [2, 32.5, 75, 150, 225, 500] + [1000 * k for k in range(1, 13)] + [14000, 16000, 18000, 20000]
            G = [0, 100, 500] + [1000 * k for k in range(1, 21)] + list(range(22000, 80001, 2000)) + list(range(85000, 300001, 5000))
            x, y = (i // 3) % (len(A) - 1), rng.randrange(len(G) - 1)
            f, g = rng.choice([0, 0.25, 0.5, 0.9]), rng.choice([0, 0.3, 0.5, 0.75])
            q = [how, A[x] + f * (A[x + 1] - A[x]), G[y] + g * (G[y + 1] - G[y]), rng.choice([1, 2])]
        else:
            q = [how, scen.alt(rng, ii), scen.grange(rng, ii), scen.haze(rng)]
        reqs.append(q)
        return q

    for _ in range(rng.randrange(5, 13)):
        q = req()
        k = rng.random()
        if k < 0.35:
            steps.append(["load", q, None])
        elif k < 0.6:
            steps.append(["load", q, scen.load_fault(rng)])
            if rng.random() < 0.75:
                steps += [["heal"], ["load", q, None]]
        elif k < 0.9:
            which, how = scen.damage_kind(rng)
            steps += [["damage", q, which, how, rng.random()], ["load", q, None]]
            if rng.random() < 0.3:
                steps.append(["load", req(), None])
            if rng.random() < 0.8:
                steps += [["heal"], ["load", q, None]]
        else:
            steps += [["scribble"], ["load", q, None]]
    steps += [["heal"]] + [["load", rng.choice(reqs), None]]
    return {"steps": steps}


OPNAME = {"grid": "utils.load_database_atmosphere_no_interp", "interp": "utils.load_database_atmosphere", "atm": "obj.atm", "atmi": "obj.atm"}


def run(plan, ctx):
    db = ctx.db
    faulty = scen.Faulty(ctx)
    damaged, wasfault, last = set(), False, None
    for n, st in enumerate(plan["steps"]):
        ctx.where = n
        k = st[0]
        if k == "heal":
            disk.heal_all(ctx.base)
            damaged = set()
            continue
        if k == "scribble":
            if last is not None and last.flags.writeable:
                last[...] = -3.0
            continue
        how, alt, gr, hz = st[1]
        alt, gr, hz = ops.num(alt), ops.num(gr), ops.num(hz)
        va, vg, vh = (x.item() if isinstance(x, np.generic) else x for x in (alt, gr, hz))
        interp = how in ("interp", "atmi")
        idx = db.indices(va, vg, vh, interp) if va == va else []
        if k == "damage":
            name = "fileDecoder.csv" if st[2] == "csv" else ("%d.bin" % idx[int(st[4] * len(idx)) % len(idx)] if idx else None)
            if name:
                disk.damage(ctx.base, name, st[3], st[4])
                damaged.add(name)
                ctx.stats["fault:disk %s %s" % (st[2], st[3])] += 1
            continue
        if how.startswith("atm"):
            import pybsm.simulation as ps

            sc = ps.Scenario("x", hz, alt, gr, interp=interp)
            args, fn = None, (lambda: sc.atm)
            cargs = [machine.canon(sc)]
            cargs[0]["interp"] = interp
        else:
            f = ops.resolve(OPNAME[how])
            fn = lambda: f(alt, gr, hz)  # noqa: E731
            cargs = [machine.canon(x) for x in (alt, gr, hz)]
        fault, fired = st[2], None
        ctx.stats["calls"] += 1
        before = set(damaged)
        if fault:
            cnt = ctx.oracle(OPNAME[how], cargs, count=True)
            out, inj = faulty.run(fn, fault, cnt[1:], idx)
            fired = inj.fired
            if fired and fault["kind"] == "swap":
                damaged.add("?")
        else:
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("exc", e)
        want = db.lookup(va, vg, vh, interp)
        desc = "%s(altitude %r, ground range %r, ihaze %r)%s" % (OPNAME[how], va, vg, vh, " interp" if how == "atmi" else "")
        faults = "; damaged: %s; fault: %s" % (sorted(damaged) or "none", fired or "none")
        if out[0] == "ok":
            ctx.stats["ok"] += 1
            last = out[1] if not how.startswith("atm") else last
            if want[0] == "raise":
                raise Found("load:uncovered", desc + " returned %s although the database does not cover it%s" % (dbmodel.identify(db, out[1]), faults))
            if want[0] == "ok" and not dbmodel.same_atm(out[1], want[1], 2e-6):
                raise Found("load:wrong", desc + " returned %s instead of the stored data%s" % (dbmodel.identify(db, out[1]), faults))
            if interp and len(idx) > 1:
                ctx.stats["loads between grid points"] += 1
            if wasfault and not damaged:
                ctx.stats["loads right after recovery"] += 1
                wasfault = False
            # bins that are damaged and needed cannot have been read
            bad = [b for b in before if b in {"%d.bin" % x for x in idx}]
            if bad and want[0] == "ok":
                ctx.stats["right although damaged"] += 1
        else:
            ctx.stats["raised"] += 1
            if want[0] == "ok" and not damaged and not fired:
                raise Found("load:fails", desc + " raised %r although the database is intact and covers it" % (out[1],))
            if damaged or fired:
                ctx.stats["loads refused under faults"] += 1
                wasfault = True
        ctx.log((how, va, vg, vh, out[0], type(out[1]).__name__))
        ctx.states.add("%s/%s/%s/%s" % (how, st[2]["kind"] if st[2] else "-", "damaged" if damaged else "clean", type(out[1]).__name__))
