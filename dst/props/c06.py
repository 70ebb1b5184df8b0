"""C06: concurrent evaluations give the results they give alone."""
import hashlib

import numpy as np

from .. import machine, ops, sched, sim, values
from ..machine import Found

RULE = (
    "One run = one simulated interleaving, decided per line (in some runs per bytecode instruction) of pyBSM's code and per file access, of 2-3 threads making 1-3 calls "
    "each on shared and separate objects, the same function with differing arguments in most runs, with failures injected into some calls, or (one run in five) of one call with others made "
    "inside it at drawn statements, as a signal handler or finaliser would; every result is compared with the same call alone in a fresh process. Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct sequences of thread switches, by the lines they happened at"
TIERS = {"quick": {"runs": 1800, "seconds": 150, "need": 60}, "thorough": {"runs": 80000, "seconds": 600, "need": 60}}
REQUIRED = ["switches"]
ALLOPS = sorted(ops.OPS)
LIGHT = sorted(set(ops.OPS) - ops.HEAVY)
HEAVYISH = sorted(ops.HEAVY | {"obj.atm", "otf.weighted_by_wavelength", "otf.apply_otf_to_image", "radiance.photon_detector_SNR", "radiance.signal_rate", "metrics.giqe_edge_terms", "utils.load_database_atmosphere_no_interp"})


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    focus = ALLOPS[(i // 3 * 2 + i % 3) % len(ALLOPS)] if i % 3 < 2 else rng.choice(HEAVYISH)
    shared = rng.random() < 0.6
    for k in ("sensor", "scen", "ref"):
        for _ in range(rng.choice([1, 2])):
            b.obj(k, 1.0)
    nest = rng.random() < 0.2
    nt = 2 if nest else rng.choice([2, 2, 3])
    dense = not nest and focus in LIGHT and rng.random() < 0.6
    threads, pool = [], []
    for t in range(nt):
        calls = []
        for _ in range(rng.randrange(4, 10) if dense else rng.choice([1, 1, 2]) if focus in ops.HEAVY else rng.choice([1, 2, 3])):
            mark = len(b.steps)
            op = focus if rng.random() < (0.9 if dense else 0.75) else rng.choice(LIGHT if dense else ALLOPS)
            opts = {}
            if op == focus and len(pool) >= 2 and dense:
                args = rng.choice(pool)
            elif op == focus and pool and rng.random() < 0.6:
                args = [dict(x) if isinstance(x, dict) else x for x in pool[0]]
                for j in [rng.randrange(len(args))] if rng.random() < 0.7 else range(len(args)):
                    role = ops.OPS[op][j]
                    if role[0] in ("sensor", "scen", "ref"):
                        args[j] = {"o": b.obj(role[0], 0.5)}
                    elif not shared or rng.random() < 0.7:
                        args[j] = b.arg(role, None)
            else:
                args = None
            if nest and not t and not calls:
                opts["nest"] = {"kind": "call", "frac": rng.random()}
            elif rng.random() < (0.04 if dense else 0.12):
                opts["fault"] = {"kind": rng.choice(["site", "site", "open"]), "exc": "MemoryError", "err": "EIO", "frac": rng.random()}
            b.call(op, args, **opts)
            if op == focus and len(pool) < 2:
                pool.append(b.calls[-1][2])
            # what the call needs is made beforehand; the call itself belongs to the thread
            calls.append(b.steps.pop())
            assert calls[-1][0] == "call" and mark <= len(b.steps)
        threads.append(calls)
    span = 4000 if focus in ops.HEAVY else 200 if dense else 60
    meet = None if nest else draw_meet(rng, nt, 0.45)
    schedule = sched.dense(rng) if meet else sched.draw(rng, nt, span)
    return {"steps": b.steps, "threads": threads, "first": rng.randrange(nt), "sched": schedule, "ops": rng.random() < 0.15 and focus not in ops.HEAVY, "nest": nest, "meet": meet}


def draw_meet(rng, nt, p):
    """In some runs the threads wait for each other at one line, then take turns quickly."""
    if rng.random() >= p:
        return None
    visits = [int(8 ** rng.random()) - 1 for _ in range(nt)]
    return {"frac": rng.random(), "visits": visits if rng.random() < 0.5 else [0] * nt}


ALLFILES = ("functional.py", "scenario.py", "sensor.py", "ref_image.py", "utils.py", "noise.py", "geospatial.py", "metrics.py", "otf.py")


class M(machine.Machine):
    pass


def run(plan, ctx):
    m = M(ctx, check_oracle=False, stability=False)
    m.run(plan["steps"])  # sequential preparation
    jobs = []
    for t, calls in enumerate(plan["threads"]):
        mine = []
        for st in calls:
            try:
                args = m.args(st[2], st[3])
            except machine.Skip:
                continue
            mine.append((st, args, [values.canon(a) for a in args]))
        jobs.append(mine)
    wants = {}
    for mine in jobs:
        for st, args, before in mine:
            op = st[2]
            rng = np.random.get_state() if op in ops.NOISY else None
            wants[st[1]] = ctx.oracle(op, before, rng)
            f = st[4].get("fault")
            if f:
                c = ctx.oracle(op, before, rng, count=True)
                f["at"] = sim.at(f, c)
    inj, outs = {}, {}

    def body(mine):
        def fn(s, i):
            for st, args, before in mine:
                f = st[4].get("fault")
                if f:
                    inj[i] = sim.Injector(ctx.pkg, f)
                out = m.invoke(st[2], args)
                fired = inj[i].fired if f else None
                inj.pop(i, None)
                if fired:
                    s.rearm(i)
                outs[st[1]] = (st, args, before, out, fired, values.canon(out[1], DROP) if out[0] == "ok" else type(out[1]).__name__)

        return fn

    if plan.get("nest"):
        return nested(plan, ctx, m, jobs, wants)
    meet = plan.get("meet") or {}
    s = sim.Sim(
        ctx.pkg, [body(j) for j in jobs], plan["sched"], opcode=ALLFILES if plan["ops"] else (), injectors=inj, first=plan["first"],
        meet=place(ctx, meet, [x for mine in jobs for x in mine]), visits=meet.get("visits", ()),
    )
    s.run()
    ctx.stats["points"] += s.points
    ctx.stats["switches"] += s.switches
    if s.switches:
        ctx.stats["runs with switches"] += 1
        ctx.states.add(hashlib.blake2b(repr(s.path).encode(), digest_size=8).hexdigest())
    if s.dead:
        raise Found("progress", s.dead)
    for t, calls in enumerate(plan["threads"]):
        for st in calls:
            if st[1] in outs:
                judge(m, ctx, t, outs[st[1]], wants)
    # the shared objects afterwards, and the failed calls repeated alone
    for st, args, before, out, fired, got in outs.values():
        if out[0] == "exc":
            again = m.invoke(st[2], args)
            check(ctx, st, again, values.canon(again[1], DROP) if again[0] == "ok" else type(again[1]).__name__, wants[st[1]], "afterwards, alone, ")


def place(ctx, meet, calls):
    """The line to meet at: one of those the first call runs through."""
    if not meet or not calls:
        return None
    st, args, before = calls[0]
    cnt = ctx.oracle(st[2], before, np.random.get_state() if st[2] in ops.NOISY else None, count=True)
    if not cnt[4]:
        return None
    ctx.stats["meetings"] += 1
    return cnt[4][int(meet["frac"] * len(cnt[4]))]


def nested(plan, ctx, m, jobs, wants):
    """The first call of the first thread, with the second thread's calls inside it; then the rest."""
    outs = {}

    def do(st, args, before, f=None, where=None):
        inj = where[0] if where else None
        if f:
            inj = sim.Injector(ctx.pkg, f)
            where[0] = inj
            with inj:
                out = m.invoke(st[2], args)
            ctx.stats["fault:nested call"] += bool(inj.fired)
        else:
            out = m.invoke(st[2], args)
        outs[st[1]] = (st, args, before, out, None, values.canon(out[1], DROP) if out[0] == "ok" else type(out[1]).__name__)
        return inj

    for st, args, before in jobs[0]:
        f = st[4].get("nest")
        if not f:
            do(st, args, before)
            continue
        cnt = ctx.oracle(st[2], before, np.random.get_state() if st[2] in ops.NOISY else None, count=True)
        where = [None]

        def inside():
            for x in jobs[1]:
                do(*x)

        f = dict(f, at=sim.at(f, cnt), fn=inside)
        try:
            do(st, args, before, f, where)
        except sim.Deadlock:
            return  # a lock that is not reentrant is held: nothing to judge
        if where[0].fired:
            ctx.states.add("nested at " + where[0].fired)
            ctx.stats["switches"] += 1
    for t, calls in enumerate(plan["threads"]):
        for st in calls:
            if st[1] in outs:
                judge(m, ctx, t, outs[st[1]], wants)


DROP = ("sensor", "scenario")


def check(ctx, st, out, got, want, when):
    op = st[2]
    if want[0] == "ok" and out[0] == "ok":
        w, g = want[1], got
        if op in ("metrics.niirs", "metrics.niirs5"):
            w = {"obj": w["obj"], "d": {k: v for k, v in w["d"].items() if k not in DROP}}
        if op in ops.NOISY:
            w, g = w[:4], g[:4]
        d = values.same(g, w)
    else:
        d = machine.compare((out[0], got), want)
    if d:
        raise Found("concurrent:%s" % op, "%s%s%s" % (when, op, d))


def judge(m, ctx, t, rec, wants):
    st, args, before, out, fired, got = rec
    op = st[2]
    ctx.stats["calls"] += 1
    ctx.stats["op:" + op] += 1
    ctx.stats["ok" if out[0] == "ok" else "raised"] += 1
    ctx.log((st[1], op, out[0], fired, values.digest(got[:4] if op in ops.NOISY and out[0] == "ok" else got)))
    if fired:
        f = st[4]["fault"]
        ctx.stats["fault:%s %s" % (f["kind"], f["exc"] if f["kind"] == "site" else f["err"])] += 1
        if out[0] == "exc":
            return
    check(ctx, st, out, got, wants[st[1]], "in thread %d, interleaved with others, " % t)
    for d, a, b in zip(st[3], args, before):
        now = values.canon(a)
        if isinstance(now, dict) and now.get("obj") == "Scenario":
            e = machine.niirs_ok(b, now, None)
        else:
            e = values.same(now, b, 0.0)
        if e:
            raise Found("concurrent-argument:%s" % op, "argument %s of %s was changed%s" % (machine._dname(d), op, e))
