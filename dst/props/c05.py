"""C05: results do not depend on history; arguments and earlier results stay intact."""
from .. import machine, ops

RULE = (
    "One run = one process history of 10-30 calls of the public functions on shared and separate objects, drawn from the seed, with near-repeats "
    "(one argument, attribute or array element changed), in-place edits, object replacement, overwritten results and application random draws in between; "
    "each call is compared with the same call in a freshly imported process. Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
TIERS = {"quick": {"runs": 720, "seconds": 150, "need": 60}, "thorough": {"runs": 40000, "seconds": 600, "need": 60}}
ALLOPS = sorted(ops.OPS)


PAIRS = {
    "sensor": [("s_x", "s_y"), ("da_x", "da_y"), ("w_x", "w_y"), ("p_x", "p_y"), ("D", "f"), ("cold_filter_temperature", "cold_shield_temperature"), ("L_x", "L_y"), ("read_noise", "dark_current")],
    "scen": [("target_reflectance", "background_reflectance"), ("target_temperature", "background_temperature"), ("altitude", "ground_range")],
}


def twins(rng, b, focus):
    """Calls whose arguments hold the same values in other places: same sums, extremes, sets and sizes."""
    roles = ops.OPS[focus]
    args = []
    for role in roles:
        if role[0] == "sensor":
            d = ops.draw_sensor(rng)
            d.setdefault("kern", ops.draw_arr(rng, "kern", 3)["p"])
            d.setdefault("qe", ops.draw(rng, 0.3, 0.9))
            d["a"].update(p_y=d["a"]["p_x"] * 1.25, w_x=d["a"]["p_x"], w_y=d["a"]["p_x"] * 1.25)
            args.append({"o": b.new(d)})
        elif role[0] == "a":
            d = ops.draw_arr(rng, role[1], b.sz[role[2]])
            args.append({"o": b.new(d)})
        else:
            args.append(b.arg(role, None))
    b.call(focus, args)
    args = b.calls[-1][2]
    scalars = [k for k, r in enumerate(roles) if r[0] == "s"]
    places = [k for k, r in enumerate(roles) if r[0] in ("a", "sensor", "scen", "ref")] + scalars[:1]
    rng.shuffle(places)
    for k in places[: 3 if focus in ops.HEAVY else 6]:
        kind = roles[k][0]
        if kind == "s":
            if len(scalars) < 2:
                continue
            x, y = rng.sample(scalars, 2)
            other = list(args)
            other[x], other[y] = other[y], other[x]
            b.call(focus, other)
            b.call(focus, args)
            for _ in range(6):
                b.near_repeat()
            continue
        if kind == "a":
            st = ["mix", args[k]["o"], None, rng.choice(["swap", "swap", "rev", "roll", "T"])]
        elif kind == "sensor" and rng.random() < 0.6:
            st = ["mix", args[k]["o"], rng.choice(["filter_kernel", "filter_kernel", "qe", "optics_transmission"]), rng.choice(["swap", "swap", "rev", "roll", "T"])]
        elif kind == "ref":
            st = ["mix", args[k]["o"], "img", rng.choice(["swap", "rev", "roll"])]
        else:
            st = ["swapattr", args[k]["o"]] + list(rng.choice(PAIRS[kind]))
            if st[2] == "altitude" and rng.random() < 0.7:
                st[2:] = ["target_reflectance", "background_reflectance"]
        b.steps.append(st)
        b.call(focus, args)
        if rng.random() < 0.5:
            b.steps.append(list(st))
            b.call(focus, args)
    return {"steps": b.steps, "grid": 61}


def gen(rng, i, tier):
    b = ops.Builder(rng)
    if (i % len(ALLOPS) + i // len(ALLOPS)) % 3 == 0 and any(r[0] in ("a", "s", "sensor", "scen", "ref") for r in ops.OPS[ALLOPS[i % len(ALLOPS)]]):
        return twins(rng, b, ALLOPS[i % len(ALLOPS)])
    focus = ALLOPS[i % len(ALLOPS)]
    fam = rng.choice(list(ops.FAMILIES.values()))
    others = [o for o in fam if o not in ops.HEAVY] or fam
    n = rng.randrange(8, 16) if focus in ops.HEAVY else rng.randrange(14, 28)
    b.call(focus)
    if focus not in ops.HEAVY and rng.random() < 0.12:
        # more distinct arguments than a small memory holds, then the first ones again
        for _ in range(rng.choice([20, 40])):
            b.near_repeat(b.calls[0] if rng.random() < 0.5 else None)
        for c in b.calls[:4] + [rng.choice(b.calls)]:
            b.call(c[1], c[2])
        n = 4
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            mine = [c for c in b.calls if c[1] == focus]
            b.near_repeat(rng.choice(mine))
        elif k < 0.6:
            b.near_repeat()
        elif k < 0.68:
            c = rng.choice(b.calls)
            b.call(c[1], c[2])
        elif k < 0.78:
            b.call(rng.choice(others) if rng.random() < 0.6 else rng.choice(ALLOPS))
        elif k < 0.86:
            c = rng.choice(b.calls)
            b.steps.append(["scribble", c[0], rng.random() < 0.5])
            if rng.random() < 0.7:
                b.call(c[1], c[2])
        elif k < 0.92 and b.desc:
            nm = rng.choice(list(b.desc))
            b.set_attr(nm)
        elif k < 0.95:
            b.steps.append(rng.choice([["draw", 3], ["seed", rng.randrange(1000)]]))
        elif k < 0.97:
            b.steps.append(["forget", rng.choice(b.calls)[0]])
        else:
            b.steps.append(["stable"])
    if focus == "simulation.simulate_image" and rng.random() < 0.04:
        # as in the code, which takes seconds a call
        calls = [k for k, st in enumerate(b.steps) if st[0] == "call"]
        return {"steps": b.steps[: calls[min(3, len(calls) - 1)] + 1], "grid": None}
    return {"steps": b.steps, "grid": 61}


def run(plan, ctx):
    m = machine.Machine(ctx)
    for i, st in enumerate(plan["steps"]):
        ctx.where = i
        ctx.tick()
        try:
            if st[0] == "stable":
                m.check_results()
            else:
                m.step(st)
        except machine.Skip:
            ctx.stats["skipped"] += 1
    m.check_results()
