"""C07: noisy images replay from NumPy's random state and always draw anew."""
import pickle
import random

import numpy as np

from .. import machine, ops, values
from ..machine import Found

RULE = (
    "One run = one process history of 3-8 image simulations on 1-2 reference images, sensors and scenarios, mixed with other calls, application draws, reseeding, saved and restored "
    "random states and failures injected into simulations; each simulation is repeated from the same random state in a fresh process and, for its noise-free images, from another state. "
    "Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (random state digest, image digest) pairs"
TIERS = {"quick": {"runs": 380, "seconds": 150, "need": 60}, "thorough": {"runs": 40000, "seconds": 600, "need": 60}}
REQUIRED = ["frames", "restored", "quiet calls"]
SIM = "simulation.simulate_image"
OTHERS = [o for o in ops.OPS if o not in ops.NOISY]
LIGHT = [o for o in OTHERS if o not in ops.HEAVY]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": 5})
    args = [{"o": b.obj(k, 1.0)} for k in ("ref", "sensor", "scen")]
    if rng.random() < 0.5:
        # no read noise, or coarse quantisation: the Gaussian part all but vanishes
        b.steps.append(["set", args[1]["o"], "read_noise", rng.choice([0.0, 1e-3, 300.0])])
    triples = [args]
    if rng.random() < 0.5:
        other = [dict(a) for a in args]
        k = rng.randrange(3)
        other[k] = {"o": b.obj(("ref", "sensor", "scen")[k], 1.0)}
        triples.append(other)
    quiet = OTHERS[i % len(OTHERS)]
    n = rng.randrange(5, 10)
    b.steps.append(rng.choice([["seed", rng.randrange(5)], ["draw", 1], ["gauss"]]))
    saved = 0
    for k in range(n):
        x = rng.random()
        if x < 0.45 or k == 0:
            opts = {}
            if rng.random() < 0.12:
                opts["fault"] = {"kind": "site", "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "frac": rng.random()}
            b.call(SIM, rng.choice(triples), **opts)
            if rng.random() < 0.4:
                b.call(SIM, b.calls[-1][2])
        elif x < 0.55:
            b.steps.append(["save", saved])
            saved += 1
        elif x < 0.65 and saved:
            b.steps.append(["restore", rng.randrange(saved)])
            b.call(SIM, rng.choice(triples))
        elif x < 0.72:
            b.steps.append(["seed", rng.choice([0, 1, 2, 2**32 - 1, [1, 2, 3]])])
        elif x < 0.78:
            b.steps.append(rng.choice([["draw", 1], ["draw", 5], ["gauss"], ["pyseed", rng.randrange(3)]]))
        elif x < 0.82:
            b.set_attr(rng.choice(rng.choice(triples))["o"])
        elif x < 0.85:
            b.new(getattr(ops, rng.choice(["draw_ref", "draw_ref", "draw_sensor", "draw_scenario"]))(rng))
        else:
            b.call(quiet if rng.random() < 0.6 else rng.choice(LIGHT))
    return {"steps": b.steps}


def run(plan, ctx):
    m = M(ctx, stability=False)
    for i, st in enumerate(plan["steps"]):
        ctx.where = i
        ctx.tick()
        try:
            m.step(st)
        except machine.Skip:
            ctx.stats["skipped"] += 1


def plain(st):
    return (st[0], st[1].tobytes(), st[2:])


class M(machine.Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.saved = {}
        self.frames = []  # (inputs digest, state before, noise)

    def step(self, st):
        if st[0] == "save":
            self.saved[st[1]] = np.random.get_state()
        elif st[0] == "restore":
            if st[1] not in self.saved:
                raise machine.Skip
            np.random.set_state(self.saved[st[1]])
            self.st["restored"] += 1
        elif st[0] == "gauss":
            np.random.standard_normal()  # leaves a cached second normal deviate
        elif st[0] == "pyseed":
            random.seed(st[1])
        elif st[0] in ("new", "set", "scale", "setarr"):
            rng, py = np.random.get_state(), random.getstate()
            super().step(st)
            if plain(np.random.get_state()) != plain(rng) or random.getstate() != py:
                raise Found("state:%s" % st[0], "creating or setting %s changed the state of a global generator" % st[1])
        else:
            super().step(st)

    def call(self, st):
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        before = [values.canon(a) for a in args]
        rng, py = np.random.get_state(), random.getstate()
        gen = (id(np.random.mtrand._rand), id(np.random.mtrand._rand._bit_generator))
        f = opts.get("fault")
        if f:
            from .. import sim

            cnt = self.ctx.oracle(op, before, rng, count=True)
            inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
            with inj:
                out = self.invoke(op, args)
            if inj.fired:
                self.st["fault:site " + f["exc"]] += 1
                self.ctx.log((cid, op, "failed", inj.fired))
                if out[0] == "exc":
                    return
        else:
            out = self.invoke(op, args)
        after = np.random.get_state()
        if random.getstate() != py:
            raise Found("python-random:%s" % op, "%s changed the state of Python's random module" % op)
        if gen != (id(np.random.mtrand._rand), id(np.random.mtrand._rand._bit_generator)):
            raise Found("generator:%s" % op, "%s replaced NumPy's global generator" % op)
        moved = plain(after) != plain(rng)
        if op not in ops.NOISY:
            if moved:
                raise Found("state:%s" % op, "%s changed the state of NumPy's global generator" % op)
            self.st["quiet calls"] += 1
            self.finish(st, args, before, None, out)
            return
        self.finish(st, args, before, rng, out)
        if out[0] != "ok":
            return
        want = self.ctx.oracle(op, before, rng)
        if plain(want[2]) != plain(after):
            raise Found("stream:%s" % op, "%s left the random state elsewhere than the same call from the same state in a fresh process: the next frames differ" % op)
        if not moved:
            raise Found("frozen:%s" % op, "%s did not advance the random state: the next frame repeats the noise" % op)
        true, blur, noisy = out[1][:3]
        alt = np.random.RandomState(77).get_state()
        other = self.ctx.oracle(op, before, alt)
        got = values.canon(out[1])
        if other[0] != "ok":
            raise Found("random-failure:%s" % op, "%s returned here but raises %s from another random state" % (op, other[1]))
        d = values.same(list(got[2:4]), list(other[1][2:4]), 1e-12)
        if d:
            raise Found("noise-free:%s" % op, "the noise-free images depend on the random state%s" % d)
        self.st["frames"] += 1
        noise = np.asarray(noisy) - np.asarray(blur)
        key = values.digest(before)
        me = values.digest(plain(rng))
        self.ctx.states.add("%s|%s" % (me[:12], values.digest(got)[:12]))
        if noise.size >= 16:
            for k, s, n in self.frames + [(key, None, np.asarray(other[1][4]) - np.asarray(other[1][3]))]:
                if n.shape != noise.shape or s == me:
                    continue
                if k == key and np.array_equal(n, noise):
                    raise Found("repeat:%s" % op, "two frames from different random states carry the same noise")
                if noise.size >= 100 and noise.std() > 0 and n.std() > 0:
                    c = abs(np.corrcoef(noise.ravel(), n.ravel())[0, 1]) * noise.size**0.5
                    if c > 12:
                        raise Found("related:%s" % op, "the noise of two frames from different random states is correlated (%.0f standard deviations)" % c)
            self.frames.append((key, me, noise))
