"""C14: separately created objects never share state."""
import numpy as np

from .. import machine, ops, values
from ..machine import Found

RULE = (
    "One run = 12-24 steps drawn from the seed: sensors, scenarios, reference images and results of every function are created (with and without default values, from shared and separate arrays, estimated from images, "
    "by successive calls), one attribute or array element of one of them is changed at a time, and after every step every other object and result held must have kept its values; calls are compared with a fresh process. "
    "Non-trivial: at least one change was made; distinct: by digest of all outcomes and changes."
)
MEASURE = "distinct (kind of thing changed, attribute changed) pairs"
TIERS = {"quick": {"runs": 800, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["changes", "array changes"]
ALLOPS = sorted(ops.OPS)
MAKERS = ["obj.estimate", "obj.refimage", "obj.sensor", "obj.scenario", "obj.atm", "metrics.niirs", "metrics.niirs5", "obj.scenario", "obj.sensor", "obj.refimage"]
RESULTY = ["otf.common_OTFs", "radiance.photon_detector_SNR", "radiance.reflectance_to_photoelectrons", "simulation.simulate_image", "utils.load_database_atmosphere_no_interp"]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": 5})
    units = []
    focus = ALLOPS[(i // 3) % len(ALLOPS)] if i % 3 == 0 else rng.choice(MAKERS + RESULTY)
    for kind in rng.sample(["sensor", "scen", "ref"], rng.randrange(1, 4)):
        for _ in range(rng.choice([1, 2])):
            units.append(new(b, rng, kind))
    units.append(b.call(focus))
    twice = [rng.choice([o for o in ALLOPS if o not in ops.HEAVY]), ALLOPS[(i * 2 + 1) % len(ALLOPS)]] + ([focus] if rng.random() < 0.4 else [])
    heavy = sum(o in ops.HEAVY for o in twice)
    for op in twice:
        # the same call twice, with nothing changed in between: equal results, each its own
        units.append(b.call(op))
        units.append(b.call(op, b.calls[-1][2]))
        if rng.random() < 0.5:
            b.steps.append(["mut", None, rng.random(), rng.random(), "edit"])
    for _ in range(rng.randrange(10, 20)):
        k = rng.random()
        if k < 0.45 and units:
            b.steps.append(["mut", rng.choice(units[-4:] if rng.random() < 0.6 else units), rng.random(), rng.random(), rng.choice(["edit", "edit", "fill", "attr"])])
        elif k < 0.6:
            op = focus
            if op in ops.HEAVY:
                heavy += 1
                if heavy > 4:
                    continue
            mine = [c for c in b.calls if c[1] == focus]
            units.append(b.call(focus, rng.choice(mine)[2]) if rng.random() < 0.5 else b.call(focus))
        elif k < 0.8:
            op = rng.choice(MAKERS if rng.random() < 0.7 else RESULTY)
            if op in ops.HEAVY:
                heavy += 1
                if heavy > 4:
                    op = "obj.estimate"
            units.append(b.call(op))
        elif k < 0.88:
            units.append(b.call(rng.choice([o for o in ALLOPS if o not in ops.HEAVY])))
        else:
            units.append(new(b, rng, rng.choice(["sensor", "scen", "ref"])))
    for _ in range(3):
        # at the end, whatever still shares memory with something else
        b.steps.append(["mut", None, rng.random(), rng.random(), "edit"])
    return {"steps": b.steps}


def new(b, rng, kind):
    """An object with few or many explicit values; some given the arrays of another."""
    if rng.random() < 0.4:
        return b.obj(kind, 1.0)
    if kind == "sensor":
        d = {"k": "sensor", "name": "cam", "band": rng.randrange(3), "a": {"D": ops.draw(rng, 0.2, 0.4), "f": ops.draw(rng, 2, 5), "p_x": 1.5e-5}}
        if rng.random() < 0.4:
            d["curve"] = ["grid", 3]
    elif kind == "scen":
        d = ops.draw_scenario(rng, interp=False)
        d["a"] = {}
    else:
        d = ops.draw_ref(rng)
        d.pop("pix", None)
        d.pop("refl", None)
    nm = b.new(d)
    if kind == "ref" and rng.random() < 0.3 and len(b.objs["ref"]) > 1:
        b.steps.append(["give", nm, b.objs["ref"][0], rng.choice(["img", "refl_values", "pix_values"])])
    if kind == "sensor" and rng.random() < 0.3 and len(b.objs["sensor"]) > 1:
        b.steps.append(["give", nm, b.objs["sensor"][0], rng.choice(["opt_trans_wavelengths", "filter_kernel", "other_noise"])])
    return nm


def leaves(x, path=(), depth=0):
    """(path, value) of everything a caller can change in an object or result."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            yield path, x
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,), depth + 1)
    elif values.is_obj(x) and depth < 4:
        for n in values.obj_attrs(x):
            if n in ("sensor", "scenario", "atm") and type(x).__name__ == "Metrics":
                continue
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            if isinstance(v, np.ndarray) or values.is_obj(v):
                yield from leaves(v, path + (n,), depth + 1)
            if isinstance(v, (np.ndarray, int, float, np.generic, str)):
                yield path + (n, "="), v


class M(machine.Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.drop = ()
        self.shared = []  # arrays the caller gave to several objects

    def touched(self, arr):
        pass

    def unit(self, nm):
        if nm in self.res:
            return self.res[nm]
        return self.get(nm)

    def snapshot(self, x):
        return values.canon(x, ("sensor", "scenario") if not isinstance(x, tuple) else ())

    def everything(self):
        for nm, o in self.heap.items():
            if o is not None:
                yield nm, o, self.expect
        for nm, r in self.res.items():
            if nm in self.snap:
                yield nm, r, self.snap

    def others(self, nm, what, arr=None):
        for o, v, exp in self.everything():
            if o == nm:
                continue
            now = self.snapshot(v)
            d = values.same(now, exp[o], 0.0)
            if not d:
                continue
            if arr is not None and self.given_both(nm, o, arr):
                exp[o] = now
                continue
            raise Found("shared:%s" % kind_of(self.unit(nm), self.info.get(nm)), "%s changed %s (%s)%s" % (what, o, kind_of(v, self.info.get(o)), d))

    def given_both(self, a, b, arr):
        """Did the caller give both the array being written?"""
        for names, x in self.shared:
            if a in names and b in names and np.may_share_memory(x, arr):
                return True
        # an array of the caller's own, passed to whatever holds it
        for nm, o in self.heap.items():
            if isinstance(o, np.ndarray) and np.may_share_memory(o, arr):
                if all(x == nm or nm in self.args_of(x) for x in (a, b)):
                    return True
        return False

    def args_of(self, nm):
        if nm not in self.info:
            return ()
        return [d["o"] for d in self.info[nm][1] if isinstance(d, dict) and "o" in d]

    def step(self, st):
        if st[0] == "mut":
            self.mutate(*st[1:])
        elif st[0] == "give":
            _, new, old, at = st
            o, n = self.get(old), self.get(new)
            setattr(n, at, getattr(o, at))
            for names, x in self.shared:
                if x is getattr(o, at):
                    names.update((new, old))
                    break
            else:
                self.shared.append(({new, old}, getattr(o, at)))
            self.expect[new] = values.canon(n)
            self.others(new, "setting %s.%s" % (new, at))
        else:
            super().step(st)
            if st[0] == "call" and st[1] in self.res:
                self.snap[st[1]] = self.snapshot(self.res[st[1]])
                self.others(st[1], "calling %s" % st[2]) if st[2] not in machine.NIIRS_OPS else None
            elif st[0] == "new":
                self.others(st[1], "creating %s" % st[1])
            elif st[0] == "set":
                self.others(st[1], "setting %s.%s" % (st[1], st[2]))

    def suspect(self, which):
        """Something whose memory another thing holds too, if there is such a thing."""
        every = [(nm, o) for nm, o, _ in self.everything()]
        have = [(nm, [a for _, a in leaves(o) if isinstance(a, np.ndarray)]) for nm, o in every]
        out = [
            x for x, xs in have for y, ys in have
            if x != y and any(np.may_share_memory(p, q) and not self.given_both(x, y, p) for p in xs for q in ys)
        ]
        if not out:
            raise machine.Skip
        return out[int(which * len(out)) % len(out)]

    def mutate(self, nm, which, where, how):
        if nm is None:
            nm, where = self.suspect(which), 0.0
        x = self.unit(nm)
        if nm in self.info and self.info[nm][0] == "obj.atm":
            return self.mutate_atm(nm, where)
        ls = list(leaves(x))
        if how == "attr":
            ls = [p for p in ls if p[0][-1:] == ("=",)]
        else:
            ls = [p for p in ls if p[0][-1:] != ("=",)] or ls
        if not ls:
            raise machine.Skip
        path, v = ls[int(which * len(ls)) % len(ls)]
        if path[-1:] != ("=",) and where < 0.8:
            # rather one whose memory another thing holds too, if there is any
            hot = [p for p in ls if any(o != nm and not self.given_both(nm, o, p[1]) and np.may_share_memory(p[1], y) for o, u, _ in self.everything() for y in machine.arrays_in(u))]
            if hot:
                path, v = hot[int(which * len(hot)) % len(hot)]
        self.st["changes"] += 1
        label = kind_of(x, self.info.get(nm))
        self.ctx.log((nm, [str(p) for p in path], how))
        self.ctx.states.add("%s|%s" % (label, ".".join(str(p) for p in path)))
        if path[-1:] == ("=",):
            t = x
            for p in path[:-2]:
                t = t[p] if isinstance(p, int) else getattr(t, p)
            old = getattr(t, path[-2])
            setattr(t, path[-2], changed(path[-2], old, where))
            arr = None
        else:
            arr = v
            self.st["array changes"] += 1
            if how == "fill":
                arr[...] = arr * 0 + 3
            else:
                self.edit(arr, where, 1.25)
        exp = self.snap if nm in self.res else self.expect
        exp[nm] = self.snapshot(x)
        self.others(nm, "changing %s of %s (%s)" % (".".join(str(p) for p in path), nm, label), arr)

    def mutate_atm(self, nm, where):
        """Writing to the atmosphere a scenario handed out: that scenario's own, nobody else's."""
        owner = self.args_of(nm)
        arr = self.res[nm]
        if not arr.flags.writeable:
            raise machine.Skip
        self.st["changes"] += 1
        self.st["array changes"] += 1
        self.ctx.log((nm, "atm"))
        self.ctx.states.add("atm")
        self.edit(arr, where, 1.25)
        for k in [k for k in self.res if set(self.args_of(k)) & set(owner)] + owner:
            self.snap.pop(k, None)
            self.res.pop(k, None)
            self.heap.pop(k, None)
            self.expect.pop(k, None)
        for o, v, exp in self.everything():
            d = values.same(self.snapshot(v), exp[o], 0.0)
            if d:
                raise Found("shared:atm", "writing to the atmosphere of %s changed %s%s" % (owner, o, d))


def changed(at, v, where):
    if isinstance(v, str):
        return v + "x"
    if at == "ihaze":
        return 3 - int(v)
    if at == "altitude":
        return ops.ALTS[5 + int(where * 14)]
    if at == "ground_range":
        return ops.RNGS[int(where * 10)]
    if isinstance(v, np.ndarray):
        return v * 1.5
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return v + 1
    return v * 1.25 + (0.01 if v == 0 else 0)


def kind_of(x, info=None):
    return info[0] if info else type(x).__name__


def run(plan, ctx):
    m = M(ctx)
    m.run(plan["steps"])
