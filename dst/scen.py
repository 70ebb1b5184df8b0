"""Scenario parameters: values worth trying, and faults on loads."""
import numpy as np

from . import dbmodel, disk, ops, sim

GALT = [1000, 2000, 3000, 5000, 8000, 12000]
GRNG = [0, 100, 500, 1000, 2000, 3000, 5000, 8000, 10000]


def typed(rng, v):
    """The same number as int, float or NumPy scalar (a plan descriptor)."""
    k = rng.random()
    if isinstance(v, int) or float(v).is_integer():
        if k < 0.35:
            return int(v)
        if k < 0.6:
            return float(v)
        return {"np": [rng.choice(["float64", "int64", "float32", "int32"]), float(v)]}
    return float(v) if k < 0.8 else {"np": ["float64", float(v)]}


def alt(rng, interp, prev=None):
    if prev is not None and rng.random() < 0.25:
        p = float(ops.num(prev))
        p = 1000.0 if p != p else p
        return typed(rng, rng.choice([p, p + 1, p + 0.5, p - 0.5, p * 1.001, round(p)]) if interp else rng.choice([p, p, p + 1e-6, p + 1]))
    if rng.random() < 0.07:
        return rng.choice([1.0, -5.0, 30000, 24500, 1234.5, float("nan"), 0])
    if interp and rng.random() < 0.6:
        return float("%.2f" % rng.choice([rng.uniform(1000, 20000), rng.uniform(75, 1000), rng.uniform(2, 75)]))
    return typed(rng, rng.choice(GALT) if rng.random() < 0.75 else rng.choice([2, 75, 150, 225, 500, 4000, 6000, 7000, 9000, 14000, 20000, 24500]))


def grange(rng, interp, prev=None):
    if prev is not None and rng.random() < 0.2:
        p = float(ops.num(prev))
        p = 1000.0 if p != p else p
        return typed(rng, rng.choice([p, p + 1, p + 0.5]) if interp else rng.choice([p, p + 1e-6]))
    if rng.random() < 0.07:
        return rng.choice([-1.0, 301001.0, 50, -0.0, 777])
    if interp and rng.random() < 0.6:
        return float("%.2f" % rng.choice([rng.uniform(0, 100), rng.uniform(100, 20000), rng.uniform(2e4, 8e4), rng.uniform(8e4, 3e5)]))
    return typed(rng, rng.choice(GRNG) if rng.random() < 0.75 else rng.choice([4000, 15000, 20000, 22000, 60000, 80000, 100000, 300000]))


def haze(rng):
    return typed(rng, rng.choice([1, 2])) if rng.random() < 0.95 else rng.choice([0, 3, 1.5])


def val(x):
    v = ops.num(x)
    return v.item() if isinstance(v, np.generic) else v


def load_fault(rng):
    k = rng.random()
    if k < 0.45:
        return {"kind": "site", "exc": rng.choice(["MemoryError", "KeyboardInterrupt"]), "frac": rng.random()}
    if k < 0.75:
        return {"kind": "open", "err": rng.choice(["EIO", "EMFILE", "EACCES", "ENOMEM"]), "frac": rng.random()}
    which, how = damage_kind(rng)
    return {"kind": "swap", "frac": rng.random(), "file": which, "how": how, "p": rng.random()}


def damage_kind(rng):
    return ("csv", rng.choice(disk.CSV_FAULTS)) if rng.random() < 0.25 else ("bin", rng.choice(disk.BIN_FAULTS))


class Faulty:
    """Runs one load with a fault planned as a fraction of its failure sites."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.opens = self.sites = None

    def run(self, fn, fault, counts, idx):
        """fn() under the fault. counts: (sites, opens) of an undisturbed load; idx: files it needs."""
        ctx = self.ctx
        f = dict(fault)
        frac = f.pop("frac")
        if f["kind"] in ("site", "kill"):
            f["at"] = 1 + int(frac * max(1, counts[0]))
        else:
            f["at"] = 1 + int(frac * max(1, counts[1]))
        if f["kind"] == "swap":
            name = "fileDecoder.csv" if f["file"] == "csv" or not idx else "%d.bin" % idx[int(f["p"] * len(idx)) % len(idx)]
            how = f["how"]
            f = {"kind": "hook", "at": f["at"], "fn": lambda: disk.damage(ctx.base, name, how, fault["p"])}
        inj = sim.Injector(ctx.pkg, f)
        with inj:
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("exc", e)
            except KeyboardInterrupt as e:
                out = ("exc", e)
        if inj.fired:
            ctx.stats["fault:%s" % (fault["kind"] + (" " + (fault.get("exc") or fault.get("err") or ("%s %s" % (fault.get("file"), fault.get("how"))))))] += 1
        return out, inj
