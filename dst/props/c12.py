"""C12: without OpenCV everything but image filtering works, and that fails cleanly."""
import importlib
import importlib.abc
import sys

import numpy as np

from .. import machine, ops, sim, values
from ..machine import Found

RULE = (
    "One run = pyBSM imported anew on a machine whose OpenCV is absent or fails to import in one of six ways, then 8-14 calls drawn from the seed (image filtering, image simulation and everything else, some failing "
    "for other reasons), each compared with the same call with OpenCV, or with a clean ImportError; then OpenCV is put back and a new import repeats the filtering calls. "
    "Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (way of failing, function, outcome) triples"
TIERS = {"quick": {"runs": 420, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["refused", "restored calls"]
ALLOPS = sorted(ops.OPS)
NEEDS = sorted(ops.NEEDS_CV)
WAYS = ["absent", "library", "none", "circular", "attribute", "partway"]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    heavy = 0
    for k in range(rng.randrange(8, 14)):
        if k % 3 == 1:
            op = NEEDS[(i + k) % len(NEEDS)]
        elif k % 3 == 2:
            op = rng.choice(ALLOPS)
        else:
            op = ALLOPS[(i * 4 + k) % len(ALLOPS)]
        if op in ops.HEAVY and op not in ops.NEEDS_CV:
            heavy += 1
            if heavy > 2:
                op = rng.choice([o for o in ALLOPS if o not in ops.HEAVY])
        opts = {}
        if rng.random() < 0.1:
            opts["fault"] = {"kind": "site", "exc": "MemoryError", "frac": rng.random()}
        b.call(op, **opts)
        if rng.random() < 0.15:
            b.steps.append(rng.choice([["draw", 2], ["seed", rng.randrange(100)]]))
        if rng.random() < 0.2:
            b.call(b.calls[-1][1], b.calls[-1][2])
    return {"steps": b.steps, "way": WAYS[i % len(WAYS)], "again": rng.random() < 0.5}


class Blocked(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, way):
        self.way, self.asked = way, 0

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "cv2":
            return None
        self.asked += 1
        if self.way == "absent":
            raise ModuleNotFoundError("No module named 'cv2'", name="cv2")
        from importlib.machinery import ModuleSpec

        return ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.way == "library":
            raise ImportError("libGL.so.1: cannot open shared object file: No such file or directory")
        if self.way == "circular":
            raise ImportError("cannot import name '_registerMatType' from partially initialized module 'cv2' (most likely due to a circular import)")
        if self.way == "attribute":
            raise ImportError("numpy.core.multiarray failed to import")
        module.resize = lambda *a, **k: a[0]  # got this far before the failure
        raise ImportError("DLL load failed while importing cv2")


def purge(*tops):
    for n in list(sys.modules):
        if n.split(".")[0] in tops:
            del sys.modules[n]


def imports():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in ("pybsm", "pybsm.otf", "pybsm.radiance", "pybsm.metrics", "pybsm.simulation", "pybsm.utils", "pybsm.noise", "pybsm.geospatial"):
            importlib.import_module(m)


class M(machine.Machine):
    way = None

    def call(self, st):
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        if op not in ops.NEEDS_CV or not self.way:
            f = opts.get("fault")
            if f:
                before = [values.canon(a) for a in args]
                cnt = self.ctx.oracle(op, before, None, count=True)
                inj = sim.Injector(self.ctx.pkg, dict(f, at=sim.at(f, cnt)))
                with inj:
                    self.invoke(op, args)
                if inj.fired:
                    self.st["fault:site MemoryError"] += 1
            super().call(st)
            if self.way:
                self.ctx.states.add("%s|%s|works" % (self.way, op))
            else:
                self.st["restored calls"] += 1
            return
        before = [values.canon(a) for a in args]
        rng = np.random.get_state()
        want = self.ctx.oracle(op, before, rng if op in ops.NOISY else None)
        out = self.invoke(op, args)
        self.st["calls"] += 1
        self.st["op:" + op] += 1
        got = out[0] if out[0] == "ok" else type(out[1]).__name__
        self.ctx.log((cid, op, got))
        self.ctx.states.add("%s|%s|%s" % (self.way, op, got))
        if out[0] == "ok":
            raise Found("unfiltered:%s" % op, "%s returned without OpenCV" % op)
        if not isinstance(out[1], ImportError):
            if want[0] == "exc" and want[1] == got:
                return  # wrong arguments: refused for that reason first
            raise Found("refusal:%s" % op, "%s raised %r without OpenCV, not ImportError" % (op, out[1]))
        self.st["refused"] += 1
        self.check_args(op, dargs, args, before, False)
        now = np.random.get_state()
        if now[1].tobytes() != rng[1].tobytes() or now[2:] != rng[2:]:
            raise Found("random:%s" % op, "%s raised ImportError but moved the random state" % op)


def run(plan, ctx):
    stash = {n: mod for n, mod in sys.modules.items() if n.split(".")[0] == "cv2"}
    purge("cv2", "pybsm")
    block = Blocked(plan["way"])
    if plan["way"] == "none":
        sys.modules["cv2"] = None
    else:
        sys.meta_path.insert(0, block)
    ctx.stats["fault:OpenCV " + plan["way"]] += 1
    try:
        imports()
    except ImportError as e:
        raise Found("import", "pyBSM does not import without OpenCV: %s" % e)
    m = M(ctx)
    m.way = plan["way"]
    m.run(plan["steps"])
    m.check_results()
    if not plan["again"]:
        return
    # OpenCV is put right and pyBSM imported anew, as a new process would
    purge("cv2", "pybsm")
    if block in sys.meta_path:
        sys.meta_path.remove(block)
    sys.modules.update(stash)
    imports()
    m = M(ctx)
    m.run([st for st in plan["steps"] if st[0] != "call" or st[2] in ops.NEEDS_CV or st[2] == "obj.atm"])
