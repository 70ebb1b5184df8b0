"""C17: importing works in any order and again after failed attempts, and disturbs nothing."""
import hashlib
import importlib
import inspect
import os
import sys
import threading
import types
import warnings

from .. import machine, ops, procstate, sim, worker
from ..machine import Found
from . import c09

RULE = (
    "One run = one history of imports of pyBSM's modules in a process that has not imported it (third-party packages are loaded): up to four attempts, each of one to three modules in a "
    "drawn order, failing at a drawn line of the modules' code or at opening one of their files, or for want of a third-party package; then plain imports of the rest in a drawn order, from the "
    "main or another thread, half of them with calls before everything is imported, a third under settings of the host's own. Then all public names, the identity of every class and module behind them, the process state and the results of drawn calls are compared with a plain import's. "
    "Non-trivial: a call succeeded; distinct: by digest of order, failures and outcomes."
)
MEASURE = "distinct sequences of module imports begun and ended"
TIERS = {"quick": {"runs": 900, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["failed attempts"]
MODS = ["utils", "noise", "geospatial", "otf", "otf.functional", "otf.otf", "metrics", "metrics.functional", "metrics.metrics", "radiance", "radiance.functional",
        "radiance.snr_metrics", "simulation", "simulation.functional", "simulation.ref_image", "simulation.scenario", "simulation.sensor"]
PACKS = ["otf", "metrics", "radiance", "simulation"]
LIGHT = sorted(ops.OPS) + ["otf.filter_OTF", "metrics.niirs", "radiance.reflectance_to_photoelectrons"]
BARE = sorted(o for o in ops.OPS if not any(r[0] in ("sensor", "scen", "ref", "metrics") for r in ops.OPS[o]) and not o.startswith("obj."))


def gen(rng, i, tier):
    pool = PACKS * 3 + MODS
    attempts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 4])):
        k = rng.random()
        f = {"kind": "line", "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "KeyboardInterrupt", "RecursionError"])} if k < 0.6 else {"kind": "open", "err": rng.choice(["EIO", "EMFILE", "ENOMEM", "EACCES"])} if k < 0.85 else {"kind": "absent", "mod": rng.choice(["scipy", "matplotlib", "numpy", "matplotlib.pyplot", "scipy.special"])}
        f["frac"] = rng.random()
        attempts.append({"mods": rng.sample(pool, rng.choice([1, 1, 1, 2, 3])), "fault": f})
    rest = rng.sample(MODS, len(MODS))
    if rng.random() < 0.5:  # the usual few first, the ones an attempt was about
        first = attempts[-1]["mods"][:1] if attempts and rng.random() < 0.5 else [rng.choice(PACKS)]
        rest = first + [m for m in rest if m not in first]
    early, prior = None, []
    if rng.random() < 0.35:  # the host has settings of its own (and makes no calls under them)
        prior = rng.sample(c09.PRIOR, rng.choice([1, 3, 6, len(c09.PRIOR)]))
    elif rng.random() < 0.6:  # calls before everything is imported
        b = ops.Builder(rng, sizes={"n": 5, "p": 14})
        mod = rng.choice(["otf", "otf", "radiance", "metrics", "geospatial", "noise", "utils", "simulation"])
        for _ in range(rng.choice([2, 3, 5])):
            b.call(rng.choice([o for o in BARE if o.startswith(mod)]))
        if rng.random() < 0.6:
            attempts = []
        rest = rng.choice([[mod], [], [rng.choice(MODS)]])
        early = [len(rest), b.steps]
        rest += [m for m in rng.sample(MODS, len(MODS)) if m not in rest]
    b = ops.Builder(rng, sizes={"n": 5, "p": 14})
    for _ in range(rng.choice([1, 2])):
        b.call(rng.choice(["simulation.simulate_image", "metrics.niirs", "metrics.niirs5", "otf.common_OTFs", "otf.apply_otf_to_image", "obj.estimate", "radiance.photon_detector_SNR", "radiance.reflectance_to_photoelectrons", "obj.atm"]))
    for _ in range(rng.choice([1, 2])):
        b.call(rng.choice(LIGHT))
    return {"attempts": attempts, "rest": rest, "thread": rng.random() < 0.2, "prior": prior, "early": early, "steps": b.steps, "grid": 61}


class Tracer:
    """Lines of pyBSM's code and openings of its files, counted; a failure at one of them."""

    def __init__(self, pkg, fault=None, at=None):
        self.pkg, self.fault, self.at = pkg, fault, at
        self.lines = self.opens = 0
        self.fired = None

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.pkg) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.fault and self.fault["kind"] == "line" and self.lines == self.at:
                self.fired = "%s:%d" % (frame.f_code.co_filename[len(self.pkg):], frame.f_lineno)
                raise sim.EXCS[self.fault["exc"]]("injected")
        return self._local

    def audit(self, event, args):
        if event == "open" and isinstance(args[0], str) and args[0].startswith(self.pkg) and args[0].endswith((".py", ".pyc")):
            self.opens += 1
            if self.fault and self.fault["kind"] == "open" and self.opens == self.at:
                self.fired = "open " + args[0][len(self.pkg):]
                raise OSError(sim.ERRNOS[self.fault["err"]], "injected", args[0])

    def __enter__(self):
        sim.AUDIT.append(self.audit)
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sim.AUDIT.remove(self.audit)


def bring(mods):
    for m in mods:
        importlib.import_module("pybsm." + m)


def mine(name):
    return name == "pybsm" or name.startswith("pybsm.")


def names():
    """What each module offers: {module: {public name: description}}, and duplicates of classes, functions or modules."""
    out, twice, seen = {}, [], {}
    for mn in ["pybsm"] + ["pybsm." + m for m in MODS]:
        m = sys.modules[mn]
        d = out[mn] = {}
        for k, v in list(vars(m).items()):
            if k.startswith("_"):
                continue
            if isinstance(v, types.ModuleType):
                d[k] = "module " + v.__name__
                if mine(v.__name__) and sys.modules.get(v.__name__) is not v:
                    twice.append("%s.%s is not the module %s in use" % (mn, k, v.__name__))
            elif isinstance(v, (type, types.FunctionType)) and mine(v.__module__ or ""):
                d[k] = "%s %s.%s" % (type(v).__name__, v.__module__, v.__qualname__)
                w = seen.setdefault(d[k], (v, mn))
                if w[0] is not v:
                    twice.append("%s.%s is not the %s that %s has" % (mn, k, d[k], w[1]))
            else:
                d[k] = type(v).__name__
    return out, twice


def forget(filters):
    for n in [n for n in sys.modules if mine(n)]:
        del sys.modules[n]
    warnings.filters[:] = filters
    warnings._filters_mutated()


def attempt(ctx, a):
    """One attempt to import under a failure. None or the exception."""
    f = a["fault"]

    def count():
        with Tracer(ctx.pkg) as t:
            try:
                bring(a["mods"])
            except BaseException:
                pass
        return b"%d %d" % (t.lines, t.opens)

    held = {}
    if f["kind"] == "absent":
        held[f["mod"]] = sys.modules.get(f["mod"])
        sys.modules[f["mod"]] = None
        at = 0
    else:
        lines, opens = map(int, worker.in_child(count).split())
        at = 1 + int(f["frac"] * (lines if f["kind"] == "line" else opens))
    try:
        with Tracer(ctx.pkg, f, at) as t:
            try:
                bring(a["mods"])
                out = None
            except (Exception, KeyboardInterrupt) as e:
                out = "%s%s" % (type(e).__name__, " at " + t.fired if t.fired else "")
    finally:
        for k, v in held.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    if t.fired or held and out:
        ctx.stats["fault:import %s" % (f.get("exc") or f.get("err") or "without " + f["mod"])] += 1
    if out:
        ctx.stats["failed attempts"] += 1
    return out


def run(plan, ctx):
    bring(MODS)
    want, _ = names()
    inspect.getmodule = lambda *a: None  # nine tenths of an import's time: pyBSM asks for its own stack at import
    without = [f for f in warnings.filters if f not in worker.ITS_FILTERS]
    forget(without)
    bring(MODS)
    adds = [f for f in warnings.filters if f not in without]  # by a plain import
    for j, p in enumerate(plan["prior"]):
        c09.apply(p, j)
    without = [f for f in warnings.filters if f not in adds]
    forget(without)
    filters = sorted(map(repr, adds + without))
    before = procstate.snapshot()
    path = []
    for a in plan["attempts"]:
        out = attempt(ctx, a)
        path.append("%s: %s" % (", ".join(a["mods"]), out or "imported"))
    told = " after " + "; ".join(path) if path else ""
    bad = []

    def plain(mods):
        for m in mods:
            try:
                importlib.import_module("pybsm." + m)
            except BaseException as e:
                bad.append("importing pybsm.%s%s raised %r" % (m, told, e))
                return

    def bring_in(mods):
        if plan["thread"]:
            t = threading.Thread(target=plain, args=(mods,))
            t.start()
            t.join()
        else:
            plain(mods)
        if bad:
            raise Found("import:fails", bad[0])

    def quiet():
        d = procstate.difference(before, procstate.snapshot(), ("warning filters",))
        if d:
            raise Found("import:state", "importing %s%s changed the process's %s: %s" % (", ".join(plan["rest"][:3]), told, d[0], d[1]))

    rest = plan["rest"]
    if plan["early"]:
        bring_in(rest[: plan["early"][0]])
        quiet()
        calls(ctx, plan["early"][1], "after importing only %s%s: " % (", ".join(rest[: plan["early"][0]]) or "what the call needs", told))
        rest = rest[plan["early"][0] :]
        before = procstate.snapshot()
    bring_in(rest)
    ctx.states.add(hashlib.blake2b(repr((path, plan["rest"])).encode(), digest_size=8).hexdigest())
    ctx.log((path, plan["rest"]))
    quiet()
    if sorted(map(repr, warnings.filters)) != filters:
        raise Found("import:filters", "the warning filters after importing%s are not those of a plain import: %s" % (told, warnings.filters))
    got, twice = names()
    for mn in want:
        for k in sorted(set(want[mn]) | set(got[mn])):
            # (Python itself does not bind a submodule again in a package imported anew)
            if want[mn].get(k) != got[mn].get(k) and "module %s.%s" % (mn, k) not in (want[mn].get(k), got[mn].get(k)):
                raise Found("import:names", "after importing %s%s, %s.%s is %s instead of %s" % (", ".join(plan["rest"][:3]), told, mn, k, got[mn].get(k), want[mn].get(k)))
    if not plan["prior"]:
        calls(ctx, plan["steps"], "after importing%s: " % (told or " " + ", ".join(plan["rest"][:3])))
    if twice:
        raise Found("import:twice", "after importing%s: %s" % (told, twice[0]))


def calls(ctx, steps, when):
    try:
        machine.Machine(ctx).run(steps)
    except Found as e:
        raise Found("import:" + e.cls, when + e.detail)
