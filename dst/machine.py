"""Runs the steps of a plan in one simulated process and judges every call.

The machine keeps, for each object the simulated caller owns, the values it
should have (`expect`), and for each result the values it had when it was
returned (`snap`).
"""
import os
import sys

import numpy as np

from . import ops, sim, values
from .values import canon, same

NIIRS_OPS = ("metrics.niirs", "metrics.niirs5")
NIIRS_FIELDS = {
    "target_reflectance": (0.15, 0.0), "background_reflectance": (0.07, 0.0), "target_temperature": (282.0,), "background_temperature": (280.0,),
}


class Found(Exception):
    """A property violation: a class (stable under minimisation) and its details."""

    def __init__(self, cls, detail):
        super().__init__(cls, detail)
        self.cls, self.detail = cls, detail


class Skip(Exception):
    """A step that cannot be carried out (its inputs are gone after minimisation)."""


def niirs_ok(before, after, emissive):
    """Compare scenario snapshots around a NIIRS evaluation; None or a difference."""
    b = {"obj": before["obj"], "d": dict(before["d"]), "interp": before.get("interp")}
    a = {"obj": after["obj"], "d": dict(after["d"]), "interp": after.get("interp")}
    for f, std in NIIRS_FIELDS.items():
        x, y = b["d"].pop(f, None), a["d"].pop(f, None)
        want = [std[0]] if len(std) == 1 or emissive is None or not emissive else [std[1]]
        if emissive is None:
            want = list(std)
        if same(y, x) is None or any(isinstance(y, (int, float)) and y == w for w in want):
            continue
        return ".%s: %r is neither its earlier value %r nor the NIIRS standard %r" % (f, y, x, want)
    return same(a, b)


def arrays_in(x, depth=0, skip=("sensor", "scenario")):
    """Concrete arrays reachable from a result or object (public parts)."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays_in(v, depth + 1, skip)
    elif values.is_obj(x) and depth < 4:
        for n in values.obj_attrs(x):
            if n in skip:
                continue
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            yield from arrays_in(v, depth + 1, skip)


class Machine:
    def __init__(self, ctx, check_oracle=True, stability=True, drop=()):
        self.ctx = ctx
        self.heap, self.expect, self.res, self.snap = {}, {}, {}, {}
        self.info = {}
        self.check_oracle, self.stability = check_oracle, stability
        self.drop = tuple(drop)
        self.rtol = 1e-9
        self.st = ctx.stats
        self.on_call = None  # hook: (machine, step, outcome)

    # ---------------------------------------------------------- arguments
    def arg(self, d):
        if isinstance(d, dict):
            if "o" in d:
                if d["o"] not in self.heap:
                    raise Skip
                return self.heap[d["o"]]
            if "r" in d:
                if d["r"][0] not in self.res:
                    raise Skip
                v = self.res[d["r"][0]]
                for k in d["r"][1:]:
                    v = v[k] if isinstance(k, int) else getattr(v, k)
                return v
            if "np" in d:
                return ops.num(d)
            if "f" in d:
                return values.Fn(*d["f"])
            if "l" in d:
                return list(d["l"])
        return d

    def args(self, op, dargs):
        args = [self.arg(d) for d in dargs]
        if ops.too_big(op, args):
            raise Skip
        return args

    # ---------------------------------------------------------- caller's own changes
    def touched(self, arr):
        """The caller wrote to arr: whatever shares its memory has new expected values."""
        for nm, o in self.heap.items():
            if any(np.may_share_memory(arr, x) for x in arrays_in(o)):
                self.expect[nm] = canon(o)
        for cid, r in self.res.items():
            if cid in self.snap and any(np.may_share_memory(arr, x) for x in arrays_in(r)):
                self.snap[cid] = canon(r, self.drop + ("sensor", "scenario"))

    def step(self, st):
        k = st[0]
        if k == "new":
            self.heap[st[1]] = None  # release the old one first: addresses get reused
            self.heap[st[1]] = ops.make(st[2])
            self.expect[st[1]] = canon(self.heap[st[1]])
        elif k == "set":
            self.set(st[1], st[2], ops.num(st[3]))
        elif k == "scale":
            o = self.get(st[1])
            v = getattr(o, st[2])
            self.set(st[1], st[2], type(v)(v * st[3]) if isinstance(v, float) else v + 1)
        elif k == "setarr":
            o = self.get(st[1])
            self.set(st[1], "qe", ops.wavy(len(o.qe_wavelengths), st[3]))
            self.set(st[1], "optics_transmission", np.full(len(o.opt_trans_wavelengths), 0.5 + st[3] / 2))
        elif k == "swapattr":
            o = self.get(st[1])
            x, y = getattr(o, st[2]), getattr(o, st[3])
            self.set(st[1], st[2], y)
            self.set(st[1], st[3], x)
        elif k == "edit":
            o = self.get(st[1])
            arr = o if st[2] is None else getattr(o, st[2])
            self.edit(arr, st[3], st[4])
            self.expect[st[1]] = canon(o)
            self.touched(arr)
        elif k == "mix":
            o = self.get(st[1])
            arr = o if st[2] is None else getattr(o, st[2])
            if arr.flags.writeable and arr.size > 1:
                if st[3] == "T" and arr.ndim == 2 and arr.shape[0] == arr.shape[1]:
                    arr[...] = arr.T.copy()
                elif st[3] == "roll":
                    arr[...] = np.roll(arr, 1)
                elif st[3] == "swap":
                    # two values inside change places
                    f = arr.reshape(-1) if arr.flags.c_contiguous else None
                    if f is not None:
                        w = np.flatnonzero(f[1:-1] != f[1]) + 1
                        if w.size:
                            j = w[len(w) // 2]
                            f[1], f[j] = f[j].copy(), f[1].copy()
                else:
                    arr[...] = arr[::-1].copy()
                self.expect[st[1]] = canon(o)
                self.touched(arr)
        elif k == "scribble":
            if st[1] not in self.res:
                raise Skip
            if self.info[st[1]][0] == "obj.atm":
                return
            for arr in arrays_in(self.res[st[1]]):
                if arr.flags.writeable and arr.size:
                    arr[...] = arr.dtype.type(7) if st[2] else (arr * 0 + 3).astype(arr.dtype)
                    self.touched(arr)
            self.snap.pop(st[1], None)
        elif k == "drop":
            self.heap.pop(st[1], None)
            self.expect.pop(st[1], None)
        elif k == "forget":
            self.res.pop(st[1], None)
            self.snap.pop(st[1], None)
        elif k == "draw":
            np.random.uniform(size=st[1])
        elif k == "seed":
            np.random.seed(st[1])
        elif k == "call":
            self.call(st)
        else:
            raise ValueError(st)

    def get(self, nm):
        if self.heap.get(nm) is None:
            raise Skip
        return self.heap[nm]

    def set(self, nm, attr, value):
        o = self.get(nm)
        setattr(o, attr, value)
        e = {**self.expect[nm], "d": dict(self.expect[nm]["d"])}
        e["d"][attr] = canon(value)
        self.expect[nm] = e
        d = same(canon(o), e)
        if d:
            raise Found("set:%s" % attr, "setting %s.%s changed something else or was not kept%s" % (nm, attr, d))

    @staticmethod
    def edit(arr, frac, factor):
        if arr.size == 0 or not arr.flags.writeable:
            return
        i = int(frac * arr.size) % arr.size
        if arr.dtype.kind in "fc":
            arr.flat[i] = arr.flat[i] * factor if arr.flat[i] else 0.01
        else:
            arr.flat[i] = arr.flat[i] + 1

    # ---------------------------------------------------------- calls
    def invoke(self, op, args):
        """('ok', value) or ('exc', exception)."""
        f = ops.resolve(op)
        try:
            return ("ok", f(*args))
        except Exception as e:
            return ("exc", e)
        except KeyboardInterrupt as e:
            return ("exc", e)

    def outcome_canon(self, out, drop=None):
        drop = self.drop if drop is None else drop
        if out[0] == "ok":
            return ("ok", canon(out[1], drop))
        return ("exc", type(out[1]).__name__)

    def call(self, st, fault=None):
        _, cid, op, dargs, opts = st
        args = self.args(op, dargs)
        before = [canon(a) for a in args]
        rng = np.random.get_state() if op in ops.NOISY else None
        self.ctx.note("call", op)
        out = self.invoke(op, args)
        self.finish(st, args, before, rng, out)
        return out

    def finish(self, st, args, before, rng, out, oracle=True):
        _, cid, op, dargs, opts = st
        got = self.outcome_canon(out)
        self.ctx.log((cid, op, values.digest(got) if not isinstance(got[1], str) or got[0] == "ok" else got))
        self.st["calls"] += 1
        self.st["ok" if out[0] == "ok" else "raised"] += 1
        self.st["op:" + op] += 1
        self.check_args(op, dargs, args, before, out[0] == "ok")
        if oracle and self.check_oracle:
            want = self.ctx.oracle(op, before, rng)
            d = compare(got, want, self.rtol)
            if d and not (self.rtol == 0.0 and lies(self.ctx, op, before, rng, got, want)):
                raise Found("result:%s" % op, "%s %s%s  (fresh process: %s)" % (cid, op, d, values.brief(want[0])))
        if out[0] == "ok":
            self.res[cid] = out[1]
            self.info[cid] = (op, dargs)
            if self.stability:
                self.snap[cid] = canon(out[1], self.drop + ("sensor", "scenario"))

    def check_args(self, op, dargs, args, before, success):
        emissive = None
        if op in NIIRS_OPS and success:
            try:
                emissive = bool(args[0].opt_trans_wavelengths[0] >= 2.9e-6)
            except Exception:
                emissive = None
        for i, (a, b) in enumerate(zip(args, before)):
            now = canon(a)
            if op in NIIRS_OPS and isinstance(now, dict) and now.get("obj") == "Scenario":
                d = niirs_ok(b, now, emissive)
            else:
                d = same(now, b, 0.0)
            if d:
                raise Found("argument:%s" % op, "%s changed its argument %d (%s)%s" % (op, i, _dname(dargs[i]), d))
        # every other object of the caller
        given = {d["o"] for d in dargs if isinstance(d, dict) and "o" in d}
        for nm, o in self.heap.items():
            if nm in given:
                if op in NIIRS_OPS:
                    self.expect[nm] = canon(o)
                continue
            d = same(canon(o), self.expect[nm], 0.0)
            if d:
                raise Found("other:%s" % op, "%s changed %s, which it was not given%s" % (op, nm, d))

    def check_results(self, when=""):
        """Results returned earlier still hold the values they were returned with."""
        for cid, c in self.snap.items():
            d = same(canon(self.res[cid], self.drop + ("sensor", "scenario")), c, 0.0)
            if d:
                raise Found("altered:%s" % self.info[cid][0], "result %s of %s was altered later%s" % (cid, self.info[cid][0], d))

    def run(self, steps):
        for i, st in enumerate(steps):
            self.ctx.where = i
            self.ctx.tick()
            try:
                self.step(st)
            except Skip:
                self.st["skipped"] += 1


def _dname(d):
    if isinstance(d, dict):
        return d.get("o") or (d.get("r") or ["value"])[0]
    return values.brief(d)


def lies(ctx, op, args, rng, got, want):
    """Whether two results differ in last bits that also depend on where and how arrays happen to lie in memory.

    Vectorised sums begin at an aligned element; other loops run over
    strided or read-only arrays. A call whose last bits move with these proves nothing with them.
    """
    if compare(got, want, 1e-9):
        return False
    for k in range(24):
        other = ctx.oracle(op, args, rng, pad=k + 1)
        if compare(other, want, 0.0):
            ctx.stats["last bits depending on addresses"] += 1
            return True
    return False


def compare(got, want, rtol=1e-9):
    if got[0] != want[0]:
        if got[0] == "exc":
            return " raised %s instead of returning" % got[1]
        return " returned instead of raising %s" % want[1]
    if got[0] == "exc":
        return None if got[1] == want[1] else " raised %s instead of %s" % (got[1], want[1])
    return same(got[1], want[1], rtol)
