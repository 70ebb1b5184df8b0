"""Snapshots of the values a caller can observe, and their comparison.

canon(x) is a deep, process-independent copy of everything public in x; build()
makes fresh objects from it through the public constructors, so an oracle
process can be given exactly the values a call was made with and none of its
history.
"""
import hashlib
import pickle

import numpy as np

SENSOR_CTOR = (
    "name D f p_x opt_trans_wavelengths eta p_y w_x w_y int_time dark_current other_irradiance read_noise max_n "
    "max_well_fill bit_depth n_tdi cold_shield_temperature optics_temperature optics_emissivity "
    "cold_filter_transmission cold_filter_temperature cold_filter_emissivity s_x s_y da_x da_y pv pv_wavelength"
).split()
SENSOR_EXTRA = "optics_transmission qe_wavelengths qe L_x L_y other_noise filter_kernel frame_stacks".split()
SCEN_ATTRS = (
    "name ihaze altitude ground_range aircraft_speed target_reflectance target_temperature "
    "background_reflectance background_temperature ha_wind_speed cn2_at_1m"
).split()
REF_ATTRS = "img gsd name pix_values refl_values".split()
ATTRS = {"Sensor": SENSOR_CTOR + SENSOR_EXTRA, "Scenario": SCEN_ATTRS, "RefImage": REF_ATTRS}

FUNCS = {
    "identity": lambda p: (lambda w: w),
    "affine": lambda p: (lambda w: p[0] + p[1] * w),
    "square": lambda p: (lambda w: p[0] * w * w),
    "grid": lambda p: (lambda w: p[0] * w * np.arange(12.0).reshape(3, 4)),
}


class Fn:
    """A named callable, so that calls with callables can be replayed elsewhere."""

    def __init__(self, name, p):
        self.name, self.p = name, tuple(p)
        self.f = FUNCS[name](self.p)

    def __call__(self, w):
        return self.f(w)


def is_obj(x):
    return type(x).__module__.split(".")[0] == "pybsm"


def obj_attrs(x):
    cls = type(x).__name__
    if cls in ATTRS:
        names = list(ATTRS[cls])
    else:
        names = []
        for k in type(x).__mro__:
            names += [n for n in getattr(k, "__annotations__", {}) if not n.startswith("_")]
    try:
        names += [n for n in vars(x) if not n.startswith("_")]
    except TypeError:
        pass
    seen = []
    for n in names:
        if n not in seen and n != "atm" or (n == "atm" and cls != "Scenario" and n not in seen):
            seen.append(n)
    return seen


_MISSING = ("missing",)


def canon(x, drop=()):
    """drop: attribute names to leave out of pybsm objects."""
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)) and type(x).__module__ == "builtins":
        return x
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True, subok=False)
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, x.tobytes()) if x.dtype.kind not in "fc" else ("npf", x.dtype.str, complex(x) if x.dtype.kind == "c" else float(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if type(x) in (list, tuple) else "tuple",) + ("seq",) + tuple(canon(v, drop) for v in x)
    if isinstance(x, dict):
        return {"dict": [(canon(k), canon(v, drop)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]}
    if isinstance(x, Fn):
        return {"fn": (x.name, x.p)}
    if is_obj(x) and not isinstance(x, type) and not callable(x):
        d = {}
        for n in obj_attrs(x):
            if n in drop:
                continue
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            d[n] = canon(v, drop)
        out = {"obj": type(x).__name__, "d": d}
        if type(x).__name__ == "Scenario":
            out["interp"] = bool(getattr(x, "_dst_interp", getattr(x, "_interp", False)))
        return out
    return {"other": type(x).__module__ + "." + type(x).__name__}


def same(a, b, rtol=1e-9):
    """None when equal, else a short path/description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return ": %s instead of %s" % (brief(a), brief(b))
        if a.shape != b.shape:
            return ": shape %s instead of %s" % (a.shape, b.shape)
        if a.dtype != b.dtype:
            return ": dtype %s instead of %s" % (a.dtype, b.dtype)
        if a.dtype.kind not in "fc":
            ok = bool(np.array_equal(a, b))
        else:
            ok = a.tobytes() == b.tobytes()
            if not ok:
                with np.errstate(all="ignore"):
                    fin = b[np.isfinite(b)]
                    at = 1e-13 * float(np.max(np.abs(fin))) if fin.size and rtol else 0.0
                    ok = bool(np.allclose(a, b, rtol=rtol, atol=at, equal_nan=True))
        if ok:
            return None
        try:
            bad = np.flatnonzero(~((a == b) | ((a != a) & (b != b))).ravel())
            k = int(bad[0])
            return ": %d of %d elements differ, first [%d] %r instead of %r" % (len(bad), a.size, k, a.ravel()[k].item(), b.ravel()[k].item())
        except Exception:
            return ": arrays differ"
    if isinstance(a, dict) and isinstance(b, dict):
        if "obj" in a and "obj" in b:  # the interpolation mode is the harness's note, not a public attribute
            a, b = {k: v for k, v in a.items() if k != "interp"}, {k: v for k, v in b.items() if k != "interp"}
        if set(a) != set(b):
            return ": has %s instead of %s" % (sorted(set(a) - set(b)) or "less", sorted(set(b) - set(a)) or "less")
        for k in a:
            d = same(a[k], b[k], rtol)
            if d:
                return ("" if k == "d" else ".%s" % k) + d
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) == 3 and len(b) == 3 and isinstance(a[0], str) and isinstance(b[0], str) and a[0] == b[0] == "npf":
            return same(a[2], b[2], rtol) if a[1] == b[1] else ": %s instead of %s" % (a[1], b[1])
        if len(a) != len(b):
            return ": %d items instead of %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol)
            if d:
                return "[%d]%s" % (i - 2 if a[:1] and isinstance(a[0], str) and a[0] in ("tuple", "list") else i, d)
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)) and type(a) is type(b):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= rtol * abs(b):
            return None
        return ": %r instead of %r" % (a, b)
    if type(a) is type(b) and a == b:
        return None
    return ": %s instead of %s" % (brief(a), brief(b))


def note_mode(new, old):
    """A copy's interpolation mode, where the library's own copying leaves the note out."""
    if type(old).__name__ == type(new).__name__ == "Scenario" and not hasattr(new, "_dst_interp") and hasattr(old, "_dst_interp"):
        try:
            new._dst_interp = old._dst_interp
        except AttributeError:
            pass
    for n in ("scenario", "snr"):
        if is_obj(old) and hasattr(old, n) and hasattr(new, n) and is_obj(getattr(old, n)):
            note_mode(getattr(new, n), getattr(old, n))


def brief(x):
    if isinstance(x, np.ndarray):
        return "array%s" % (x.shape,)
    r = repr(x)
    return r if len(r) < 120 else r[:117] + "..."


def digest(c):
    return hashlib.blake2b(pickle.dumps(c, 4), digest_size=12).hexdigest()


ARRANGE = 0  # how arrays built from here on are laid out


def arrange(a):
    if ARRANGE % 4 == 1:
        a.flags.writeable = False
    elif ARRANGE % 4 == 2 and a.ndim:
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)[..., ::2]
        b[...] = a
        return b
    elif ARRANGE % 4 == 3 and a.ndim == 2:
        return np.asfortranarray(a) if a.flags.c_contiguous else np.ascontiguousarray(a)
    return a


def build(c, pybsm):
    """Fresh concrete value from a canonical one."""
    if isinstance(c, np.ndarray):
        return arrange(np.array(c))
    if isinstance(c, tuple) and c:
        if c[0] == "np":
            return np.frombuffer(c[2], dtype=c[1])[0]
        if c[0] == "npf":
            return np.dtype(c[1]).type(c[2])
        if len(c) > 1 and c[1] == "seq":
            v = [build(x, pybsm) for x in c[2:]]
            return v if c[0] == "list" else tuple(v)
    if isinstance(c, dict):
        if "fn" in c:
            return Fn(*c["fn"])
        if "dict" in c:
            return {build(k, pybsm): build(v, pybsm) for k, v in c["dict"]}
        if "obj" in c:
            return build_obj(c, pybsm)
        raise ValueError("cannot rebuild %r" % (c,))
    return c


def build_obj(c, pybsm):
    d = {k: build(v, pybsm) for k, v in c["d"].items()}
    cls = c["obj"]
    import pybsm.simulation as s

    if cls == "Sensor":
        o = s.Sensor(**{k: d.pop(k) for k in SENSOR_CTOR if k in d})
    elif cls == "Scenario":
        o = s.Scenario(interp=c["interp"], **{k: d.pop(k) for k in SCEN_ATTRS if k in d})
    elif cls == "RefImage":
        o = s.RefImage(**{k: d.pop(k) for k in REF_ATTRS if k in d})
    else:
        if cls == "OTF":
            import pybsm.otf as m

            o = m.OTF()
        elif cls == "SNRMetrics":
            import pybsm.radiance as m

            o = m.SNRMetrics(d.pop("name"))
        elif cls == "Metrics":
            import pybsm.metrics as m

            o = m.Metrics(d.pop("name"))
        else:
            raise ValueError(cls)
    for k, v in d.items():
        setattr(o, k, v)
    return o
