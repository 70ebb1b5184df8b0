"""The public functions under simulation and how arguments for them are drawn.

An argument descriptor is JSON: a number, null, bool or string;
{"o": name} an object of the run's heap; {"r": [call, path...]} part of an
earlier result; {"np": [dtype, value]}; {"f": [name, params]} a callable;
{"l": [...]} a list.
"""
import math

import numpy as np

# ------------------------------------------------------------------ arrays


def make_array(kind, n, p):
    """Array of a kind, size n and parameters p (deterministic)."""
    p = list(p) + [0.0] * 4
    if kind in ("U", "V"):
        fc = p[0]
        u = np.linspace(-1.0, 1.0, n) * fc
        v = np.linspace(1.0, -1.0, n) * fc
        uu, vv = np.meshgrid(u, v)
        return uu if kind == "U" else vv
    if kind == "U1":
        return np.linspace(0.0, 1.0, n) * p[0]
    if kind == "mtf2":  # decaying two-dimensional transfer function
        u = np.linspace(-1.0, 1.0, n)
        uu, vv = np.meshgrid(u, u[::-1])
        return np.exp(-p[0] * (uu**2 + vv**2) - p[1] * np.abs(uu))
    if kind == "cotf":  # complex transfer function
        m = make_array("mtf2", n, p)
        return m * np.exp(1j * p[2] * np.sin(np.arange(m.size).reshape(m.shape)))
    if kind == "mtf1":
        return np.exp(-p[0] * np.linspace(0.0, 1.0, n)) * (1.0 - np.linspace(0.0, 1.0, n))
    if kind == "kern":
        k = np.zeros((3, 3))
        for i, j in KERNELS[int(p[1])]:
            k[i, j] = -p[0]
        k[1, 1] = 1.0 + p[0] * len(KERNELS[int(p[1])])
        return k
    if kind == "wl":
        return np.linspace(p[0], p[0] * (1.05 + abs(p[1])), n)
    if kind == "wt":
        return 0.2 + 0.5 * np.abs(np.sin(p[0] + np.arange(n)))
    if kind == "pos":  # positive values of some scale
        return p[0] * (1.2 + np.sin(p[1] + 1.7 * np.arange(n)))
    if kind == "path":
        return np.linspace(0.0, p[0], n)
    if kind == "img":
        i, j = np.meshgrid(np.arange(n), np.arange(n + 3), indexing="ij")
        return np.round(128 + 70 * np.sin(p[0] + i * 0.9) * np.cos(j * (0.5 + p[1])) + 40 * ((i * 7 + j * 3) % 5 - 2) / 2.0)
    if kind == "rgb":
        g = make_array("img", n, p)
        return np.clip(np.stack([g, g[::-1], 255 - g], axis=2), 0, 255).astype(np.uint8)
    if kind == "img8":
        return np.clip(make_array("img", n, p), 0, 255).astype(np.uint8)
    if kind == "imgflat":
        return np.full((n, n), p[0])
    if kind == "pix":
        return np.linspace(p[0], p[1], n)
    if kind == "refl":
        return np.linspace(0.02 + abs(p[0]), 0.9 - abs(p[1]), n)
    if kind == "pos2":
        return np.abs(make_array("img", n, p)) * 10.0
    if kind == "atm":
        from . import dbmodel

        return dbmodel.atm_of(int(p[0]))[400 : 400 + n]
    if kind == "empty":
        return np.array([])
    if kind == "vec":
        return np.array(p[:n])
    raise ValueError(kind)


# where the negative weights of a sharpening kernel lie
KERNELS = [
    [(0, 1), (1, 0), (1, 2), (2, 1)], [(1, 0), (1, 2)], [(0, 1), (2, 1)], [(0, 0), (2, 2)], [(0, 2), (2, 0)], [(0, 0), (0, 2), (2, 0), (2, 2)],
    [(0, 1)], [(1, 0)], [(0, 0), (0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (2, 2)],
]

# kind -> (parameter ranges, scale "log"/"lin")
ARR = {
    "U": [(5e2, 5e4)],
    "V": [(5e2, 5e4)],
    "U1": [(5e2, 5e4)],
    "mtf2": [(0.3, 4.0), (0.01, 0.5)],
    "cotf": [(0.3, 4.0), (0.01, 0.5), (0.01, 0.1)],
    "mtf1": [(0.3, 4.0)],
    "kern": [(0.0625, 0.25)],
    "wl": [(4e-7, 9e-7), (0.01, 0.3)],
    "wt": [(0.1, 3.0)],
    "pos": [(0.5, 5.0), (0.1, 3.0)],
    "path": [(2e3, 6e4)],
    "img": [(0.1, 3.0), (0.1, 1.0)],
    "rgb": [(0.1, 3.0), (0.1, 1.0)],
    "img8": [(0.1, 3.0), (0.1, 1.0)],
    "pix": [(5.0, 60.0), (150.0, 240.0)],
    "refl": [(0.01, 0.2), (0.01, 0.2)],
    "pos2": [(0.1, 3.0), (0.1, 1.0)],
    "atm": [(1.0, 800.0)],
}


def draw(rng, lo, hi):
    if lo > 0 and hi / lo > 20:
        return float("%.6g" % math.exp(rng.uniform(math.log(lo), math.log(hi))))
    return float("%.6g" % rng.uniform(lo, hi))


def draw_arr(rng, kind, n):
    if kind == "kern":
        return {"k": kind, "n": 3, "p": [rng.choice([0.0625, 0.125, 0.25]), rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])]}
    if kind == "atm":
        return {"k": kind, "n": n, "p": [rng.randrange(1, 800)]}
    return {"k": kind, "n": n, "p": [draw(rng, *r) for r in ARR[kind]]}


# ------------------------------------------------------------------ functions
# role: ("s", lo, hi) float | ("i", lo, hi) int | ("c", [choices]) | ("a", kind, sizekey) array
#       | ("fn",) callable | ("sensor",) | ("scen",) | ("ref",) | ("metrics",)


def s(lo, hi):
    return ("s", lo, hi)


def a(kind, size="n"):
    return ("a", kind, size)


U, V = a("U"), a("V")
LAM, DD, FF, PP = s(4e-7, 1e-6), s(0.05, 0.5), s(0.5, 4.0), s(5e-6, 3e-5)
W = a("wl", "m")

OPS = {
    # otf
    "otf.circular_aperture_OTF": [U, V, LAM, DD, s(0.05, 0.6)],
    "otf.circular_aperture_OTF_with_defocus": [U, V, LAM, DD, FF, ("c", [0, 1e-3, 5e-4, 2e-3])],
    "otf.cte_OTF": [U, V, PP, PP, s(100, 900), s(100, 900), ("i", 2, 5), s(0.99, 0.9999), FF],
    "otf.defocus_OTF": [U, V, DD, s(1e-6, 2e-5), s(1e-6, 2e-5)],
    "otf.detector_OTF": [U, V, PP, PP, FF],
    "otf.detector_OTF_with_aggregation": [U, V, PP, PP, PP, PP, FF, ("i", 1, 5)],
    "otf.diffusion_OTF": [U, V, a("pos", "1"), s(0.1, 2.0), s(0.1, 2.0), FF],
    "otf.drift_OTF": [U, V, s(1e-6, 1e-4), s(1e-6, 1e-4)],
    "otf.filter_OTF": [U, V, a("kern", "k"), s(2e-6, 1e-4)],
    "otf.gaussian_OTF": [U, V, s(1e-6, 1e-4), s(1e-6, 1e-4)],
    "otf.jitter_OTF": [U, V, s(1e-6, 5e-5), s(1e-6, 5e-5)],
    "otf.polychromatic_turbulence_OTF": [
        U, V, W, a("wt", "m"), s(1500, 12000), s(15000, 60000), DD, s(5, 40), s(1e-15, 1e-13), s(1e-3, 0.1), s(0, 200),
    ],
    "otf.tdi_OTF": [a("U1"), PP, ("i", 1, 8), ("i", 1, 4), s(0.9, 1.5), FF],
    "otf.turbulence_OTF": [U, V, LAM, DD, s(0.01, 0.3), s(0.0, 0.9)],
    "otf.wavefront_OTF": [U, V, LAM, s(0.0, 0.4), DD, DD],
    "otf.wavefront_OTF_2": [U, V, s(1e4, 1e6), s(0.0, 0.15)],
    "otf.wind_speed_turbulence_OTF": [U, V, LAM, DD, s(0.01, 0.3), s(1e-3, 0.1), s(0, 200)],
    "otf.otf_to_psf": [a("cotf", "g"), s(2e3, 8e3), s(2e-6, 2e-5)],
    "otf.weighted_by_wavelength": [W, a("wt", "m"), ("fn",)],
    "otf.coherence_diameter": [LAM, a("path", "q"), a("pos", "q")],
    "otf.hufnagel_valley_turbulence_profile": [a("path", "q"), s(5, 40), s(1e-15, 1e-13)],
    "otf.object_domain_defocus_radii": [DD, s(1e3, 9e3), s(1e3, 9e3)],
    "otf.dark_current_from_density": [s(1e-6, 1e-3), PP, PP],
    "otf.image_domain_defocus_radii": [DD, s(1e-4, 1e-2), FF],
    "otf.slice_otf": [a("mtf2"), s(0.0, 1.5)],
    "otf.apply_otf_to_image": [a("pos2", "p"), s(0.05, 0.5), s(2e4, 4e4), a("cotf", "g"), s(2e3, 8e3), s(2e-6, 1e-5)],
    "otf.common_OTFs": [("sensor",), ("scen",), U, V, W, a("wt", "m"), s(15000, 60000), s(1e-3, 0.1)],
    "otf.resample_2D": [a("img", "p"), s(0.1, 1.0), s(0.1, 1.0)],
    # radiance
    "radiance.at_focal_plane_irradiance": [DD, FF, a("pos", "m")],
    "radiance.blackbody_radiance": [W, s(200, 400)],
    "radiance.check_well_fill": [s(10, 1e5), s(10, 1e5)],
    "radiance.cold_shield_self_emission": [W, s(60, 300), DD, FF],
    "radiance.cold_stop_self_emission": [W, s(60, 300), s(0.05, 0.9), DD, FF],
    "radiance.focal_plane_integrated_irradiance": [a("pos", "m"), s(0.01, 1), s(0.1, 1), s(0.1, 1), W, s(1e-8, 1e-7), s(200, 320), DD, FF],
    "radiance.optics_self_emission": [W, s(200, 320), s(0.05, 0.9), s(0.1, 1), DD, FF],
    "radiance.photon_detection_rate": [a("pos", "m"), PP, PP, W, a("wt", "m")],
    "radiance.photon_detector_SNR": [("sensor",), W, a("pos", "m"), a("pos", "m")],
    "radiance.reflectance_to_photoelectrons": [("atm4",), ("sensor",), s(1e-4, 1e-1)],
    "radiance.signal_rate": [W, a("pos", "m"), a("wt", "m"), DD, FF, PP, PP, a("wt", "m"), a("pos", "m"), s(0, 100)],
    "radiance.total_radiance": [a("atm", "q"), s(0, 1), s(250, 350)],
    "radiance.giqe_radiance": [a("atm", "q"), ("c", [0, 1])],
    "radiance.resample_by_wavelength": [W, a("wt", "m"), a("wl", "q")],
    # metrics
    "metrics.giqe3": [s(0.1, 1), s(0.1, 2), s(0.9, 1.5), s(0.5, 4), s(5, 200)],
    "metrics.giqe4": [s(0.1, 1), s(0.1, 2), s(0.9, 1.5), s(0.5, 4), s(5, 200), s(0.3, 1.5)],
    "metrics.giqe5": [s(0.1, 1), s(0.1, 1), s(0.1, 2), s(5, 200), s(0.3, 1.5)],
    "metrics.giqe5_RER": [a("mtf2"), s(1e3, 1e4), s(2e-6, 1e-4), s(2e-6, 1e-4)],
    "metrics.giqe_edge_terms": [a("mtf2"), s(1e3, 1e4), s(2e-6, 1e-4), s(2e-6, 1e-4)],
    "metrics.ground_resolved_distance": [a("mtf1", "q"), s(1e2, 1e3), s(5, 200), s(2e-6, 1e-4), s(2e3, 6e4)],
    "metrics.niirs": [("sensor",), ("scen",), ("c", [False, True, False])],
    "metrics.niirs5": [("sensor",), ("scen",), ("c", [False, True, False])],
    "metrics.relative_edge_response": [a("mtf1", "q"), s(1e2, 1e3), s(2e-6, 1e-4)],
    "metrics.edge_height_overshoot": [a("mtf1", "q"), s(1e2, 1e3), s(2e-6, 1e-4)],
    "metrics.edge_response": [s(-0.5, 3), a("mtf1", "q"), s(1e2, 1e3), s(2e-6, 1e-4)],
    # noise
    "noise.noise_gain": [a("kern", "k")],
    "noise.quantization_noise": [s(1e2, 1e6), s(4, 16)],
    # geospatial
    "geospatial.altitude_along_slant_path": [s(0, 50), s(1500, 12000), s(15000, 60000)],
    "geospatial.ground_sample_distance": [s(1e-6, 1e-4), s(1e3, 6e4)],
    "geospatial.nadir_angle": [s(0, 50), s(1500, 12000), s(15000, 60000)],
    "geospatial.curved_earth_slant_range": [s(0, 50), s(1500, 12000), s(500, 60000)],
    # utils
    "utils.load_database_atmosphere_no_interp": [("alt",), ("rng",), ("haze",)],
    "utils.load_database_atmosphere": [("altf",), ("rngf",), ("haze",)],
    # simulation
    "simulation.instantaneous_FOV": [s(1e-6, 1e-4), FF],
    "simulation.wiener_filter": [a("cotf"), s(1e-3, 1.0)],
    "simulation.img_to_reflectance": [a("img", "p"), a("pix", "k"), a("refl", "k")],
    "simulation.stretch_contrast_convert_8bit": [a("img", "p"), ("c", [None, {"l": [1.0, 99.0]}, {"l": [5.0, 95.0]}, {"l": [1.0, 98.0]}])],
    "simulation.simulate_image": [("ref",), ("sensor",), ("scen",)],
    # methods and constructors
    "obj.atm": [("scen",)],
    "obj.estimate": [("ref",), ("c", [2000000, 1500000.0, 500000, 3000000])],
    "obj.refimage": [a("img", "p"), s(0.05, 0.5), ("c", [None])],
    "obj.sensor": [("bandarr",), DD, FF, PP],
    "obj.scenario": [("haze",), ("alt",), ("rng",)],
}

PLOTS = {
    "metrics.plot_common_MTFs": [("metrics",), ("c", [0.0, 0.7, 1.5])],
    "metrics.plot_noise_terms": [("metrics",), ("c", [0, 100, 500])],
    "obj.show": [("ref",)],
}

HEAVY = {"metrics.niirs", "metrics.niirs5", "simulation.simulate_image", "otf.filter_OTF", "radiance.reflectance_to_photoelectrons", "otf.common_OTFs",
         "otf.polychromatic_turbulence_OTF", "utils.load_database_atmosphere"}
NEEDS_CV = {"otf.otf_to_psf", "otf.apply_otf_to_image", "otf.resample_2D", "simulation.simulate_image"}
NOISY = {"simulation.simulate_image"}
FAMILIES = {
    "otf": [o for o in OPS if o.startswith("otf.")],
    "radiance": [o for o in OPS if o.startswith("radiance.")],
    "metrics": [o for o in OPS if o.startswith("metrics.")],
    "db": ["utils.load_database_atmosphere_no_interp", "utils.load_database_atmosphere", "obj.atm"],
    "sim": [o for o in OPS if o.startswith("simulation.") or o.startswith("obj.")],
    "misc": [o for o in OPS if o.split(".")[0] in ("noise", "geospatial", "utils")],
}


def resolve(op):
    """The callable behind an operation name."""
    mod, name = op.split(".")
    if mod == "obj":
        return {
            "atm": lambda sc: sc.atm,
            "estimate": lambda r, alt: r.estimate_capture_parameters(alt),
            "refimage": _refimage,
            "sensor": _sensor,
            "scenario": _scenario,
            "show": lambda r: r.show(),
            "same": lambda x: x,
        }[name]
    import importlib

    m = importlib.import_module("pybsm." + mod)
    f = getattr(m, name, None)
    if f is None:
        f = getattr(m.functional, name)
    return f


def _refimage(img, gsd, _):
    import pybsm.simulation as ps

    return ps.RefImage(img, gsd)


def _scenario(ihaze, altitude, ground_range):
    import pybsm.simulation as ps

    return ps.Scenario("made", ihaze, altitude, ground_range)


def _sensor(band, D, f, p):
    import pybsm.simulation as ps

    return ps.Sensor("made", D, f, p, band)


def too_big(op, args):
    """An image simulation whose output would take minutes (a coarse image seen from close by)."""
    if op != "simulation.simulate_image":
        return False
    ref, sn, sc = args
    try:
        see = (sc.altitude**2 + sc.ground_range**2) ** 0.5 * (sn.p_x + sn.p_y) / 2 / sn.f
        return not np.asarray(ref.img).size * (ref.gsd / see) ** 2 < 3e4
    except (AttributeError, TypeError, ZeroDivisionError):
        return False


# ------------------------------------------------------------------ objects

BANDS = [
    [5.8e-7, 6.0e-7, 6.4e-7],
    [5.8e-7, 7.2e-7],
    [4.5e-7, 5.0e-7, 5.5e-7, 5.8e-7],
    [3.7e-6, 3.8e-6, 3.95e-6],
    [8.0e-6, 8.1e-6],
]
# realistic values (range) of sensor attributes, besides the band
SENSOR_RANGES = {
    "D": (0.1, 0.5), "f": (1.0, 5.0), "p_x": (8e-6, 3e-5), "p_y": (8e-6, 3e-5), "w_x": (8e-6, 3e-5), "w_y": (8e-6, 3e-5),
    "eta": (0.05, 0.5), "int_time": (1e-3, 0.05), "dark_current": (0, 200), "other_irradiance": (0, 1e-3), "read_noise": (0, 60),
    "max_n": (2e4, 2e5), "max_well_fill": (0.4, 0.95), "bit_depth": (8, 14), "n_tdi": (1, 4), "cold_shield_temperature": (60, 250),
    "optics_temperature": (250, 310), "optics_emissivity": (0.01, 0.2), "cold_filter_transmission": (0.5, 1.0),
    "cold_filter_temperature": (60, 200), "cold_filter_emissivity": (0.01, 0.2), "s_x": (1e-7, 1e-5), "s_y": (1e-7, 1e-5),
    "da_x": (1e-6, 3e-4), "da_y": (1e-6, 3e-4), "pv": (0.01, 0.3), "pv_wavelength": (5e-7, 7e-7), "L_x": (0.05, 0.4), "L_y": (0.05, 0.4),
    "frame_stacks": (1, 6),
}
SCEN_RANGES = {
    "aircraft_speed": (0, 150), "target_reflectance": (0.05, 0.5), "target_temperature": (270, 320), "background_reflectance": (0.02, 0.3),
    "background_temperature": (270, 320), "ha_wind_speed": (5, 40), "cn2_at_1m": (1e-15, 5e-14),
}
ALTS = [2, 75, 150, 225, 500, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 11000, 12000, 14000, 16000, 18000, 20000, 24500]
RNGS = [0, 100, 500, 1000, 2000, 3000, 5000, 8000, 10000, 15000, 20000, 24000, 40000, 60000]


TINY = [1e-4, 1e-5, 1e-6, 1e-7]


def near(rng, x):
    """A value close to x: what coarse keys, rounding and tolerances confuse."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    k = rng.random()
    if isinstance(x, int):
        return x + rng.choice([-1, 1, 2]) if x > 1 else x + 1
    if k < 0.35:
        return x * (1 + rng.choice([-1, 1]) * rng.choice(TINY)) if x else 1e-9
    if k < 0.7:
        return x * (1 + rng.choice([-1, 1]) * 0.01) if x else 1e-6
    return x * rng.choice([0.8, 1.25])


def draw_alt(rng):
    return rng.choice(ALTS[5:20]) if rng.random() < 0.8 else rng.choice(ALTS)


def draw_sensor(rng, band=None):
    band = rng.randrange(len(BANDS)) if band is None else band
    attrs = {
        "D": draw(rng, 0.2, 0.4), "f": draw(rng, 2, 5), "p_x": draw(rng, 1e-5, 2.5e-5), "int_time": draw(rng, 2e-3, 0.04),
        "max_n": int(draw(rng, 3e4, 2e5)), "bit_depth": rng.choice([8, 10, 12, 11.9]), "read_noise": draw(rng, 0, 60),
        "dark_current": draw(rng, 0, 200), "s_x": draw(rng, 1e-7, 8e-6), "s_y": draw(rng, 1e-7, 8e-6), "da_x": draw(rng, 1e-6, 2e-4),
        "da_y": draw(rng, 1e-6, 2e-4), "pv": draw(rng, 0.01, 0.2), "max_well_fill": draw(rng, 0.5, 0.9), "eta": rng.choice([0.0, 0.2, 0.4]),
        "optics_emissivity": draw(rng, 0.01, 0.1), "n_tdi": rng.choice([1.0, 2.0, 1.0]),
    }
    d = {"k": "sensor", "name": rng.choice(["cam", "wide-angle camera no. 12 (visible, \u00e9t\u00e9)", "ir"]), "band": band, "a": attrs}
    if rng.random() < 0.5:
        d["kern"] = draw_arr(rng, "kern", 3)["p"]
    if rng.random() < 0.5:
        d["qe"] = draw(rng, 0.3, 0.9)
    if rng.random() < 0.3:
        d["a"]["frame_stacks"] = rng.randrange(1, 5)
    if rng.random() < 0.25:
        # measured curves: long, or on the very wavelengths the atmosphere has, or different ones for the detector
        d["curve"] = [rng.choice(["grid", "grid", "lin"]), rng.choice([3, 20, 40])]
        d["qe"] = draw(rng, 0.3, 0.9)
    return d


def curve(desc):
    """The wavelengths a sensor's curves are given at."""
    w = np.array(BANDS[desc["band"]])
    kind, n = desc.get("curve") or (None, 0)
    if kind == "lin":
        return np.linspace(w[0], w[-1], n)
    if kind == "grid":
        g = 1e-6 * np.linspace(0.3, 14.0, 1371)
        return g[(g >= w[0] * (1 - 1e-9)) & (g <= w[-1] * (1 + 1e-9) + n * 1e-9)].copy()
    return w


def wavy(n, level):
    return np.clip(level * (1.0 + 0.2 * np.sin(1.0 + 1.3 * np.arange(n))), 0.0, 1.0)


def draw_scenario(rng, interp=None, grid=True):
    interp = (rng.random() < 0.3) if interp is None else interp
    alt, gr = draw_alt(rng), rng.choice(RNGS)
    if interp and rng.random() < 0.7:
        alt, gr = alt if alt >= 1000 else 1000, gr
        alt = min(20000, alt) * rng.choice([0.93, 0.97, 1])
        gr = gr + rng.choice([0, 250.0, 37.5])
    d = {"k": "scen", "name": rng.choice(["scene", "a scene with a rather long name / 2026", "site"]), "ihaze": rng.choice([1, 2]), "altitude": alt, "ground_range": gr, "interp": interp, "a": {}}
    for k in SCEN_RANGES:
        if rng.random() < 0.4:
            d["a"][k] = draw(rng, *SCEN_RANGES[k])
    if rng.random() < 0.15:
        d["a"]["cn2_at_1m"] = 0
    return d


def draw_ref(rng):
    d = {"k": "ref", "img": draw_arr(rng, rng.choice(["img", "img", "img8", "img8", "rgb"]), rng.choice([20, 24, 28]) if rng.random() < 0.85 else rng.choice([40, 72])), "gsd": draw(rng, 0.05, 0.3), "name": rng.choice(["ref", "view of the harbour, second pass"])}
    if rng.random() < 0.4:
        d["pix"] = [10.0, draw(rng, 200, 250)]
        d["refl"] = [0.05, draw(rng, 0.5, 0.95)]
    if rng.random() < 0.15:
        d["img"]["v"] = rng.choice(["F", "ro", "f4"])
    return d


def make(desc):
    """Concrete object from a heap descriptor."""
    k = desc["k"]
    if k in ("sensor", "scen", "ref"):
        import pybsm.simulation as ps
    if k == "sensor":
        at = dict(desc["a"])
        fs = at.pop("frame_stacks", None)
        wl = curve(desc)
        sn = ps.Sensor(desc["name"], at.pop("D"), at.pop("f"), at.pop("p_x"), wl, **at)
        if fs is not None:
            sn.frame_stacks = fs
        if "kern" in desc:
            sn.filter_kernel = make_array("kern", 3, desc["kern"])
        if "qe" in desc:
            sn.qe = wavy(len(wl), desc["qe"])
            sn.optics_transmission = 0.5 * np.ones(len(wl))
            if desc.get("curve") and desc["curve"][1] == 20:
                sn.qe_wavelengths = np.linspace(wl[0], wl[-1], 23)
                sn.qe = wavy(23, desc["qe"])
        return sn
    if k == "scen":
        sc = ps.Scenario(desc["name"], num(desc["ihaze"]), num(desc["altitude"]), num(desc["ground_range"]), interp=desc["interp"], **desc["a"])
        try:
            sc._dst_interp = desc["interp"]
        except AttributeError:
            pass
        return sc
    if k == "ref":
        img = flavoured(make_array(desc["img"]["k"], desc["img"]["n"], desc["img"]["p"]), desc["img"].get("v"))
        if "pix" in desc:
            return ps.RefImage(img, desc["gsd"], np.array(desc["pix"]), np.array(desc["refl"]), name=desc["name"])
        return ps.RefImage(img, desc["gsd"], name=desc["name"])
    return flavoured(make_array(k, desc["n"], desc["p"]), desc.get("v"))


def flavoured(arr, v):
    """The same values in another memory layout or precision, or as an array nobody may write to."""
    if v == "F":
        return np.asfortranarray(arr)
    if v == "f4" and arr.dtype == np.float64:
        return arr.astype(np.float32)
    if v == "ro":
        arr.flags.writeable = False
    return arr


def num(x):
    """JSON number, or {"np": [dtype, value]}."""
    if isinstance(x, dict) and "np" in x:
        return np.dtype(x["np"][0]).type(x["np"][1])
    return x


# ------------------------------------------------------------------ plan building


class Builder:
    """Draws a sequence of steps over a shared heap."""

    def __init__(self, rng, sizes=None):
        self.rng = rng
        self.steps = []
        self.sz = sizes or {}
        self.sz.setdefault("n", rng.choice([5, 8, 9, 12]))
        self.sz.setdefault("m", rng.choice([2, 3, 4, 5]))
        self.sz.setdefault("q", rng.choice([20, 33, 50]))
        self.sz.setdefault("g", rng.choice([33, 41]))
        self.sz.setdefault("p", rng.choice([14, 20]) if rng.random() < 0.9 else rng.choice([40, 64]))
        self.sz.setdefault("k", 3)
        self.sz.setdefault("1", 1)
        self.arrs = {}  # (kind, size) -> names
        self.desc = {}
        self.objs = {"sensor": [], "scen": [], "ref": [], "metrics": []}
        self.calls = []
        self.count = 0

    def name(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    def new(self, desc, name=None):
        kind = desc["k"]
        pre = {"sensor": "S", "scen": "C", "ref": "I"}.get(kind, "A")
        nm = name or self.name(pre)
        self.steps.append(["new", nm, desc])
        self.desc[nm] = desc
        if kind in self.objs:
            self.objs[kind].append(nm)
        else:
            self.arrs.setdefault((kind, desc["n"]), []).append(nm)
        return nm

    def obj(self, kind, fresh=0.1):
        r = self.rng
        if not self.objs[kind] or r.random() < fresh:
            return self.new({"sensor": draw_sensor, "scen": draw_scenario, "ref": draw_ref}[kind](r))
        return r.choice(self.objs[kind])

    def arr(self, kind, size, fresh=0.25):
        n = self.sz[size]
        have = self.arrs.get((kind, n))
        if have and self.rng.random() > fresh:
            return self.rng.choice(have)
        d = draw_arr(self.rng, kind, n)
        if self.rng.random() < 0.12:
            d["v"] = self.rng.choice(["F", "ro", "ro", "f4"])
        return self.new(d)

    def arg(self, role, ctx):
        r = self.rng
        t = role[0]
        if t == "s":
            return draw(r, role[1], role[2])
        if t == "i":
            return r.randrange(role[1], role[2] + 1)
        if t == "c":
            return r.choice(role[1])
        if t == "a":
            if role[1] in ("U", "V"):
                # pairs of one extent, so both have one shape
                return {"o": self.arr(role[1], role[2])}
            if role[1] == "atm":
                return {"o": self.arr("atm", role[2])}
            return {"o": self.arr(role[1], role[2])}
        if t == "fn":
            return {"f": [r.choice(["identity", "affine", "square", "grid"]), [draw(r, 0.5, 2), draw(r, 1e5, 1e6)]]}
        if t in ("sensor", "scen", "ref"):
            return {"o": self.obj(t)}
        if t == "alt":
            return draw_alt(r)
        if t == "rng":
            return r.choice(RNGS)
        if t == "altf":
            return r.choice([1000, 2000, 4000.0, 5500.0, 11000.0, 13000, 19999.5, draw(r, 1000, 20000)])
        if t == "rngf":
            return r.choice([0, 500, 2000, 750.0, 20000.0, 21000.0, 79000, draw(r, 0, 60000)])
        if t == "haze":
            return r.choice([1, 2])
        if t == "bandarr":
            return {"o": self.arr("wl", "m")}
        if t == "atm4":
            return {"r": [self.call("obj.atm", [{"o": self.obj("scen")}])]}
        if t == "metrics":
            if not self.objs["metrics"] or r.random() < 0.2:
                self.objs["metrics"].append(self.call(r.choice(["metrics.niirs", "metrics.niirs5"]), None))
            return {"r": [r.choice(self.objs["metrics"])]}
        raise ValueError(role)

    def call(self, op, args=None, **opts):
        if args is None:
            args = [self.arg(role, None) for role in (OPS.get(op) or PLOTS[op])]
        if op == "simulation.simulate_image":
            self.fit(*[x.get("o") for x in args])
        cid = self.name("R")
        self.steps.append(["call", cid, op, args, opts])
        self.calls.append((cid, op, args))
        return cid

    def fit(self, ref, sn, sc):
        """Give the reference image a sample distance that suits the sensor."""
        r, d, c = self.desc.get(ref), self.desc.get(sn), self.desc.get(sc)
        if not (r and d and c) or r["k"] != "ref":
            return
        see = (num(c["altitude"]) ** 2 + num(c["ground_range"]) ** 2) ** 0.5 * d["a"]["p_x"] / d["a"]["f"]
        if not 0.15 < r["gsd"] / see < 3:
            r["gsd"] = float("%.4g" % (see * self.rng.choice([0.3, 0.5, 0.8, 1.3, 2.0])))
            self.steps.append(["set", ref, "gsd", r["gsd"]])

    # ---- changes made by the caller between calls
    def change_array(self, nm, key=None):
        """In-place edit of part of an array."""
        r = self.rng
        if r.random() < 0.25:
            # the same values in another order: what sums, extremes and shapes cannot tell apart
            self.steps.append(["mix", nm, key, r.choice(["T", "T", "rev", "roll"])])
        else:
            self.steps.append(["edit", nm, key, r.random(), r.choice([1 + r.choice(TINY), 1.01, 1.3])])

    def set_attr(self, nm):
        r = self.rng
        kind = self.desc[nm]["k"]
        if kind == "sensor":
            if r.random() < 0.06:
                self.steps.append(["mix", nm, r.choice(["filter_kernel", "qe", "optics_transmission"]), r.choice(["T", "rev", "roll"])])
                return
            if r.random() < 0.15:
                self.steps.append(["edit", nm, r.choice(["qe", "optics_transmission", "opt_trans_wavelengths", "filter_kernel", "other_noise"]), r.random(), r.choice([1 + r.choice(TINY), 0.99, 0.7])])
                return
            if r.random() < 0.1:
                self.steps.append(["setarr", nm, "qe_opt", draw(r, 0.3, 0.9)])
                return
            at = r.choice(list(SENSOR_RANGES))
            lo, hi = SENSOR_RANGES[at]
            if r.random() < 0.5:
                self.steps.append(["scale", nm, at, r.choice([1 + r.choice(TINY), 1.01, 1.2, 0.9])])
            else:
                v = draw(r, lo, hi)
                self.steps.append(["set", nm, at, int(round(v)) if at in ("frame_stacks",) else v])
        elif kind == "scen":
            at = r.choice(list(SCEN_RANGES) + ["altitude", "ground_range", "ihaze"] * 2)
            if at == "altitude":
                v = draw_alt(r)
            elif at == "ground_range":
                v = r.choice(RNGS)
            elif at == "ihaze":
                v = r.choice([1, 2])
            elif r.random() < 0.5:
                self.steps.append(["scale", nm, at, r.choice([1 + r.choice(TINY), 1.01, 1.2, 0.9])])
                return
            else:
                v = draw(r, *SCEN_RANGES[at])
            self.steps.append(["set", nm, at, v])
        elif kind == "ref":
            k = r.random()
            if k < 0.1:
                self.steps.append(["mix", nm, "img", r.choice(["rev", "roll"])])
            elif k < 0.4:
                self.steps.append(["edit", nm, r.choice(["img", "refl_values", "pix_values"]), r.random(), r.choice([1 + r.choice(TINY), 1.01, 1.1, 0.9])])
            else:
                self.steps.append(["scale", nm, "gsd", r.choice([1 + r.choice(TINY), 1.01, 1.1])])
        else:
            self.change_array(nm)

    def near_repeat(self, prev=None):
        """A call like an earlier one, with exactly one thing different."""
        r = self.rng
        cid, op, args = prev or r.choice(self.calls)
        args = [dict(x) if isinstance(x, dict) else x for x in args]
        i = r.randrange(len(args))
        x = args[i]
        role = (OPS.get(op) or PLOTS[op])[i]
        if isinstance(x, dict) and "o" in x:
            nm = x["o"]
            k = self.desc[nm]["k"]
            if k in ("sensor", "scen", "ref"):
                if r.random() < 0.75:
                    self.set_attr(nm)
                else:
                    args[i] = {"o": self.obj(k, fresh=0.5)}
            elif r.random() < 0.5:
                self.change_array(nm)
            elif r.random() < 0.5:
                d = dict(self.desc[nm])
                d["p"] = [near(r, p) for p in d["p"]] if k not in ("kern", "atm") else draw_arr(r, k, d["n"])["p"]
                args[i] = {"o": self.new(d)}
            else:
                # same name, a new array in its place: the old one's address is free for reuse
                d = draw_arr(r, k, self.desc[nm]["n"])
                self.steps.append(["new", nm, d])
                self.desc[nm] = d
        elif role[0] in ("s",) and isinstance(x, (int, float)):
            args[i] = near(r, x)
        elif role[0] in ("altf", "rngf") and isinstance(x, (int, float)):
            args[i] = x - 0.5 if x > 2000 else self.arg(role, None)
        else:
            args[i] = self.arg(role, None)
        return self.call(op, args)
