"""The simulated atmosphere database and the reference model of how it must be read.

The repository's *.bin files are Git LFS pointers, so the disk under the
simulation carries a synthetic database with the real layout (1371 x 5
float32, column major, radiances in W/(sr cm^2 um)) and the repository's real
fileDecoder.csv.  Every file has different contents, so whatever a load
returns can be attributed to the files it came from.

The model below does not use any pyBSM code.
"""
import csv
import math
import os

import numpy as np

NW = 1371
_W = np.array([0.3 + (14.0 - 0.3) * k / (NW - 1) for k in range(NW)])


def _planck(T):
    x = 14387.77 / (_W * T)
    s = 1.0 / (_W**5 * np.expm1(np.minimum(x, 600.0)))
    return s / s.max()


_TH, _SO = _planck(285.0), _planck(5800.0)
_WAVE = np.sin(_W * 1.7), np.cos(_W * 0.9)


def raw(i):
    """Contents of file i as a (1371, 5) float32 array, as stored."""
    f = [math.fmod(i * g, 1.0) for g in (0.6180339887, 0.7548776662, 0.5698402910, 0.8191725134, 0.6710436067)]
    a = np.empty((NW, 5), np.float64)
    a[:, 0] = np.exp(-(0.03 + 0.5 * f[0]) * (1.0 + 0.6 * _WAVE[0] * f[1] + 0.3 * _WAVE[1]))
    a[:, 1] = 8e-4 * (0.1 + 0.6 * f[1]) * (_TH + 1e-6)
    a[:, 2] = 8e-4 * (0.2 + 0.5 * f[2]) * (_TH + 1e-6)
    a[:, 3] = 3e-3 * (0.1 + 0.7 * f[3]) * (_SO + 1e-6) * (1.1 + _WAVE[1])
    a[:, 4] = 6e-3 * (0.2 + 0.8 * f[4]) * (_SO + 1e-6) * (1.2 + 0.2 * _WAVE[0])
    return a.astype(np.float32)


def raw_bytes(i):
    return np.ascontiguousarray(raw(i).T).tobytes()


def atm_of(i):
    a = raw(i).astype(np.float64)
    a[:, 1:] *= 1e10
    return np.hstack([(_W * 1e-6)[:, None], a])


class DB:
    """Reference model of the database: what a load must return."""

    def __init__(self, decoder_csv):
        self.rows = {}
        with open(decoder_csv, newline="") as f:
            rd = csv.reader(f)
            next(rd)
            for r in rd:
                if len(r) >= 4 and r[0].strip():
                    self.rows.setdefault((float(r[1]), float(r[2]), float(r[3])), int(r[0]))
        self.alts = sorted({k[0] for k in self.rows})
        self.rngs = sorted({k[1] for k in self.rows})
        self._c = {}

    def atm(self, i):
        if i not in self._c:
            self._c[i] = atm_of(i)
        return self._c[i]

    def index(self, alt, rng, haze):
        return self.rows.get((alt / 1000.0, rng / 1000.0, float(haze)))

    def corners(self, alt, rng, haze, interp):
        """[(index or None, weight)], or None when the request lies outside the grid."""
        if not interp:
            return [(self.index(alt, rng, haze), 1.0)]
        A = [a * 1000.0 for a in self.alts if a <= 20.0]
        G = [g * 1000.0 for g in self.rngs]

        def br(L, x):
            if not (L[0] <= x <= L[-1]):
                return None
            lo = max(a for a in L if a <= x)
            hi = min(a for a in L if a >= x)
            w = 0.0 if lo == hi else (x - lo) / (hi - lo)
            return [(lo, 1.0 - w)] + ([(hi, w)] if hi != lo else [])

        a, g = br(A, alt), br(G, rng)
        if a is None or g is None:
            return None
        # grid values are multiples of 0.5 m: undo the rounding of the km -> m conversion
        return [(self.index(round(x * 2) / 2, round(y * 2) / 2, haze), p * q) for y, q in g for x, p in a]

    def indices(self, alt, rng, haze, interp):
        c = self.corners(alt, rng, haze, interp)
        return [] if c is None else [i for i, _ in c if i is not None]

    def lookup(self, alt, rng, haze, interp):
        """("ok", array) | ("raise", None) | ("any", None: outside what the statement covers)."""
        try:
            if any(isinstance(x, float) and math.isnan(x) for x in (alt, rng)):
                return ("raise", None)
            if interp and alt > 20000 and alt <= 24500:
                return ("any", None)
            c = self.corners(alt, rng, haze, interp)
        except TypeError:
            return ("raise", None)
        if c is None or any(i is None for i, _ in c):
            return ("raise", None)
        out = 0.0
        for i, w in c:
            out = out + w * self.atm(i)
        return ("ok", out)


def same_atm(got, want, rtol=1e-5):
    return (
        isinstance(got, np.ndarray)
        and got.shape == want.shape
        and bool(np.allclose(got, want, rtol=rtol, atol=0.0))
    )


def identify(db, got):
    """Name the stored file a wrong answer equals, for reports."""
    if isinstance(got, np.ndarray) and got.shape == (NW, 6):
        for key, i in db.rows.items():
            a = db.atm(i)
            if abs(a[700, 5] - got[700, 5]) <= 1e-5 * a[700, 5] and same_atm(got, a):
                return "file %d (altitude %g km, ground range %g km, ihaze %g)" % ((i,) + key)
    return "no stored atmosphere"
