"""C08: simulated noise follows the sensor's noise model, over random streams."""
import math

import numpy as np

from .. import machine, ops, values
from ..machine import Found

RULE = (
    "One run = one sensor, scenario and reference image in one of eight noise regimes (photon, low light, faint light, full well, read noise, quantisation, none but photon, mixed) and 8-30 frames drawn from "
    "seeded or continued random streams, with parameter changes, other calls and failed simulations in between; the residuals of all frames are tested at seven standard deviations against "
    "the moments the noise model gives (mean, variance overall and by brightness, third and fourth moment, empty pixels, row and column sums, correlation between pixels at every distance and between frames). "
    "Non-trivial: at least one frame was simulated; distinct: by digest of all outcomes."
)
MEASURE = "distinct (regime, pixel-count magnitude, frames) triples"
TIERS = {"quick": {"runs": 240, "seconds": 150, "need": 60}, "thorough": {"runs": 30000, "seconds": 600, "need": 60}}
REQUIRED = ["frames", "whole frames", "pixels"]
SIM = "simulation.simulate_image"
LIGHT = [o for o in ops.OPS if o not in ops.HEAVY]
REGIMES = ["photon", "dark", "read", "quant", "pure", "mixed", "faint", "full"]
LIMIT = 7.0


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": 5})
    reg = REGIMES[i % len(REGIMES)]
    n = rng.choice([36, 44, 52])
    flat = rng.random() < 0.33
    d = {"k": "ref", "img": {"k": "imgflat", "n": n, "p": [rng.choice([90.0, 200.0])]} if flat else ops.draw_arr(rng, "img", n), "gsd": 0.1, "name": "ref"}
    if flat or rng.random() < 0.3:
        d["pix"], d["refl"] = [10.0, 240.0], [0.05, 0.8]
    if reg == "full":
        d["pix"], d["refl"] = [0.0, 255.0], [0.0, 1.0]
        if flat:
            d["img"]["p"] = [rng.choice([250.0, 254.0])]
    r = b.new(d)
    d = ops.draw_sensor(rng)
    d["a"].update(max_n=int(rng.choice([2e4, 5e4, 2e5])), bit_depth=rng.choice([8, 10, 12, 11.9]), n_tdi=rng.choice([1.0, 2.0, 4.0]))
    lam = {"photon": 3000.0, "dark": 1.5, "read": 50.0, "quant": 400.0, "pure": rng.choice([1.0, 8.0, 500.0]), "mixed": 100.0, "faint": 0.2, "full": 20000.0}[reg] * rng.choice([0.5, 1.0, 2.0])
    a = d["a"]
    if reg == "full":
        a["max_n"], a["bit_depth"], a["read_noise"] = 20000, rng.choice([6, 10, 12, 16]), ops.draw(rng, 0, 100)
    elif reg == "faint":
        a["read_noise"], a["bit_depth"] = 0.0, rng.choice([22, 40])
    elif reg in ("photon", "dark"):
        a["read_noise"], a["bit_depth"], a["max_n"] = 0.0, 16, 20000
    elif reg == "read":
        a["read_noise"], a["bit_depth"] = ops.draw(rng, 10, 300), 14
    elif reg == "quant":
        a["read_noise"], a["bit_depth"] = rng.choice([0.0, 1.0]), rng.choice([4, 5, 6, 7.5])
    elif reg == "pure":
        a["read_noise"], a["bit_depth"] = 0.0, 200.0
    else:
        q = a["max_n"] / math.sqrt(12) / (2 ** a["bit_depth"] - 1)
        a["read_noise"] = float("%.4g" % max(3.0, q))
    if rng.random() < 0.3:
        d["a"]["frame_stacks"] = rng.choice([2, 8])
    s = b.new(d)
    c = ops.draw_scenario(rng)
    c["altitude"] = max(c["altitude"], 1000)
    if c["interp"]:
        c["altitude"], c["ground_range"] = 3000, 5000
    c = b.new(c)
    b.steps.append(["fit", r, s, c, rng.choice([0.4, 0.7, 1.0, 1.3])])
    b.steps.append(["light", r, s, c, lam])
    left = rng.choice([8, 10, 12, 12, 30])
    while left > 0:
        k = min(left, rng.choice([1, 2, 4, 6]))
        left -= k
        b.steps.append(["frames", r, s, c, k, rng.choice([None, rng.randrange(10000), "each"])])
        x = rng.random()
        if x < 0.25:
            b.call(rng.choice(LIGHT))
        elif x < 0.4:
            b.steps.append(["frames", r, s, c, 1, None, {"kind": "site", "exc": "MemoryError", "frac": rng.random()}])
        elif x < 0.55 and reg in ("read", "mixed"):
            b.steps.append(["scale", s, "read_noise", rng.choice([0.5, 1.5, 2.0])])
        elif x < 0.7 and reg in ("quant",):
            b.steps.append(["scale", s, "bit_depth", 1.0] if rng.random() < 0 else ["set", s, "bit_depth", rng.choice([3, 4, 5, 6])])
    return {"steps": b.steps, "reg": reg}


class M(machine.Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.frames = []

    def fail(self, what, text):
        raise Found("noise:%s" % what, text)

    def step(self, st):
        if st[0] == "fit":
            r, s, c = (self.get(x) for x in st[1:4])
            r.gsd = (c.altitude**2 + c.ground_range**2) ** 0.5 * (s.p_x + s.p_y) / 2 / s.f * st[4]
            self.expect[st[1]] = values.canon(r)
        elif st[0] == "light":
            r, s, c = (self.get(x) for x in st[1:4])
            out = self.invoke(SIM, [r, s, c])
            if out[0] == "ok":
                m = float(np.mean(out[1][1]))
                if m > 0:
                    s.int_time = s.int_time * st[4] / m
                self.expect[st[2]] = values.canon(s)
        elif st[0] == "frames":
            self.shoot(*st[1:])
        else:
            super().step(st)

    def shoot(self, r, s, c, k, seed, fault=None):
        r, s, c = self.get(r), self.get(s), self.get(c)
        if ops.too_big(SIM, [r, s, c]):
            raise machine.Skip
        for j in range(k):
            if seed == "each":
                np.random.seed(1000 * len(self.frames) + j)
            elif seed is not None and j == 0:
                np.random.seed(seed)
            if fault:
                from .. import sim

                inj = sim.Injector(self.ctx.pkg, dict(fault, at=1 + int(fault["frac"] * 900)))
                with inj:
                    out = self.invoke(SIM, [r, s, c])
                if inj.fired:
                    self.st["fault:site " + fault["exc"]] += 1
                    continue
            else:
                out = self.invoke(SIM, [r, s, c])
            self.st["calls"] += 1
            self.st["op:" + SIM] += 1
            self.st["ok" if out[0] == "ok" else "raised"] += 1
            if out[0] != "ok":
                self.ctx.log(("raised", type(out[1]).__name__))
                continue
            blur, noisy = np.asarray(out[1][1], float), np.asarray(out[1][2], float)
            self.ctx.log(values.digest(noisy))
            if blur.shape != noisy.shape or not np.isfinite(noisy).all():
                self.fail("shape", "the noisy image is not finite or not of the blurred image's shape")
            var = s.read_noise**2 + (s.max_n / math.sqrt(12) / (2**s.bit_depth - 1)) ** 2
            if s.read_noise == 0 and s.bit_depth >= 100:
                self.st["whole frames"] += 1
                if (np.abs(noisy - np.round(noisy)) > 1e-9).any() or (noisy < -1e-9).any():
                    self.fail("whole", "a sensor without read and quantisation noise gives fractional or negative counts (%r)" % float(noisy.ravel()[np.argmax(np.abs(noisy - np.round(noisy)))]))
            self.frames.append((blur, noisy, var))
            self.st["frames"] += 1

    def verdict(self, reg):
        fr = [f for f in self.frames if f[0].size]
        if not fr:
            return
        Z, L, V = [], [], []
        cn, cv, tn, tv = 0.0, 0, 0.0, 0
        prev = None
        every = {}
        raw = np.zeros((2, 2))
        faint = np.zeros((2, 2))
        lines, linev = np.zeros(2), np.zeros(2)
        for blur, noisy, g in fr:
            var = np.maximum(blur + g, 1e-12)
            ok = (blur >= 0.3) | ((g > 1) & (blur >= 0))
            z = np.where(ok, (noisy - blur) / np.sqrt(var), 0.0)
            Z.append(z[ok])
            L.append(blur[ok])
            V.append(var[ok])
            # photo-electrons as they are, faint pixels included
            d, v = noisy - blur, np.maximum(blur, 0.0) + g
            for acc, m in ((raw, blur >= 0), (faint, (blur >= 0) & (blur < 0.7))):
                acc += [[d[m].sum(), v[m].sum()], [(d[m] ** 2 - v[m]).sum(), (2 * v[m] ** 2 + np.maximum(blur[m], 0.0)).sum()]]
            k = np.where(ok, np.maximum(blur, 0.0) / var**2, 0.0)
            for ax in (0, 1):
                c = ok.sum(axis=ax)
                use = c >= 8
                c = np.maximum(c, 1)
                lines[ax] += (z.sum(axis=ax) ** 2 / c - 1)[use].sum()
                linev[ax] += (2 + k.sum(axis=ax) / c**2)[use].sum()
            for ax in (0, 1):
                a, b = (z[1:], z[:-1]) if ax == 0 else (z[:, 1:], z[:, :-1])
                both = (ok[1:] & ok[:-1]) if ax == 0 else (ok[:, 1:] & ok[:, :-1])
                cn += float((a * b).sum())
                cv += int(both.sum())
            if prev is not None and prev[0].shape == z.shape:
                tn += float((prev[0] * z).sum())
                tv += int((prev[1] & ok).sum())
            prev = (z, ok)
            every.setdefault(z.shape, []).append((z, ok))
        Z, L, V = map(np.concatenate, (Z, L, V))
        n = sum(f[0].size for f in fr)
        self.st["pixels"] += n
        self.st["nontrivial"] += 1
        self.ctx.states.add("%s|%d|%d" % (reg, int(math.log10(np.mean(fr[0][0]) + 1e-9) * 2), len(fr)))
        if n < 3000:
            return
        text = "%d pixels of %d frames (%s regime, mean count %.4g, Gaussian variance %.4g): " % (n, len(fr), reg, np.mean([f[0].mean() for f in fr]), fr[-1][2])
        k4 = L / V**2  # excess kurtosis
        k3 = L / V**1.5

        def test(what, total, variance, msg):
            t = total / math.sqrt(variance)
            if not abs(t) < LIMIT:
                self.fail(what, text + msg + " (%.1f standard deviations)" % t)

        if Z.size >= 3000:
            test("mean", Z.sum(), Z.size, "the mean is off by %.4g sigma" % Z.mean())
            test("variance", (Z**2 - 1).sum(), (2 + k4).sum(), "the variance is %.4f times what it should be" % (Z**2).mean())
            edges = np.quantile(L, [0, 0.34, 0.67, 1])
            for lo, hi in zip(edges[:-1], edges[1:]):
                m = (L >= lo) & (L <= hi)
                if m.sum() > 1000:
                    test("variance by brightness", (Z[m] ** 2 - 1).sum(), (2 + k4[m]).sum(), "the variance at counts %.3g to %.3g is %.4f times what it should be" % (lo, hi, (Z[m] ** 2).mean()))
                    test("mean by brightness", Z[m].sum(), m.sum(), "the mean at counts %.3g to %.3g is off by %.4g sigma" % (lo, hi, Z[m].mean()))
            if L.min() >= 0.5 or k4.max() < 1:
                # bounds on the sampling variance of the higher moments, generous for skewed counts
                test("skewness", (Z**3 - k3).sum(), (15 + 60 * k4 + 30 * k4**2 + 30 * k3**2).sum(), "the third moment is %.4g instead of %.4g" % ((Z**3).mean(), k3.mean()))
                test("kurtosis", (Z**4 - 3 - k4).sum(), (96 + 1000 * k4 + 2000 * k4**2 + 500 * k4**3).sum(), "the fourth moment is %.4g instead of %.4g" % ((Z**4).mean(), 3 + k4.mean()))
        for name, acc in (("all", raw), ("faint", faint)):
            if acc[0, 1] > 100:
                test("mean, %s" % name, acc[0, 0], acc[0, 1], "the sum of the residuals of the %s pixels is %.5g" % (name, acc[0, 0]))
                test("variance, %s" % name, acc[1, 0], acc[1, 1], "the squared residuals of the %s pixels sum to %.5g too much" % (name, acc[1, 0]))
        for ax in (0, 1):
            if linev[ax] > 200:
                test("lines", lines[ax], linev[ax], "the noise of a whole %s does not average out (squared sums off by %.4g of %.4g)" % (("column", "row")[ax], lines[ax], linev[ax] / 2))
        if cv:
            test("neighbours", cn, cv, "neighbouring pixels are correlated (%.4f)" % (cn / cv))
        if tv:
            test("frames", tn, tv, "successive frames are correlated (%.4f)" % (tn / tv))
        # correlation at every distance within a frame, and between every two frames
        for shape, fs in every.items():
            big = (2 * shape[0], 2 * shape[1])
            num, cnt = np.zeros(big), np.zeros(big)
            for z, ok in fs:
                num += np.fft.irfft2(np.abs(np.fft.rfft2(z, big)) ** 2, big)
                cnt += np.fft.irfft2(np.abs(np.fft.rfft2(ok.astype(float), big)) ** 2, big)
            num[0, 0] = 0.0
            use = cnt > 500
            t = np.where(use, num / np.sqrt(np.maximum(cnt, 1.0)), 0.0)
            k = np.unravel_index(np.argmax(np.abs(t)), big)
            self.st["distances"] += int(use.sum())
            if abs(t[k]) > LIMIT + 1.5:
                d = [int(x if x < n else x - 2 * n) for x, n in zip(k, shape)]
                self.fail("distance", text + "pixels %d rows and %d columns apart are correlated (%.4f, %.1f standard deviations)" % (d[0], d[1], num[k] / cnt[k], t[k]))
            M, O = np.array([z.ravel() for z, _ in fs]), np.array([ok.ravel() for _, ok in fs], float)
            G, N = M @ M.T, O @ O.T
            np.fill_diagonal(G, 0.0)
            t = np.where(N > 500, G / np.sqrt(np.maximum(N, 1.0)), 0.0)
            a, b = np.unravel_index(np.argmax(np.abs(t)), t.shape)
            if abs(t[a, b]) > LIMIT + 1.0:
                self.fail("frame pair", text + "frames %d and %d are correlated (%.4f, %.1f standard deviations)" % (a, b, G[a, b] / N[a, b], t[a, b]))
        # pixels over all frames: fixed patterns
        shape = fr[0][0].shape
        same = [f for f in fr if f[0].shape == shape]
        if len(same) >= 4:
            z = sum((f[1] - f[0]) / np.sqrt(np.maximum(f[0] + f[2], 1e-12)) for f in same) / math.sqrt(len(same))
            good = np.all([(f[0] >= 0.3) | (f[2] > 1) for f in same], axis=0)
            if good.sum() > 200:
                x = z[good]
                test("fixed pattern", (x**2 - 1).sum(), 2 * x.size * 1.0 + ((k4.mean() if k4.size else 0.0) / len(same)) * x.size, "the frames share a fixed pattern (%.3f)" % (x**2).mean())
        zero = [(b, x) for b, x, g in fr if g < 1e-9]
        if zero:
            b = np.concatenate([a[0].ravel() for a in zero])
            x = np.concatenate([a[1].ravel() for a in zero])
            m = (b >= 0) & (b < 12)
            p = np.exp(-b[m])
            if m.sum() and (p * (1 - p)).sum() > 50:
                test("empty pixels", ((np.abs(x[m]) < 1e-6) - p).sum(), (p * (1 - p)).sum(), "%.4f of the pixels are empty instead of %.4f" % ((np.abs(x[m]) < 1e-6).mean(), p.mean()))


def run(plan, ctx):
    m = M(ctx, stability=False)
    for i, st in enumerate(plan["steps"]):
        ctx.where = i
        ctx.tick()
        try:
            m.step(st)
        except machine.Skip:
            ctx.stats["skipped"] += 1
    m.verdict(plan["reg"])
