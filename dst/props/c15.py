"""C15: plots show the evaluated result and disturb nothing else."""
import io

import numpy as np

from .. import machine, ops, sim, values
from ..machine import Found

RULE = (
    "One run = one drawing session drawn from the seed: NIIRS results and reference images are plotted in any order and repeatedly, some attempts fail at a drawn line, among figures, selections, closings, "
    "plotting defaults and drawings of the caller's own and changes to the results; after every step each artist drawn is compared with the values of the result and every other artist, figure, result and image with what it was. "
    "Non-trivial: at least one plot completed; distinct: by digest of all steps and outcomes."
)
MEASURE = "distinct (plot, state of the session, outcome) triples"
TIERS = {"quick": {"runs": 400, "seconds": 150, "need": 60}, "thorough": {"runs": 60000, "seconds": 600, "need": 60}}
REQUIRED = ["plots", "repeats", "plots after failure", "fault:site MemoryError"]

CURVES = {
    "aperture": "ap_OTF", "turbulence": "turb_OTF", "detector": "det_OTF", "jitter": "jit_OTF", "drift": "drft_OTF", "wavefront": "wav_OTF",
    "image processing": "filter_OTF", "system": "system_OTF",
}
BARS = {
    "Total": "total_noise", "Scene": "scene_noise", "Path": "path_noise", "Emission / Stray": "self_emission_noise", "Dark Current": "dark_current_noise",
    "Quantization": "quantization_noise", "Readout": None,
}
ANGLES = [0.0, 0.3, 0.7, 1.5, np.pi / 2, 2.0, 3.0, -0.6, 4.4]
RC = [
    {"figure.figsize": [3.0, 2.2]}, {"figure.figsize": [9.0, 5.0]}, {"font.size": 14.0}, {"axes.xmargin": 0.2}, {"axes.grid": True}, {"lines.linewidth": 3.0},
    {"figure.autolayout": True}, {"image.cmap": "gray"}, {"image.origin": "lower"}, {"axes.facecolor": "0.9"}, {"axes.autolimit_mode": "round_numbers"}, {"legend.loc": "upper right"},
]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": 5})
    res = [b.call(rng.choice(["metrics.niirs", "metrics.niirs5"]))]
    if rng.random() < 0.6:
        if rng.random() < 0.6:
            b.set_attr(rng.choice(b.objs["sensor"] + b.objs["scen"]))
        res.append(b.call(rng.choice(["metrics.niirs", "metrics.niirs5"])))
    refs = []
    for _ in range(rng.choice([1, 2])):
        d = ops.draw_ref(rng)
        if rng.random() < 0.5:
            d["img"] = ops.draw_arr(rng, rng.choice(["rgb", "img", "img8"]), rng.choice([9, 16]))
        refs.append(b.new(d))
    plots = []
    for _ in range(rng.randrange(7, 13)):
        x = rng.random()
        if x < 0.5:
            op = rng.choice(list(ops.PLOTS))
            if plots and rng.random() < 0.3:
                p = rng.choice(plots)
            elif op == "obj.show":
                p = [op, [{"o": rng.choice(refs)}]]
            elif op == "metrics.plot_common_MTFs":
                p = [op, [{"r": [rng.choice(res)]}] + ([rng.choice(ANGLES)] if rng.random() < 0.8 else [])]
            else:
                p = [op, [{"r": [rng.choice(res)]}] + ([rng.choice([0, 100, 500, 7])] if rng.random() < 0.7 else [])]
            plots.append(p)
            f = {"kind": "site", "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"]), "frac": rng.random()} if rng.random() < 0.2 else None
            b.steps.append(["plot", p[0], p[1], f])
        elif x < 0.62:
            b.steps.append(["fig", rng.choice(["line", "grid", "image", "empty", "bars", "twin", "scatter"]), rng.random()])
        elif x < 0.68:
            b.steps.append(["select", rng.random(), rng.random()])
        elif x < 0.72:
            b.steps.append(["close", rng.choice([rng.random(), None])])
        elif x < 0.78:
            b.steps.append(["rc", rng.choice(RC)])
        elif x < 0.83:
            b.steps.append(["draw"])
        elif x < 0.86:
            b.steps.append(["ion", rng.random() < 0.5])
        elif x < 0.93:
            b.steps.append(["mut", rng.choice(res), rng.random(), rng.random()])
        elif x < 0.96:
            b.set_attr(rng.choice(refs))
        else:
            res.append(b.call(rng.choice(["metrics.niirs", "metrics.niirs5"])))
    b.steps.append(["draw"])
    return {"steps": b.steps}


# ------------------------------------------------------------------ what a figure shows


def look_axes(ax):
    def col(c):
        return np.asarray(c, float).tolist() if not isinstance(c, str) else c

    import matplotlib.colors as mc

    out = {
        "title": ax.get_title(), "x": ax.get_xlabel(), "y": ax.get_ylabel(), "lim": [float(v) for v in ax.get_xlim() + ax.get_ylim()],
        "lines": [(np.array(li.get_xdata(), float), np.array(li.get_ydata(), float), mc.to_hex(li.get_color()), float(li.get_linewidth()), li.get_linestyle()) for li in ax.lines],
        "images": [(np.array(im.get_array()), [float(v) for v in im.get_extent()]) for im in ax.images],
        "patches": [(np.array(p.get_path().vertices), np.array(p.get_transform().frozen().get_matrix()) if False else col(p.get_facecolor()), bar(p)) for p in ax.patches],
        "collections": [np.array(c.get_offsets(), float) for c in ax.collections],
        "texts": [(t.get_text(), [float(v) for v in t.get_position()]) for t in ax.texts],
        "legend": [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None,
    }
    return out


def bar(p):
    return [float(p.get_x()), float(p.get_width()), float(p.get_height())] if hasattr(p, "get_height") else None


def look(fig):
    return {"size": [float(v) for v in fig.get_size_inches()], "axes": [look_axes(a) for a in fig.axes], "texts": [t.get_text() for t in fig.texts]}


def flat(x):
    """For values.same, which compares canonical values."""
    if isinstance(x, dict):
        return {k: flat(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return ("tuple", "seq") + tuple(flat(v) for v in x)
    return x


def differs(a, b):
    return values.same(flat(a), flat(b), 0.0)


def slice_of(a, ang):
    """The documented slice: from the centre outwards at the angle, at the array's own sample spacing."""
    n = a.shape[0]
    step = 2.0 / (n - 1)
    u = np.linspace(-1.0, 1.0, n)
    r = np.arange(0.0, 1.0, u[1] - u[0])
    c = (r * np.cos(ang) + 1.0) / step
    w = (1.0 - r * np.sin(ang)) / step
    c0, w0 = np.clip(c.astype(int), 0, n - 2), np.clip(w.astype(int), 0, n - 2)
    fc, fw = c - c0, w - w0
    return a[w0, c0] * (1 - fw) * (1 - fc) + a[w0, c0 + 1] * (1 - fw) * fc + a[w0 + 1, c0] * fw * (1 - fc) + a[w0 + 1, c0 + 1] * fw * fc


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    m = float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0))
    return bool(np.allclose(a, b, rtol=1e-8, atol=1e-9 * m, equal_nan=True))


class M(machine.Machine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.done = set()
        self.failed = False

    def step(self, st):
        import matplotlib
        import matplotlib.pyplot as plt

        k = st[0]
        if k == "plot":
            return self.plot(st)
        if k == "fig":
            self.figure(plt, st[1], st[2])
        elif k == "select":
            nums = plt.get_fignums()
            if nums:
                f = plt.figure(nums[int(st[1] * len(nums))])
                if f.axes:
                    plt.sca(f.axes[int(st[2] * len(f.axes))])
        elif k == "close":
            nums = plt.get_fignums()
            if st[1] is None:
                plt.close("all")
            elif nums:
                plt.close(nums[int(st[1] * len(nums))])
        elif k == "rc":
            matplotlib.rcParams.update(st[1])
            self.ctx.log(("rc", sorted(st[1])))
        elif k == "ion":
            plt.ion() if st[1] else plt.ioff()
        elif k == "draw":
            for n in plt.get_fignums():
                try:
                    plt.figure(n).savefig(io.BytesIO(), format="raw", dpi=40)
                except Exception as e:
                    raise Found("draw", "figure %d cannot be drawn: %r" % (n, e))
            self.st["figures drawn"] += len(plt.get_fignums())
        elif k == "mut":
            self.mutate(*st[1:])
        else:
            return super().step(st)
        self.ctx.log((k, plt.get_fignums()))

    def figure(self, plt, kind, x):
        f = plt.figure()
        t = np.linspace(0, 1 + x, 7)
        if kind == "line":
            plt.plot(t, t**2, "r--", label="mine")
            plt.title("mine")
            plt.legend()
        elif kind == "grid":
            axs = f.subplots(2, 2)
            axs[0, 1].plot(t, -t)
            axs[1, 0].bar([1, 2], [x, 3])
            plt.sca(axs.flat[int(x * 4)])
        elif kind == "image":
            plt.imshow(np.arange(12.0).reshape(3, 4) * x)
            plt.colorbar()
        elif kind == "bars":
            plt.bar([1, 2, 3], [x, 2, 1])
            plt.ylim(0, 9)
        elif kind == "twin":
            plt.plot(t, t)
            plt.twinx().plot(t, t * 5, "g")
        elif kind == "scatter":
            plt.scatter(t, t * x)
            plt.text(0.5, 0.5, "note")

    def mutate(self, cid, which, x):
        """The caller changes a value of a result: later plots show the new one."""
        if cid not in self.res:
            raise machine.Skip
        r = self.res[cid]
        names = list(CURVES.values())
        k = int(which * 16)
        if k < 8:
            a = getattr(r.otf, names[k])
            if a.flags.writeable:
                a[...] = a * (0.4 + x / 2)
        else:
            nm = (list(BARS.values())[:6] + ["tgt_n", "well_fraction"])[k - 8]
            setattr(r.snr, nm, getattr(r.snr, nm) * (1.1 + x))
        self.snap[cid] = values.canon(r, ("sensor", "scenario"))
        self.st["changed results"] += 1

    def plot(self, st):
        import matplotlib.pyplot as plt

        _, op, dargs, fault = st
        args = self.args(op, dargs)
        nums = plt.get_fignums()
        figs = {n: plt.figure(n) for n in nums} if not nums else None
        cur = plt.gcf().number if nums else None
        if nums:
            figs = {}
            for n in nums:
                figs[n] = plt.figure(n)
            plt.figure(cur)
        ax = figs[cur].gca() if cur is not None and figs[cur].axes else None
        axes = list(figs[cur].axes) if cur is not None else []
        seen = {n: look(f) for n, f in figs.items()}
        kept = look_axes(ax) if ax is not None else None
        before = [values.canon(a) for a in args]
        if fault:
            cnt = self.count(plt, op, args)
            inj = sim.Injector(self.ctx.pkg, dict(fault, at=1 + int(fault["frac"] * max(1, cnt))))
            with inj:
                out = self.invoke(op, args)
            if inj.fired:
                self.st["fault:site %s" % fault["exc"]] += 1
        else:
            out = self.invoke(op, args)
        failed = fault and inj.fired and out[0] == "exc"
        self.st["calls"] += 1
        self.st["op:" + op] += 1
        self.st["ok" if out[0] == "ok" else "raised"] += 1
        self.ctx.log((op, out[0], plt.get_fignums(), cur))
        self.ctx.states.add("%s|%s figures|%s axes|%s|%s|%s" % (op, len(nums), len(axes), "failed" if failed else out[0], self.failed, (op, str(dargs)) in self.done))
        for i, (a, b) in enumerate(zip(args, before)):
            d = values.same(values.canon(a), b, 0.0)
            if d:
                raise Found("argument:%s" % op, "%s changed what it plots%s" % (op, d))
        if out[0] == "exc" and not failed:
            raise Found("fails:%s" % op, "%s %s raised %r" % (op, [machine._dname(d) for d in dargs], out[1]))
        new = [n for n in plt.get_fignums() if n not in nums]
        for n, f in figs.items():
            if not plt.fignum_exists(n):
                raise Found("closed:%s" % op, "%s closed figure %d" % (op, n))
            if op != "metrics.plot_noise_terms" and n == cur:
                continue
            d = differs(look(f), seen[n])
            if d:
                raise Found("figure:%s" % op, "%s changed another figure (%d of %s, current %s)%s" % (op, n, nums, cur, d))
        if op != "metrics.plot_noise_terms" and cur is not None:
            for i, a in enumerate(axes):
                if a is ax or a not in figs[cur].axes:
                    continue
                was, is_ = dict(seen[cur]["axes"][i]), look_axes(a)
                if ax is not None and (ax.get_shared_x_axes().joined(a, ax) or ax.get_shared_y_axes().joined(a, ax)):
                    was.pop("lim"), is_.pop("lim")
                d = differs(is_, was)
                if d:
                    raise Found("axes:%s" % op, "%s changed axes %d of the figure, which are not the current ones%s" % (op, i, d))
        if failed:
            self.failed = True
            return
        self.st["plots"] += 1
        if (op, str(dargs)) in self.done:
            self.st["repeats"] += 1
        if self.failed:
            self.st["plots after failure"] += 1
        self.done.add((op, str(dargs)))
        if op == "metrics.plot_noise_terms":
            if len(new) != 1:
                raise Found("new:%s" % op, "the noise plot made %d new figures" % len(new))
            return self.noise(plt.figure(new[0]), args[0], args[1] if len(args) > 1 else 0)
        if len(new) != (0 if nums else 1) or plt.gcf().number != (cur if nums else new[0]):
            raise Found("current:%s" % op, "%s with figures %s, current %s, left figures %s, current %s" % (op, nums, cur, plt.get_fignums(), plt.gcf().number))
        f = plt.gcf()
        if ax is None:
            if len(f.axes) != 1:
                raise Found("current:%s" % op, "%s on an empty figure made %d axes" % (op, len(f.axes)))
            ax = f.axes[0]
            kept = {"lines": [], "images": [], "texts": [], "patches": [], "collections": []}
        elif len(f.axes) != len(axes) or plt.gca() is not ax:
            raise Found("current:%s" % op, "%s did not stay on the current axes" % op)
        now = look_axes(ax)
        for part in ("lines", "images", "texts", "patches", "collections"):
            d = differs(now[part][: len(kept[part])], kept[part])
            if d:
                raise Found("kept:%s" % op, "%s changed %s already on the axes%s" % (op, part, d))
        drawn = {part: now[part][len(kept[part]) :] for part in ("lines", "images", "texts", "patches", "collections")}
        if op == "obj.show":
            self.show(drawn, args[0])
        else:
            self.mtf(ax, drawn, now, args[0], args[1] if len(args) > 1 else 0.0, not kept["lines"] and not kept["patches"] and not kept["collections"])

    def count(self, plt, op, args):
        """How many places could fail: of the same plot, drawn in a child process."""
        import os
        import pickle

        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            n = 0
            try:
                inj = sim.Injector(self.ctx.pkg)
                with inj:
                    self.invoke(op, args)
                n = inj.sites
            finally:
                os.write(w, pickle.dumps(n))
                os._exit(0)
        os.close(w)
        n = pickle.loads(os.read(r, 100) or pickle.dumps(0))
        os.close(r)
        os.waitpid(pid, 0)
        return n

    # ---------------------------------------------------------- what each plot has to show
    def show(self, drawn, ref):
        h, w = ref.img.shape[:2]
        want = [-w / 2 * ref.gsd, w / 2 * ref.gsd, -h / 2 * ref.gsd, h / 2 * ref.gsd]
        if len(drawn["images"]) != 1:
            raise Found("shows:obj.show", "show drew %d images" % len(drawn["images"]))
        got, extent = drawn["images"][0]
        if not close(got, ref.img):
            raise Found("shows:obj.show", "the image shown is not the reference image")
        if not close(extent, want):
            raise Found("shows:obj.show", "the image is shown over %s instead of %s" % (extent, want))

    def mtf(self, ax, drawn, now, m, ang, alone):
        op = "shows:metrics.plot_common_MTFs"
        x = slice_of(0.001 / m.sensor.f * np.sqrt(m.uu**2 + m.vv**2), ang)
        want = {k: np.abs(slice_of(getattr(m.otf, v), ang)) for k, v in CURVES.items()}
        if len(drawn["lines"]) != len(CURVES):
            raise Found(op, "%d curves drawn" % len(drawn["lines"]))
        match = []
        for li in drawn["lines"]:
            if not close(li[0], x):
                raise Found(op, "a curve of the plot at angle %r has frequencies that are not the result's" % ang)
            match.append({k for k, y in want.items() if close(li[1], y)})
            if not match[-1]:
                raise Found(op, "a curve of the plot at angle %r (%s) shows no transfer function of the result: it begins %s" % (ang, len(match) - 1, li[1][:3]))
        for k in want:
            if not any(k in s for s in match):
                raise Found(op, "the %s transfer function is not in the plot" % k)
        if alone and ax.get_legend():
            leg = ax.get_legend()
            import matplotlib.colors as mc

            for t, hd in zip(leg.get_texts(), leg.legend_handles):
                name = t.get_text()
                if name not in want:
                    raise Found(op, "the legend names %r" % name)
                lines = [s for li, s in zip(drawn["lines"], match) if li[2] == mc.to_hex(hd.get_color())]
                if lines and not any(name in s for s in lines):
                    raise Found(op, "the legend gives the name %r to the curve of %s" % (name, sorted(lines[0])))
            missing = set(want) - {t.get_text() for t in leg.get_texts()}
            if missing:
                raise Found(op, "the legend leaves out %s" % sorted(missing))
        elif alone:
            raise Found(op, "the plot has no legend")
        ny = 0.5 / (m.ifov_x * m.sensor.f) * 0.001
        if not any(hasattr(t, "xy") and close(t.xy, (ny, 0)) for t in ax.texts):
            raise Found(op, "the Nyquist frequency %r is not marked" % ny)

    def noise(self, fig, m, top):
        op = "shows:metrics.plot_noise_terms"
        fig.canvas.draw()
        if len(fig.axes) != 1:
            raise Found(op, "the noise plot has %d axes" % len(fig.axes))
        ax = fig.axes[0]
        bars = [bar(p) for p in ax.patches if hasattr(p, "get_height")]
        ticks = list(zip(ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]))
        if len(bars) != len(BARS):
            raise Found(op, "%d bars drawn" % len(bars))
        names = set()
        for x, w, h in bars:
            lab = [t for p, t in ticks if abs(p - x - w / 2) < 1e-6]
            if len(lab) != 1 or lab[0] not in BARS:
                raise Found(op, "the bar at %g of height %g is labelled %s" % (x + w / 2, h, lab))
            names.add(lab[0])
            v = getattr(m.snr, BARS[lab[0]]) if BARS[lab[0]] else m.sensor.read_noise
            if not close([h], np.ravel(v)):
                raise Found(op, "the bar labelled %s has height %g instead of %r" % (lab[0], h, v))
        if len(names) != len(BARS):
            raise Found(op, "bars are labelled %s" % sorted(names))
        title = ax.get_title()
        for v in (int(m.snr.tgt_n), int(m.snr.tgt_n - m.snr.bkg_n), int(m.snr.well_fraction * 100.0)):
            if str(v) not in title:
                raise Found(op, "%d is not in the title %r" % (v, title))
        if top > 0 and not close(ax.get_ylim(), (0, top)):
            raise Found(op, "the axis reaches %s instead of %s" % (ax.get_ylim(), top))


def run(plan, ctx):
    m = M(ctx, check_oracle=False)
    m.run(plan["steps"])
    m.check_results()
