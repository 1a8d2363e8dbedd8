"""Reading charts off the artists they are made of."""
from __future__ import annotations

import numpy as np


class Sheet:
    """One figure, reused for every chart; a chart is a function of the axes."""

    def __init__(self, chk):
        import matplotlib as mpl

        mpl.use("Agg")
        from matplotlib import pyplot as plt

        self.plt, self.chk = plt, chk
        self.fig, self.ax = plt.subplots()
        self.fig.colorbar = lambda *_a, **_k: None      # the bar is beside the picture
        self.alone = set()

    def fresh(self):
        a = self.ax
        for x in [*a.lines, *a.patches, *a.collections, *a.texts]:
            x.remove()
        if a.get_legend():
            a.get_legend().remove()
        a.containers.clear()
        a.set_xscale("linear")
        a.set_yscale("linear")
        a.set_aspect("auto")
        a.autoscale(enable=True)
        return a

    def draw(self, name, fn, case):
        """fn(axes), on the axes given; the first time also on axes of its own. Returns what fn returned."""
        if name not in self.alone:
            self.alone.add(name)
            n = len(self.plt.get_fignums())
            r = fn(None)
            f, a = r[0], r[1]
            self.chk.expect("a figure of its own", a is not self.ax and a.figure is f and f is not self.fig and len(self.plt.get_fignums()) == n + 1,
                            {**case, "function": name}, "")
            self.plt.close(f)
        r = fn(self.fresh())
        self.chk.expect("axes", r[1] is self.ax and r[0] is self.fig, {**case, "function": name}, "")
        return r

    def curves(self, name, fn, wants, case, tol=None, scale=None):
        """The curves drawn are wants: (x, y), x None if not specified."""
        r = self.draw(name, fn, case)
        kw = {"tol": tol} if tol else {}
        cc = {**case, "function": name}
        ls = [l for l in self.ax.lines if len(np.atleast_1d(l.get_xdata())) and l.get_label() != "_child_marker"]
        self.chk.expect("curves", len(ls) == len(wants), cc, f"{len(ls)} curves")
        for l, (wx, wy) in zip(ls, wants):
            if wx is not None:
                self.chk.eq("curve: along", np.asarray(l.get_xdata(), float).ravel(), wx, cc, **kw)
            self.chk.eq("curve", np.asarray(l.get_ydata(), float).ravel(), wy, cc, **kw)
        if scale is not None:
            self.scaled(scale, cc)
        return r

    def scaled(self, scale, case):
        t = self.ax.yaxis.get_transform()
        v = np.array([0.5, 2.0, 7.0])
        want = {"linear": v, "squared": v**2, "log": np.log10(v)}.get(scale)
        if want is not None:
            self.chk.eq("scale", t.transform(v), want, case)
        else:
            self.chk.expect("scale", self.ax.get_yscale() == scale, case, self.ax.get_yscale())

    def mesh(self, name, fn, want, case):
        r = self.draw(name, fn, case)
        cc = {**case, "function": name}
        m = r[2]
        self.chk.eq("picture", np.asarray(m.get_array(), float).reshape(np.shape(want)), want, cc)
        g = np.asarray(m.get_coordinates())
        rows, cols = np.shape(want)
        self.chk.eq("picture: along", g[..., 0], np.broadcast_to(np.arange(cols + 1.0), (rows + 1, cols + 1)), cc)
        self.chk.eq("picture: up", g[..., 1], np.broadcast_to(np.arange(rows + 1.0)[:, None], (rows + 1, cols + 1)), cc)
        return r

    def close(self):
        self.plt.close("all")


def measured(z, m):
    return {"real": np.real, "imag": np.imag, "abs": np.abs, "angle": np.angle}[m](z)


class Options:
    """Redraws every chart with the options changed one at a time (spec/Options.tla).

    The charts are those the check draws anyway: each function of the modules
    given is followed, and for the first calls is drawn again on axes of its
    own along the walks of the specification.
    """

    AUTO, LOWEST, HIGHEST = 99, 98, 97
    # means of measures, and curves of two kinds
    LOOSE = ("plot_average_isf_1d_x", "plot_average_displacement_1d_x", "plot_average_drift_1d_x", "plot_average_value_list_against_time",
             "plot_wavepacket_transformed_energy_1d", "build_animation")

    def __init__(self, chk, modules, loose=(), chance=(), skip=()):
        """loose: charts whose heights are not the measure of one value; chance: charts of samples; skip: charts whose options mean something else."""
        import inspect

        import matplotlib as mpl

        mpl.use("Agg")
        from matplotlib import pyplot as plt

        self.plt, self.chk = plt, chk
        self.loose, self.chance = {*self.LOOSE, *loose}, set(chance)
        self.walks = [c["walk"] for c in chk.cases("Options", {"Seed": chk.seed, "Steps": 4}, init="OInit", next_="ONext", workers=8,
                                                   properties=("OwnPart",), invariants=("Memoryless", "Whole", "EmitO"))]
        self.busy, self.left, self.was = False, {}, []
        for m in modules:
            for name, f in list(vars(m).items()):
                if inspect.isfunction(f) and f.__module__ == m.__name__ and not name.startswith("_") and name not in skip:
                    ps = inspect.signature(f).parameters
                    opts = [o for o in ("scale", "measure", "clim") if o in ps]
                    if "ax" in ps and opts:
                        self.was.append((m, name, f))
                        setattr(m, name, self.follow(name, f, opts, inspect.signature(f)))

    def follow(self, name, f, opts, sig):
        import functools

        from vlib import stable_hash

        need = {(o, v) for o in opts for v in {"scale": ("linear", "squared", "log", "symlog"), "measure": ("real", "imag", "abs", "angle"),
                                              "clim": ((99, 7), (-3, 99), (-3, 7))}[o]}
        calls = [0]

        def shown(w):
            return {("scale", s["scale"]) for s in w} | {("measure", s["measure"]) for s in w} | {("clim", tuple(s["range"])) for s in w}

        def fits(w):
            return all(("measure" in opts or s["measure"] == "abs") and ("scale" in opts or s["scale"] == "linear") and ("clim" in opts or tuple(s["range"]) == (99, 99)) for s in w)

        mine = []

        @functools.wraps(f)
        def g(*a, **k):
            if self.busy or (not need and calls[0] >= (40 if self.chk.thorough else 0)):
                return f(*a, **k)
            self.busy = True
            try:
                if calls[0] < 400:
                    if not mine:
                        mine.extend(w for w in self.walks if fits(w))
                    calls[0] += 1
                    h = stable_hash(self.chk.seed, name, calls[0])
                    some = [mine[(h + 31 * j) % len(mine)] for j in range(min(12, len(mine)))] if mine else []
                    if some:
                        w = max(some, key=lambda w: len(shown(w) & need))
                        need.difference_update(shown(w))
                    else:
                        w = [{"scale": s, "measure": "abs", "range": [99, 99], "axis": x, "ends": [0, 97]} for s, x in (("linear", [1, 10, 100]),)]
                        need.clear()
                    b = sig.bind(*a, **k)
                    self.replay(name, f, opts, sig, b, w)
                return f(*a, **k)
            finally:
                self.busy = False

        return g

    def draw(self, f, sig, b, **kw):
        """The parts of a chart, drawn on a fresh sheet with these options."""
        arts = dict(b.arguments)
        extra = arts.pop(next((p for p, q in sig.parameters.items() if q.kind == q.VAR_KEYWORD), None), {})
        fig, ax = self.plt.subplots()
        fig.colorbar = lambda *_a, **_k: None
        try:
            import inspect

            arts.update(kw, ax=ax)
            bb = inspect.BoundArguments(sig, {p: arts[p] for p in sig.parameters if p in arts})
            r = f(*bb.args, **bb.kwargs, **extra)
            film = r[2] if len(r) > 2 else None
            if hasattr(film, "_draw_was_started"):
                film._draw_was_started = True
            ms = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
            return {
                "lines": [np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float) for l in ax.lines if l.get_transform() is ax.transData],
                "marks": [np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float) for l in ax.lines if l.get_transform() is not ax.transData],
                "areas": [np.concatenate([q.vertices for q in c.get_paths()]) for c in ax.collections if type(c).__name__ == "PolyCollection"],
                "meshes": [np.asarray(m.get_array(), float).ravel() for m in ms],
                "corners": [np.asarray(m.get_coordinates()) for m in ms],
                "points": [np.asarray(c.get_offsets(), float) for c in ax.collections if type(c).__name__ == "PathCollection"],
                "bars": [np.array(c.get_segments(), float) for c in ax.collections if type(c).__name__ == "LineCollection"],
                "boxes": np.array([(p.get_x(), p.get_height(), p.get_width()) for p in ax.patches if hasattr(p, "get_height")], float),
                "clim": [tuple(float(v) for v in m.get_clim()) for m in ms],
                "norm": [type(m.norm).__name__ for m in ms],
                "y": (ax.get_yscale(), ax.yaxis.get_transform()),
                "film": hasattr(film, "_draw_was_started"),
            }
        finally:
            self.plt.close(fig)

    DRAWN = ("lines", "marks", "areas", "meshes", "corners", "points", "bars", "boxes")

    def same(self, clause, a, b, case, parts=DRAWN):
        for p in parts:
            self.chk.expect(clause, len(a[p]) == len(b[p]), {**case, "part": p}, f"{len(a[p])} and {len(b[p])}")
            for x, y in zip(a[p], b[p]):
                self.chk.expect(clause, np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-7, atol=1e-9 * (np.max(np.abs(y), initial=0)), equal_nan=True), {**case, "part": p}, "")

    def replay(self, name, f, opts, sig, b, walk):
        case = {"chart": name}
        pics = {}
        if "measure" in opts:
            for m in ("real", "imag", "abs", "angle"):
                pics[m] = self.draw(f, sig, b, measure=m)
            if name not in self.chance:
                self.whole(name, pics, case)
            else:
                a, g = (np.concatenate([x[1] for x in pics[m]["lines"]]) for m in ("abs", "angle"))
                # an angle is not as small as what is measured in joules
                self.chk.expect("options: sizes of a sample", bool(np.all(a >= 0)
                                                                  and (np.max(np.abs(g)) == 0 or np.max(np.abs(g)) > 1e-6)), case, lambda: f"{a.tolist()} {g.tolist()}")
        else:
            pics["abs"] = self.draw(f, sig, b)
        unit = max([np.max(np.abs(z), initial=0) for p in pics.values() for z in p["meshes"]], default=0) / 5 or 1.0
        before = None
        for s in walk:
            kw = {}
            if "scale" in opts:
                kw["scale"] = s["scale"]
            if "measure" in opts:
                kw["measure"] = s["measure"]
            if "clim" in opts:
                kw["clim"] = tuple(None if v == self.AUTO else v * unit for v in s["range"])
            now = self.draw(f, sig, b, **kw)
            cc = {**case, "options": {o: s["range"] if o == "clim" else s[o] for o in kw}, "before": before}
            before = cc["options"]
            if name not in self.chance:
                self.same("options: the same drawing", now, pics[s["measure"] if "measure" in opts else "abs"], cc)
            if "scale" in opts:
                self.scaled(now, s, cc)
            if now["meshes"] and name not in self.chance and (len(now["meshes"]) == 1 or "clim" in opts):
                y = np.concatenate([z for z in now["meshes"]])
                m = s["measure"] if "measure" in opts else None
                for i, (got, e) in enumerate(zip(np.array(now["clim"]).T, s["ends"])):
                    if m is None and e == 0:
                        continue                    # a chart of one measure: the check of the chart knows which
                    want = {self.LOWEST: np.min(y), self.HIGHEST: np.max(y)}.get(e, e * unit)
                    self.chk.expect("options: range of colours", np.allclose(got, want, rtol=1e-9, atol=1e-12 * unit), {**cc, "end": i}, f"{got} want {want}")

    def scaled(self, pic, s, case):
        if pic["meshes"]:
            want = {"linear": "Normalize", "squared": "Normalize", "symlog": "SymLogNorm", "log": "LogNorm"}[s["scale"]]
            ok = all(n == want for n in pic["norm"])
            self.chk.expect("options: scale of colours", ok, case, str(pic["norm"]))
        else:
            nm, t = pic["y"]
            if s["scale"] == "symlog":
                self.chk.expect("options: scale", nm == "symlog", case, nm)
            else:
                self.chk.eq("options: scale", t.transform(np.array([1.0, 10.0, 100.0])), np.array(s["axis"], float), case)

    def whole(self, name, p, case):
        """The parts of what is drawn put it together again."""
        shape = {m: ([x.shape for x in q["lines"]], [x.shape for x in q["meshes"]]) for m, q in p.items()}
        self.chk.expect("options: as many of each part", all(v == shape["abs"] for v in shape.values()), case, str(shape))
        if not all(v == shape["abs"] for v in shape.values()):
            return
        if name in self.loose:
            # a mean of sizes is no smaller than the size of the mean; a second curve is of something else
            if "average" in name:
                for r, i, a, g in zip(*([x[1] for x in p[m]["lines"][:1]] for m in ("real", "imag", "abs", "angle"))):
                    top = np.max(np.abs(a), initial=0) + 1e-300
                    self.chk.expect("options: parts of a mean", bool(np.all(np.hypot(r, i) <= a + 1e-7 * top)), case, lambda: f"real {r.tolist()} imag {i.tolist()} angle {g.tolist()} size {a.tolist()}")
                return
            if name == "build_animation":
                return
            p = {m: {**q, "lines": q["lines"][:1]} for m, q in p.items()}
        for part in ("lines", "meshes"):
            for r, i, a, g in zip(*(p[m][part] for m in ("real", "imag", "abs", "angle"))):
                if part == "lines":
                    self.chk.expect("options: along the same", np.allclose(r[0], a[0], rtol=1e-9) and np.allclose(i[0], a[0], rtol=1e-9) and np.allclose(g[0], a[0], rtol=1e-9), case, "")
                    r, i, a, g = r[1], i[1], a[1], g[1]
                top = np.max(np.abs(a), initial=0) + 1e-300
                self.chk.expect("options: parts of a value", np.allclose(np.hypot(r, i) / top, a / top, atol=1e-7), case, lambda: f"real {r[:4]} imag {i[:4]} size {a[:4]}")
                self.chk.expect("options: angle of a value", np.allclose(a / top * np.exp(1j * g), (r + 1j * i) / top, atol=1e-7), case, "")

    def close(self):
        for m, name, f in self.was:
            setattr(m, name, f)
