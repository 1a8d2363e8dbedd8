"""C24: charts of points, sites, tables and explicit states (spec/Points.tla, spec/ExplicitConv.tla)."""
from __future__ import annotations

import numpy as np
from bases import make_leaf, term_matrix
from charts import Options, Sheet, measured
from scipy.optimize import linear_sum_assignment

from vlib import stable_hash

TAU = 2 * np.pi


def run(chk):
    sh = Sheet(chk)
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis import evenly_spaced_basis as E
    from surface_potential_analysis.basis import explicit_basis as X
    from surface_potential_analysis.basis import plot as BP
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.potential import plot as PL
    from surface_potential_analysis.potential import plot_point_potential as PP
    from surface_potential_analysis.potential import plot_uneven_potential as PU
    from surface_potential_analysis.potential import potential as PT
    from surface_potential_analysis.stacked_basis import plot as SP

    Options(chk, (BP, PL, PU))

    eq, ex = chk.eq, chk.expect
    chk.assumptions += ["The first Brillouin zone is drawn over the two directions of the film; site offsets keep every site on the grid."]
    cs = []
    for k in range(4 if chk.thorough else 1):
        cs += chk.cases("Points", {"Seed": chk.seed + k, "Per": 1 if chk.thorough else 3, "Big": False}, init="PInit", next_="PNext", workers=8,
                        invariants=("Partition", "InZone", "AllRows", "PEmit"))
    chk.sample({k: v for k, v in cs[0].items() if k != "views"})

    def points(name, fn, want, case):
        """The points drawn are want, in any order; want may list alternatives."""
        sh.draw(name, fn, case)
        cc = {**case, "function": name}
        got = np.array([np.concatenate([np.asarray(z, float).ravel() for z in d]) for d in zip(*[l.get_data() for l in sh.ax.lines])]).T
        ex("points", len(got) == len(want), cc, f"{len(got)} points, specified {len(want)}")
        if len(got) != len(want):
            return
        alts = [np.atleast_2d(w) for w in want]
        cost = np.array([[np.min(np.linalg.norm(a - g, axis=1)) for a in alts] for g in got])
        size = max(np.max(np.abs(a)) for a in alts) or 1.0
        r, c = linear_sum_assignment(cost > 1e-9 * size)
        ex("points", np.max(cost[r, c]) <= 1e-9 * size, cc, f"drawn at {got[np.argmax(cost[r, c])]}")
        for l in sh.ax.lines:
            ex("separate points", l.get_linestyle() in {"None", "none", "", " "} and l.get_marker() not in {"None", "none", "", None}, cc, "")

    def cloud(c, case, h):
        D, n, nf, unit = np.array(c["D"], float), c["n"], c["nf"], (1.0, 3e-10)[h % 2]

        def leaf(a):
            d = D[a] * unit
            if c["sp"][a] == "x" and n[a] == nf[a]:
                return B.FundamentalPositionBasis(d, n[a])
            if n[a] == nf[a] and h % 3:
                return B.FundamentalTransformedPositionBasis(d, n[a])
            return B.TransformedPositionBasis(d, n[a], nf[a])

        b = TupleBasis(*(leaf(a) for a in range(len(D))))
        for v in c["views"]:
            f = tuple(a - 1 for a in v["axes"])
            cf = {**case, "axes": f}

            def xs(pts, den, norm2):
                return np.array(pts, float).reshape(-1, 2) / np.sqrt(np.array(norm2, float)) * den

            x = lambda pts, v=v: xs(pts, unit / c["N"], v["xs"])
            k = lambda pts, v=v: xs(pts, TAU / c["det"] / unit, v["ks"]) * c["sgn"]
            two = len(D) == 2
            for p in v["x"]:
                at = tuple(p["at"])
                points("fundamental_x_in_plane", lambda ax: SP.plot_fundamental_x_in_plane_projected_2d(b, f, at, ax=ax), x(p["pts"]), {**cf, "idx": at})
            for p in v["k"]:
                at = tuple(p["at"])
                points("fundamental_k_in_plane", lambda ax: SP.plot_fundamental_k_in_plane_projected_2d(b, f, at, ax=ax), k(p["pts"]), {**cf, "idx": at})
            points("bragg_points", lambda ax: SP.plot_bragg_points_projected_2d(b, f, ax=ax), k(v["bragg"]), cf)
            if not two and set(f) == {0, 1}:
                points("brillouin_zone", lambda ax: SP.plot_brillouin_zone_points_projected_2d(b, f, ax=ax), [k(z) for z in v["zone"]], cf)
            sp = [tuple(int(i) for i in s) for s in c["spots"]]
            at = x(v["spots"])
            for i, s in enumerate(sp):
                points("fundamental_x_at_index", lambda ax: SP.plot_fundamental_x_at_index_projected_2d(b, s, f, ax=ax), at[i:i + 1], {**cf, "idx": s})
                flat = int(np.ravel_multi_index(s, nf))
                points("fundamental_x_at_index: flat", lambda ax: SP.plot_fundamental_x_at_index_projected_2d(b, flat, f, ax=ax), at[i:i + 1], {**cf, "idx": flat})
            many = tuple(np.array(sp).T)
            points("fundamental_x_at_index: several", lambda ax: SP.plot_fundamental_x_at_index_projected_2d(b, many, f, ax=ax), at, {**cf, "idx": sp})
            # points handed over by the caller
            nx = np.array(c["spots"], float) / np.array(nf)
            points("x_points", lambda ax: SP.plot_x_points_projected_2d(b, f, (nx @ D * unit).T, ax=ax), at, cf)
            kz = TAU * np.linalg.inv(D * unit).T
            kp = np.array(c["spots"], float) @ kz
            u = [z / np.linalg.norm(z) for z in kz]
            w1 = u[f[1]] - u[f[0]] * (u[f[0]] @ u[f[1]])
            points("k_points", lambda ax: SP.plot_k_points_projected_2d(b, f, kp.T, ax=ax), np.stack([kp @ u[f[0]], kp @ w1 / np.linalg.norm(w1)], axis=1), cf)

    def named(name, fn, table, along, case):
        """One curve for each site, under its name, in any order."""
        sh.draw(name, fn, case)
        cc = {**case, "function": name}
        ls = {l.get_label(): l for l in sh.ax.lines}
        ex("curves", len(sh.ax.lines) == len(table) and set(ls) == {t[0] for t in table}, cc, str(sorted(ls)))
        ex("legend", sh.ax.get_legend() is not None and {t.get_text() for t in sh.ax.get_legend().get_texts()} == {t[0] for t in table}, cc, "")
        for nm, at, want in table:
            if nm in ls:
                x, y = (np.asarray(z, float).ravel() for z in ls[nm].get_data())
                eq("above a site", y, want if len(y) == len(want) else [*want, want[0]], {**cc, "site": nm, "at": at})
                ex("above a site: whole curve", len(y) == len(along), {**cc, "site": nm}, f"{len(y)} points")
                eq("above a site: along", x - (x[0] if name.startswith("x2") else 0), along, {**cc, "site": nm})

    def sites(c, case, h):
        D, n, off = np.array(c["D"], float), c["n"], tuple(c["off"])
        unit = (1.0, 2e-20)[h % 2]
        scale = ("linear", "symlog", "squared")[h % 3]
        data = np.array(c["data"], float)
        u = {"basis": TupleBasis(B.FundamentalPositionBasis(D[0][:2], n[0]), B.FundamentalPositionBasis(D[1][:2], n[1]), PT.UnevenPotential3dZBasis(np.array(c["z"], float))),
             "data": data if h % 5 else data.reshape(n)}
        p = {"basis": TupleBasis(*(B.FundamentalPositionBasis(D[a], n[a]) for a in range(3))), "data": data.reshape(-1)}
        z = np.array(c["z"], float)
        per = np.sqrt(c["d2"]) * np.arange(n[2] + 1) / n[2]
        kw = {"offset": off} if any(off) else {}
        for t, fu, fp in (("111", PU.plot_uneven_potential_z_comparison_111, PL.plot_potential_1d_x2_comparison_111),
                          ("100", PU.plot_uneven_potential_z_comparison_100, PL.plot_potential_1d_x2_comparison_100)):
            named(f"uneven_{t}", lambda ax: fu(u, **kw, ax=ax, scale=scale), c["s" + t], z, case)
            sh.scaled(scale, case)
            named(f"x2_{t}", lambda ax: fp(p, **kw, ax=ax, scale=scale), c["s" + t], per, case)
            if scale != "symlog":
                sh.scaled(scale, case)
        for _, at, want in c["s111"]:
            sh.curves("plot_uneven_potential_z", lambda ax: PU.plot_uneven_potential_z(u, tuple(at), ax=ax, scale=scale), [(z, want)], case, scale=scale)
        own = {nm: tuple(at) for nm, at, _ in c["s100"]}
        named("uneven", lambda ax: PU.plot_uneven_potential_z_comparison(u, own, ax=ax), c["s100"], z, case)
        named("x2", lambda ax: PL.plot_potential_1d_comparison(p, {k: (v, 2) for k, v in own.items()}, ax=ax), c["s100"], per, case)
        ex("argument untouched", np.array_equal(np.ravel(u["data"]), c["data"]) and np.array_equal(p["data"], c["data"]), case, "")

    def table(c, case, h):
        unit = (1.0, 1.5e-10)[h % 2]
        r = np.array(c["rows"], float)
        t = {"basis": None, "x_points": r[:, 0] * unit, "y_points": r[:, 1] * unit, "z_points": r[:, 2] * unit, "points": r[:, 3]}
        points("point_potential_location_xy", lambda ax: PP.plot_point_potential_location_xy(t, ax=ax), np.array(c["locs"], float) * unit, case)
        sh.draw("point_potential_all_z", lambda ax: PP.plot_point_potential_all_z(t, ax=ax), case)
        cc = {**case, "function": "point_potential_all_z"}
        ex("curves", len(sh.ax.lines) == len(c["curves"]), cc, f"{len(sh.ax.lines)} curves")
        got = sorted(sorted(zip(*(np.asarray(z, float).ravel().tolist() for z in l.get_data()))) for l in sh.ax.lines)
        want = sorted(sorted((float(z) * unit, float(e)) for z, e in w) for w in c["curves"])
        ex("curve of a location", [len(g) for g in got] == [len(w) for w in want] and np.allclose(sum(got, []), sum(want, []), rtol=1e-12, atol=0), cc, f"{got} specified {want}")

    for i, c in enumerate(cs):
        case = {k: c[k] for k in ("kind", "D", "n", "nf", "sp", "off", "rows") if k in c}
        h = stable_hash(chk.seed, i)
        chk.guard(c["kind"], case, lambda: {"cloud": cloud, "sites": sites, "table": table}[c["kind"]](c, case, h))
        chk.traces += 1

    cs = chk.cases("ExplicitConv", {"Seed": chk.seed}, invariants=("AdjointLaw", "GramInt", "Emit"))
    for i, c in enumerate(cs):
        o = c["other"]
        if len(o) != 1 or o[0]["cls"] != "low" or o[0]["sp"] != "x" or o[0]["n"] != o[0]["nf"]:
            continue
        h = stable_hash(chk.seed, i)
        case = {"explicit over": [c["base"][0][k] for k in ("cls", "sp", "n", "nf")], "v": c["v"]}

        def body():
            v = np.asarray(c["v"], dtype=float)
            v = v[..., 0] + 1j * v[..., 1]
            base = make_leaf(c["base"][0], h, 0, 1, True)
            vec = {"basis": TupleBasis(B.FundamentalBasis(len(v)), base), "data": v.reshape(-1) if h % 2 else v}
            b = X.ExplicitBasisWithLength.from_state_vectors(vec) if h % 3 else X.ExplicitBasisWithLength(vec)
            f = term_matrix(c["fromx"], c["L"], c["scale"])
            x = np.linalg.norm(base.delta_x) * np.arange(o[0]["nf"]) / o[0]["nf"]
            ex("a state of length", np.array_equal(b.delta_x, base.delta_x), case, "")
            for m in ("abs", "real", "imag"):
                sh.curves("plot_explicit_basis_states_x", lambda ax: BP.plot_explicit_basis_states_x(b, ax=ax, measure=m), [(x, measured(col, m)) for col in f.T], {**case, "measure": m})
                for j in range(len(v)):
                    sh.curves("plot_explicit_basis_state_x", lambda ax: BP.plot_explicit_basis_state_x(b, j, ax=ax, measure=m), [(x, measured(f[:, j], m))], {**case, "measure": m, "idx": j})
            sh.curves("plot_explicit_basis_states_x: default", lambda ax: BP.plot_explicit_basis_states_x(b, ax=ax), [(x, np.abs(col)) for col in f.T], case)
            sh.curves("plot_explicit_basis_state_x: default", lambda ax: BP.plot_explicit_basis_state_x(b, ax=ax), [(x, np.abs(f[:, 0]))], case)

        chk.guard("explicit states", case, body)
        chk.traces += 1
    sh.close()

    # ---- histories of charts on a canvas
    from matplotlib import pyplot as plt
    from matplotlib.cm import ScalarMappable
    from surface_potential_analysis.util import plot as U

    b2 = TupleBasis(B.FundamentalPositionBasis(np.array([2.0, 0.0]), 2), B.FundamentalPositionBasis(np.array([0.0, 1.0]), 3))
    pic = np.arange(6) + 1.0
    for c in chk.cases("Canvas", {"Seed": chk.seed, "Depth": 4 if chk.thorough else 3}, init="CInit", next_="CNext", properties=("Grows",), invariants=("BarPerPicture", "CEmit"), workers=4):
        case = {"drawn": c["hist"]}

        def body(c=c, case=case):
            fig, axs = plt.subplots(1, 2)
            n = len(plt.get_fignums())
            for j, (what, a) in enumerate(c["hist"]):
                ax = axs[a - 1] if a else None
                if what.startswith("picture"):
                    r = U.plot_data_2d(pic.reshape(2, 3) * (j + 1), ax=ax) if j % 2 else U.plot_data_2d_x(b2, pic * (j + 1), ax=ax)
                elif what == "film":
                    r = U.animate_data_through_list_2d_x(b2, np.array([pic, pic * 2]), ax=ax)
                    r[2]._draw_was_started = True       # never shown
                else:
                    r = U.plot_data_1d(pic * (j + 1), pic, ax=ax, measure="real")
                own = a == 0
                ex("a figure of its own", (r[0] is fig) != own and (own or r[1] is ax), case, "")
                if own:
                    bars = [m.colorbar for m in r[1].get_children() if isinstance(m, ScalarMappable) and m.colorbar is not None]
                    ex("bars: own figure", len(bars) == (what == "picture alone") and len(r[0].axes) == 1 + len(bars), case, f"{len(bars)} bars")
            ex("figures", len(plt.get_fignums()) - n + 1 == c["figs"], case, "")
            for k, ax in enumerate(axs):
                bars = [m.colorbar for m in ax.get_children() if isinstance(m, ScalarMappable) and m.colorbar is not None]
                ex("bars", len(bars) == c["bars"][k], case, f"{len(bars)} bars beside axes {k}")
                ex("bars: found", (U.get_axis_colorbar(ax) is bars[0]) if bars else U.get_axis_colorbar(ax) is None, case, "")
                ex("curves left", len(ax.containers) == c["curves"][k] and len(ax.collections) == c["pictures"][k], case, "")
            ex("bars: whole figure", len(fig.axes) == 2 + sum(c["bars"]), case, f"{len(fig.axes)} axes")

        chk.guard("canvas", case, body)
        plt.close("all")
        chk.traces += 1
