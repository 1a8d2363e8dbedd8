"""C20: pictures of data on a grid (spec/Pictures.tla)."""
from __future__ import annotations

import numpy as np
from bases import make_leaf, r12
from charts import Options

from vlib import stable_hash


def run(chk):
    import matplotlib as mpl
    mpl.use("Agg")
    from matplotlib import pyplot as plt
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import plot as KP
    from surface_potential_analysis.operator import plot as OP
    from surface_potential_analysis.overlap import plot as VP
    from surface_potential_analysis.potential import plot as PP
    from surface_potential_analysis.probability_vector import plot as QP
    from surface_potential_analysis.state_vector import plot as SP
    from surface_potential_analysis.state_vector import state_vector_list_plot as LP
    from surface_potential_analysis.util import plot as U

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Pictures", {"Seed": chk.seed, "Per": 1, "MaxN": 16 if chk.thorough else 12},
                   init="InitD", invariants=("Drawn", "Shortest", "EmitD"), workers=8)
    chk.sample(cs[0])
    fig, shared = plt.subplots()
    fig.colorbar = lambda *_a, **_k: None           # the bar is beside the picture
    rate = 1 if chk.thorough else 3
    Options(chk, (KP, OP, VP, PP, QP, SP, LP, U))

    def fresh():
        for a in [*shared.lines, *shared.patches, *shared.collections, *shared.texts]:
            a.remove()
        shared.containers.clear()
        shared.set_xscale("linear")
        shared.set_yscale("linear")
        shared.set_aspect("auto")
        shared.autoscale(enable=True)
        return shared

    def stack(ls, s):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a), a, len(ls), True) for a, b in enumerate(ls)))

    def onto(b, k, axes):
        """Unit vectors along axes, each square to the ones before it, and the vectors of one step."""
        dx = np.array([l.delta_x for l in b])
        nf = np.array([l.fundamental_n for l in b])
        d = 2 * np.pi * np.linalg.inv(dx).T if k else dx / nf[:, None]
        out = []
        for a in axes:
            e = d[a].copy()
            for f in out:
                e = e - f * np.dot(f, e)
            out.append(e / np.linalg.norm(e))
        return np.array(out), d

    def measured(z, m):
        return {"real": np.real(z), "imag": np.imag(z), "abs": np.abs(z), "angle": np.exp(1j * np.angle(z))}[m]

    def same(clause, got, z, m, case):
        if m == "angle":
            eq(clause, np.where(np.abs(z) < 1e-9, 1, np.exp(1j * np.asarray(got))), np.where(np.abs(z) < 1e-9, 1, measured(z, m)), case)
        else:
            eq(clause, got, measured(z, m), case)

    def scaled(clause, ax, scale, case):
        """Heights are drawn on the scale asked for."""
        t = ax.yaxis.get_transform()
        v = np.array([0.5, 2.0, 7.0])
        if scale == "linear":
            eq(clause + ": scale", t.transform(v), v, case)
        elif scale == "squared":
            eq(clause + ": scale", t.transform(v), v**2, case)
        elif scale == "log":
            eq(clause + ": scale", t.transform(v), np.log10(v), case)

    def pick(h, n):
        return chk.thorough or h % rate == n % rate

    def line(i, c, case):
        h = stable_hash(chk.seed, i)
        b, k = stack(c["p"], h), c["q"][0] == "k"
        axes, nd = tuple(a - 1 for a in c["x"]), b.ndim
        whole = r12(c["in"]) / np.sqrt(c["s"])
        e, d = onto(b, k, axes)
        at = np.array([p[0] for p in c["pts"]])
        pos = (np.array([p[1] for p in c["pts"]], float) @ d) @ e[0]
        idx = None if c["v"] == [] else tuple(c["idx"])
        data = r12(c["data"])
        st = {"basis": b, "data": data.copy()}
        ms = ("abs", "real", "imag", "angle")
        sc = ("linear", "symlog", "squared", "log")
        S2 = {"basis": TupleBasis(FundamentalBasis(3), b), "data": np.array([data, 2 * data, -1j * data]).reshape(-1)}
        three = (whole, 2 * whole, -1j * whole)

        def check(clause, fn, m=None, scale="linear", z=whole, x=pos, on=at):
            m = m or "abs"
            cc = {**case, "function": clause}
            f, ax, ln = fn(fresh(), m, scale)
            ex("curve: axes", ax is shared and f is fig, cc, "")
            eq("curve: along", ln.get_xdata(), x, cc)
            same("curve", ln.get_ydata(), z[on], m, cc)
            scaled("curve", ax, scale, cc)
            if m == "abs" and scale == "linear":
                ex("curve: sizes start at zero", ax.get_ylim()[0] == 0, cc, str(ax.get_ylim()))
            lo, hi = sorted(ax.get_ylim())
            if m in ("abs", "real") and scale in ("linear", "squared") and np.any(np.abs(z[on]) > 0):
                y = measured(z[on], m)
                ex("curve: in view", np.all(y >= lo - 1e-9) and np.all(y <= hi + 1e-9), cc, str((lo, hi)))

        def film(clause, fn, m, zs, x=pos, on=at):
            cc = {**case, "function": clause}
            f, ax, ani = fn(fresh(), m)
            ani._draw_was_started = True
            fr = list(ani.new_frame_seq())
            ex("film: frames", len(fr) == len(zs), cc, f"{len(fr)} frames")
            ex("film: axes", ax is shared and f is fig and all(a.axes is shared for g in fr for a in g), cc, "")
            for g, z in zip(fr, zs):
                eq("film: along", g[0].get_xdata(), x, cc)
                same("film", g[0].get_ydata(), z[on], m, cc)
            ex("film: one colour", len({str(g[0].get_color()) for g in fr}) == 1, cc, "")

        def lines(clause, fn, m, zs):
            cc = {**case, "function": clause}
            fn(fresh(), m)
            ls = [ct.lines[0] for ct in shared.containers]
            ex("curves", len(ls) == len(zs), cc, f"{len(ls)} curves")
            for g, z in zip(ls, zs):
                eq("curves: along", g.get_xdata(), pos, cc)
                same("curves", g.get_ydata(), z[at], m, cc)

        m, s = ms[h % 4], sc[(h // 4) % 4]
        base = U.plot_data_1d_k if k else U.plot_data_1d_x
        check("plot_data_1d", lambda ax, m, s: base(b, data, axes, idx, ax=ax, measure=m, scale=s), m, s)
        if h % 3 == 0:
            # with the uncertainty of each value
            err = 0.25 + np.arange(at.size - 1) % 3
            for per in (False, True):
                on = at if per else at[:-1]
                cc = {**case, "function": "plot_data_1d: uncertainties"}
                _, ax, _ = U.plot_data_1d(whole[at[:-1]], pos[:-1], err, ax=fresh(), measure="real", periodic=per)
                bars = ax.containers[0].lines[2][0].get_segments()
                y, w = np.real(whole[on]), err[np.arange(on.size) % err.size]
                eq("uncertainties", [[q[1] for q in sg] for sg in bars], np.stack([y - w, y + w], axis=-1), cc)
                eq("uncertainties: along", [[q[0] for q in sg] for sg in bars], np.stack([pos[:on.size]] * 2, axis=-1), cc)
        if nd == 1 or idx is None:
            check("plot_data_1d: default", lambda ax, m, s: base(b, data, ax=ax) if axes == (0,) else base(b, data, axes, ax=ax))
        if pick(h, 0):
            f = SP.plot_state_1d_k if k else SP.plot_state_1d_x
            check("plot_state_1d", lambda ax, m, s: f(st, axes, idx, ax=ax, measure=m, scale=s), m, s)
            g = QP.plot_probability_1d_k if k else QP.plot_probability_1d_x
            check("plot_probability_1d", lambda ax, m, s: g(st, axes, idx, ax=ax, measure=m, scale=s), ms[(h + 1) % 4], s)
        if pick(h, 1):
            f2 = LP.plot_states_1d_k if k else LP.plot_states_1d_x
            lines("plot_states_1d", lambda ax, m: f2(S2, axes, idx, ax=ax, measure=m), ms[(h + 2) % 4], three)
            g2 = SP.animate_state_over_list_1d_k if k else SP.animate_state_over_list_1d_x
            film("animate_state_over_list_1d", lambda ax, m: g2(S2, axes, idx, ax=ax, measure=m), ms[(h + 3) % 4], three)
        if pick(h, 2):
            g3 = U.animate_data_through_list_1d_k if k else U.animate_data_through_list_1d_x
            film("animate_data_through_list_1d", lambda ax, m: g3(b, S2["data"].reshape(3, -1), axes, idx, ax=ax, measure=m), ms[(h + 3) % 4], three)
        if k and pick(h, 0):
            # the relative difference of two states, in the momentum basis
            bk = TupleBasis(*(B.FundamentalTransformedPositionBasis(l.delta_x, l.fundamental_n) for l in b))
            o = np.roll(whole, 1) + (1 + np.arange(whole.size))
            top = np.maximum(np.abs(whole), np.abs(o))
            if np.all(top > 1e-9):
                rel = (whole - o) / top
                ii = tuple(c["idx"])
                check("plot_state_difference_1d_k", lambda ax, m, s: SP.plot_state_difference_1d_k(st, {"basis": bk, "data": o}, axes, ii, ax=ax, measure=m, scale=s), m, "linear", z=rel)
        if not k:
            if pick(h, 0):
                check("plot_potential_1d_x", lambda ax, m, s: PP.plot_potential_1d_x(st, axes, idx, ax=ax, scale=s), "real", s)
                check("plot_isotropic_noise_kernel_1d_x", lambda ax, m, s: KP.plot_isotropic_noise_kernel_1d_x(st, axes, idx, ax=ax, measure=m, scale=s), ms[(h + 1) % 4], s)
                cc = {**case, "function": "plot_potential_1d_comparison"}
                if idx is not None:
                    _, ax, ls = PP.plot_potential_1d_comparison(st, {"here": (idx, axes[0]), "first": (tuple(0 for _ in idx), axes[0])}, ax=fresh())
                    ex("comparison: labels", [l.get_label() for l in ls] == ["here", "first"], cc, "")
                    same("comparison", ls[0].get_ydata(), whole[at], "real", cc)
                    if ax.get_legend():
                        ax.get_legend().remove()
            if pick(h, 1):
                n = [p["nf"] for p in c["p"]]
                # against the index along the axis
                for per in (False, True):
                    check("plot_data_1d_n", lambda ax, m, s: U.plot_data_1d_n(b, data, axes, idx, ax=ax, measure=m, scale=s, periodic=per), m, s,
                          x=np.arange(n[axes[0]] + per), on=at if per else at[:-1])
                    film("animate_data_through_list_1d_n", lambda ax, m: U.animate_data_through_list_1d_n(b, S2["data"].reshape(3, -1), axes, idx, ax=ax, measure=m, periodic=per),
                         m, three, x=np.arange(n[axes[0]] + per), on=at if per else at[:-1])
            full = all(p["n"] == p["nf"] for p in c["p"])
            if full and pick(h, 2):
                bx = TupleBasis(*(B.FundamentalPositionBasis(l.delta_x, l.fundamental_n) for l in b))
                # operators: only what is on the diagonal in the position basis
                off = np.arange(whole.size**2).reshape(whole.size, -1) % 3 * 1.0
                mat = np.where(np.eye(whole.size, dtype=bool), np.diag(whole), off)
                op = {"basis": TupleBasis(bx, bx), "data": mat.reshape(-1)}
                check("plot_operator_along_diagonal_1d_x", lambda ax, m, s: OP.plot_operator_along_diagonal_1d_x(op, axes, idx, ax=ax, measure=m, scale=s), m, s)
                dop = {"basis": TupleBasis(bx, bx), "data": whole.copy()}
                check("plot_diagonal_operator_along_diagonal_1d_x", lambda ax, m, s: OP.plot_diagonal_operator_along_diagonal_1d_x(dop, axes, idx, ax=ax, measure=m, scale=s), m, s)
                lab = np.arange(whole.size)
                check("plot_diagonal_operator_along_diagonal", lambda ax, m, s: OP.plot_diagonal_operator_along_diagonal(dop, ax=ax, measure=m, scale=s), m, s, x=lab, on=lab)
                check("plot_operator_along_diagonal", lambda ax, m, s: OP.plot_operator_along_diagonal(op, ax=ax, measure=m, scale=s), m, s, x=lab, on=lab)
                dl = {"basis": TupleBasis(FundamentalBasis(3), TupleBasis(bx, bx)), "data": np.array(three).reshape(-1)}
                for per in (False, True):
                    on = np.append(lab, 0) if per else lab
                    film("animate_diagonal_operator_list_along_diagonal", lambda ax, m: OP.animate_diagonal_operator_list_along_diagonal(dl, ax=ax, measure=m, periodic=per), m, three,
                         x=np.arange(on.size), on=on)
                if np.all(np.abs(whole) > 1e-9) and idx is not None and nd == 1 and axes == (0,):
                    o = whole * (1 + np.arange(whole.size) / 4)
                    ker = {"basis": bx, "data": whole.copy()}
                    fit = {"basis": bx, "data": o}
                    err = (o - whole) * 100 / whole
                    check("plot_isotropic_kernel_error_1d_x", lambda ax, m, s: KP.plot_isotropic_kernel_error_1d_x(ker, fit, ax=ax), "real", z=err)
                    check("plot_isotropic_kernel_error_1d", lambda ax, m, s: KP.plot_isotropic_kernel_error_1d(ker, fit, ax=ax), "real", z=err, x=lab, on=lab)
        ex("data untouched", np.array_equal(st["data"], r12(c["data"])), case, "")

    def centres(mesh):
        g = np.asarray(mesh.get_coordinates())
        return (g[:-1, :-1] + g[1:, :-1] + g[:-1, 1:] + g[1:, 1:]) / 4

    def mesh(i, c, case):
        h = stable_hash(chk.seed, i)
        b, k = stack(c["p"], h), c["q"][0] == "k"
        axes, nd = tuple(a - 1 for a in c["x"]), b.ndim
        whole = r12(c["in"]) / np.sqrt(c["s"])
        e, d = onto(b, k, axes)
        at = np.array([[p[0] for p in row] for row in c["pts"]])
        co = np.array([[p[1] for p in row] for row in c["pts"]], float) @ d
        pos = np.stack([co @ e[0], co @ e[1]], axis=-1)
        idx = None if c["v"] == [] else tuple(c["idx"])
        data = r12(c["data"])
        st = {"basis": b, "data": data.copy()}
        ms = ("abs", "real", "imag")
        sc = ("linear", "symlog", "log", "squared")
        m, s = ms[h % 3], sc[(h // 4) % 4]
        S2 = {"basis": TupleBasis(FundamentalBasis(2), b), "data": np.array([data, -2j * data]).reshape(-1)}
        two = (whole, -2j * whole)

        def inspect(clause, ms_, z, m, cc):
            eq(clause, np.asarray(ms_.get_array(), float).reshape(at.shape), measured(z[at], m), cc)
            if min(at.shape) > 1:
                eq(clause + ": at", centres(ms_), pos, cc)

        def check(clause, fn, m="abs", s="linear", z=whole):
            y = measured(z[at], m)
            if s == "log" and (m != "abs" or np.min(y) < 1e-9):
                s = "linear"
            cc = {**case, "function": clause}
            f, ax, ms_ = fn(fresh(), m, s)
            ex("picture: axes", ax is shared and f is fig, cc, "")
            inspect("picture", ms_, z, m, cc)
            lo = 0 if m == "abs" else np.min(y)
            eq("picture: colours", ms_.get_clim(), (lo, np.max(y)), cc)
            ex("picture: scale of colours", type(ms_.norm).__name__ == {"linear": "Normalize", "squared": "Normalize", "symlog": "SymLogNorm", "log": "LogNorm"}[s], cc, str(ms_.norm))

        def film(clause, fn, m, zs):
            cc = {**case, "function": clause}
            f, ax, ani = fn(fresh(), m)
            ani._draw_was_started = True
            fr = list(ani.new_frame_seq())
            ex("film: axes", ax is shared and f is fig and all(a.axes is shared for g in fr for a in g), cc, "")
            ex("film: frames", len(fr) == len(zs), cc, f"{len(fr)} frames")
            for g, z in zip(fr, zs):
                inspect("film", g[0], z, m, cc)

        base = U.plot_data_2d_k if k else U.plot_data_2d_x
        check("plot_data_2d", lambda ax, m, s: base(b, data, axes, idx, ax=ax, measure=m, scale=s), m, s)
        if pick(h, 0):
            f = SP.plot_state_2d_k if k else SP.plot_state_2d_x
            check("plot_state_2d", lambda ax, m, s: f(st, axes, idx, ax=ax, measure=m, scale=s), m, s)
            g = QP.plot_probability_2d_k if k else QP.plot_probability_2d_x
            check("plot_probability_2d", lambda ax, m, s: g(st, axes, idx, ax=ax, measure=m, scale=s), ms[(h + 1) % 3], s)
        if pick(h, 1):
            f1 = SP.animate_state_over_list_2d_k if k else SP.animate_state_over_list_2d_x
            film("animate_state_over_list_2d", lambda ax, m: f1(S2, axes, idx, ax=ax, measure=m), ms[(h + 2) % 3], two)
            f2 = U.animate_data_through_list_2d_k if k else U.animate_data_through_list_2d_x
            film("animate_data_through_list_2d", lambda ax, m: f2(b, S2["data"].reshape(2, -1), axes, idx, ax=ax, measure=m), m, two)
        if pick(h, 2):
            ov = {"basis": TupleBasis(b, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": data.copy()}
            f3 = VP.plot_overlap_2d_k if k else VP.plot_overlap_2d_x
            check("plot_overlap_2d", lambda ax, m, s: f3(ov, axes, idx, ax=ax, measure=m, scale=s), m, s)
        ii = tuple(c["idx"])
        if pick(h, 1):
            cls = B.FundamentalTransformedPositionBasis if k else B.FundamentalPositionBasis
            bb = TupleBasis(*(cls(l.delta_x, l.fundamental_n) for l in b))
            o = np.roll(whole, 1) + (1 + np.arange(whole.size))
            top = np.maximum(np.abs(whole), np.abs(o))
            if np.all(top > 1e-9):
                f4 = SP.plot_state_difference_2d_k if k else SP.plot_state_difference_2d_x
                check("plot_state_difference_2d", lambda ax, m, s: f4(st, {"basis": bb, "data": o}, axes, ii, ax=ax, measure=m, scale=s), m, s if s != "log" else "linear", z=(whole - o) / top)
        if not k:
            bx = TupleBasis(*(B.FundamentalPositionBasis(l.delta_x, l.fundamental_n) for l in b))
            full = all(p["n"] == p["nf"] for p in c["p"])
            if pick(h, 2):
                check("plot_potential_2d_x", lambda ax, m, s: PP.plot_potential_2d_x(st, axes, idx, ax=ax, scale=s), "real", s)
                check("plot_isotropic_noise_kernel_2d_x", lambda ax, m, s: KP.plot_isotropic_noise_kernel_2d_x(st, axes, idx, ax=ax, measure=m, scale=s), m, s)
            if pick(h, 0):
                o = np.roll(whole, 1) + 1j + np.arange(whole.size) if full else 3 * whole
                check("plot_potential_difference_2d_x", lambda ax, m, s: PP.plot_potential_difference_2d_x(st, {"basis": bx, "data": o}, axes, ii, ax=ax, scale=s), "real", "linear", z=whole - o)
                if full:
                    off = np.arange(whole.size**2).reshape(whole.size, -1) % 3 * 1.0
                    mat = np.where(np.eye(whole.size, dtype=bool), np.diag(whole), off)
                    check("plot_operator_along_diagonal_2d_x", lambda ax, m, s: OP.plot_operator_along_diagonal_2d_x({"basis": TupleBasis(bx, bx), "data": mat.reshape(-1)}, axes, idx, ax=ax, measure=m, scale=s), m, s)
                    check("plot_diagonal_operator_along_diagonal_2d_x", lambda ax, m, s: OP.plot_diagonal_operator_along_diagonal_2d_x({"basis": TupleBasis(bx, bx), "data": whole.copy()}, axes, idx, ax=ax, measure=m, scale=s), m, s)
        ex("data untouched", np.array_equal(st["data"], r12(c["data"])), case, "")

    def through(i, c, case):
        h = stable_hash(chk.seed, i)
        b = stack(c["p"], h)
        axes = tuple(a - 1 for a in c["x"])
        whole = r12(c["in"]) / np.sqrt(c["s"])
        e, d = onto(b, False, axes)
        at = np.array([[[p[0] for p in row] for row in pl] for pl in c["pts"]])
        co = np.array([[[p[1] for p in row] for row in pl] for pl in c["pts"]], float) @ d
        data = r12(c["data"])
        st = {"basis": b, "data": data.copy()}
        bx = TupleBasis(*(B.FundamentalPositionBasis(l.delta_x, l.fundamental_n) for l in b))
        m = ("abs", "real", "imag")[h % 3]

        def film(clause, fn, m, z=whole):
            cc = {**case, "function": clause}
            f, ax, ani = fn(fresh(), m)
            ani._draw_was_started = True
            fr = list(ani.new_frame_seq())
            ex("film: axes", ax is shared and f is fig and all(a.axes is shared for g in fr for a in g), cc, "")
            ex("film through: frames", len(fr) == len(at), cc, f"{len(fr)} frames")
            for t, g in enumerate(fr[:len(at)]):
                eq("film through", np.asarray(g[0].get_array(), float).reshape(at[t].shape), measured(z[at[t]], m), cc)
                if min(at[t].shape) > 1:
                    eq("film through: at", centres(g[0]), np.stack([co[t] @ e[0], co[t] @ e[1]], axis=-1), cc)
            clims = {g[0].get_clim() for g in fr}
            y = measured(z, m)
            ex("film through: one scale of colours", len(clims) == 1, cc, str(clims))
            lo, hi = next(iter(clims))
            eq("film through: colours", (lo, hi), (0 if m == "abs" else np.min(y), np.max(y)), cc)

        film("animate_data_through_surface_x", lambda ax, m: U.animate_data_through_surface_x(bx, whole.reshape(bx.shape), axes, ax=ax, measure=m), m)
        if pick(h, 0):
            film("animate_state_3d_x", lambda ax, m: SP.animate_state_3d_x(st, axes, ax=ax, measure=m), m)
        if pick(h, 1):
            film("animate_potential_3d_x", lambda ax, m: PP.animate_potential_3d_x(st, axes, ax=ax, measure=m), m)
            film("animate_potential_3d_x: default", lambda ax, m: PP.animate_potential_3d_x(st, axes, ax=ax), "real")
        if pick(h, 2) and np.all(np.abs(whole) > 1e-9):
            p0 = {"basis": bx, "data": whole.copy()}
            o = whole * (1 + np.arange(whole.size) % 5 / 4)
            film("animate_potential_difference_3d_x", lambda ax, m: PP.animate_potential_difference_3d_x(p0, {"basis": bx, "data": o}, axes, ax=ax), "real",
                 z=np.abs((whole - o) / whole))
        ex("data untouched", np.array_equal(st["data"], r12(c["data"])), case, "")

    def path(i, c, case):
        h = stable_hash(chk.seed, i)
        b, k = stack(c["p"], h), c["q"][0] == "k"
        nd = b.ndim
        whole = r12(c["in"]) / np.sqrt(c["s"])
        _, d = onto(b, k, ())
        wrap = c["v"] == [1]
        dist = np.concatenate([[0], np.cumsum([np.linalg.norm(np.array(t) @ d) for t in c["steps"]])])
        want = whole[np.array(c["pts"])]
        way = np.array(c["on"])
        data = r12(c["data"])
        st = {"basis": b, "data": data.copy()}
        m = ("abs", "real", "imag", "angle")[h % 4]
        s = ("linear", "symlog", "squared", "log")[h // 4 % 4]

        def check(clause, fn, m, z=want, x=dist):
            cc = {**case, "function": clause}
            f, ax, ln = fn(fresh(), m)
            ex("path: axes", ax is shared and f is fig, cc, "")
            scaled("path", ax, s, cc)
            eq("path: along", ln.get_xdata(), x, cc)
            same("path", ln.get_ydata(), z, m, cc)

        if k:
            two = np.array([data, 2 * data]).T.reshape(-1)
            ov = {"basis": TupleBasis(b, TupleBasis(FundamentalBasis(1), FundamentalBasis(1))), "data": data.copy()}
            check("plot_overlap_along_path_k", lambda ax, m: VP.plot_overlap_along_path_k(ov, way, wrap_distances=wrap, ax=ax, measure=m, scale=s), m)
            if nd == 3:
                nf = b.fundamental_shape
                dk = np.linalg.norm(d[0] + d[1]), np.linalg.norm(d[0])
                z = whole.reshape(nf)
                n = min(nf[0], nf[1])
                if nf[0] <= nf[1]:
                    last = nf[2] - 1
                    check("plot_overlap_along_k_diagonal", lambda ax, m: VP.plot_overlap_along_k_diagonal(ov, last, ax=ax, measure=m, scale=s), m,
                          z=np.array([z[j, j, last] for j in range(n)]), x=np.arange(n) * dk[0])
                check("plot_overlap_along_k0", lambda ax, m: VP.plot_overlap_along_k0(ov, nf[1] - 1, nf[2] - 1, ax=ax, measure=m, scale=s), m,
                      z=z[:, -1, -1], x=np.arange(nf[0]) * dk[1])
                check("plot_overlap_along_k0", lambda ax, m: VP.plot_overlap_along_k0(ov, ax=ax, measure=m, scale=s), m, z=z[:, 0, 0], x=np.arange(nf[0]) * dk[1])
            return
        check("plot_state_along_path", lambda ax, m: SP.plot_state_along_path(st, way, wrap_distances=wrap, ax=ax, measure=m, scale=s), m)
        check("plot_potential_along_path", lambda ax, m: PP.plot_potential_along_path(st, way, wrap_distances=wrap, ax=ax, measure=m, scale=s), m)
        # a path may leave the cell
        far = way + np.array(b.fundamental_shape)[:, None] * np.array([0, 1, -1, 2])
        if not wrap:
            x = np.concatenate([[0], np.cumsum(np.linalg.norm((far[:, :-1] - far[:, 1:]).T @ d, axis=1))])
        else:
            x = dist
        check("plot_potential_along_path: beyond", lambda ax, m: PP.plot_potential_along_path(st, far, wrap_distances=wrap, ax=ax, measure=m, scale=s), m, x=x)
        if nd > 1:
            a = h % nd
            rest = np.delete(way, a, axis=0)
            z = np.moveaxis(whole.reshape(b.fundamental_shape), a, 0)
            cols = np.real(z[(slice(None), *rest)])
            order = np.sort(cols, axis=0)
            bx = TupleBasis(*(B.FundamentalPositionBasis(l.delta_x, l.fundamental_n) for l in b))
            st2 = {"basis": bx, "data": np.real(whole) + 0j}
            full = PP.get_minimum_path(st2, rest, a if h % 2 else a - nd)
            eq("lowest path", np.delete(full, a, axis=0), rest, case)
            ex("lowest path: in the cell", np.all(full[a] >= 0) and np.all(full[a] < cols.shape[0]), case, str(full))
            eq("lowest path: values", cols[full[a], np.arange(4)], order[0], case)
            check("plot_potential_minimum_along_path", lambda ax, m: PP.plot_potential_minimum_along_path(st2, rest, a, ax=ax, scale=s), "real", z=order[0],
                  x=np.concatenate([[0], np.cumsum(np.linalg.norm((full[:, :-1] - full[:, 1:]).T @ d, axis=1))]))
        ex("data untouched", np.array_equal(st["data"], r12(c["data"])), case, "")

    run_ = {"line": line, "mesh": mesh, "film": through, "path": path}
    for i, c in enumerate(cs):
        case = {f: c[f] for f in ("kind", "p", "q", "x", "u", "v")}
        chk.guard(c["kind"], case, lambda: run_[c["kind"]](i, c, case))
        chk.traces += 1
    plt.close("all")
    chk.assumptions += [
        "curves along an axis of one point are not drawn (their spacing is undefined)",
        "a picture is read off the artists it adds (curve data, mesh values, mesh corners, colour limits); fonts, labels and the colour bar are not looked at",
        "a mesh one point wide is compared by value only",
    ]
