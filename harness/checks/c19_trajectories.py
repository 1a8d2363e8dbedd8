"""C19: averages of states and trajectories (spec/Trajectories.tla)."""
from __future__ import annotations

import numpy as np
from bases import make_leaf, r12, same_basis
from charts import Options

from vlib import stable_hash


def run(chk):
    import matplotlib as mpl
    mpl.use("Agg")
    from matplotlib import pyplot as plt
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis
    from surface_potential_analysis.state_vector import plot as S
    from surface_potential_analysis.state_vector import plot_value_list as V

    Options(chk, (S, V))

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Trajectories", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 36 if chk.thorough else 24},
                   init="InitT", invariants=("Turned", "Followed", "NoLag", "Solved", "Agreed", "EmitT"), workers=8)
    chk.sample(cs[0])
    fig, shared = plt.subplots()

    def drawn(fn):
        """The curves a plot adds, as (x, y)."""
        for a in [*shared.lines, *shared.patches, *shared.collections]:
            a.remove()
        fn(shared)
        return [(np.asarray(l.get_xdata()), np.asarray(l.get_ydata())) for l in shared.lines]

    def curves(clause, fn, wants, case, tol=None):
        got = drawn(fn)
        ex(clause + ": curves", len(got) == len(wants), case, f"{len(got)} curves")
        for (gx, gy), (wx, wy) in zip(got, wants):
            kw = {"tol": tol} if tol else {}
            if wx is not None:
                eq(clause + ": along", gx, wx, case, **kw)
            eq(clause, gy, wy, case, **kw)

    def stack(ls, s):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a), a, len(ls), True) for a, b in enumerate(ls)))

    def mean(i, c, case):
        h = stable_hash(chk.seed, i)
        b = stack(c["p"], h)
        nd, m = b.ndim, c["q"][0]
        data = np.array([r12(d) for d in c["data"]])
        tb = EvenlySpacedTimeBasis(m, 1 + h % 2, -(h % 3), 2.5)
        one = FundamentalBasis(1)
        norm = np.real(r12(c["norm"])) / c["sx"]
        op = S.get_periodic_x_operator(b, tuple(c["x"]))
        ex("turn operator: basis", same_basis(op["basis"][0], b) and same_basis(op["basis"][1], b), case, "")
        mat = np.asarray(op["data"]).reshape(b.n, b.n)
        eq("turn", [np.vdot(d, mat @ d) for d in data], r12(c["turn"]) / c["sx"], case)
        if all(v == 1 for v in c["x"]):
            eq("turn", S.get_periodic_x_operator(b)["data"], op["data"], case)
        ls = [np.linalg.norm(l.delta_x) for l in b]
        dx = np.array([l.delta_x for l in b])
        dk = np.linalg.norm(2 * np.pi * np.linalg.inv(dx).T, axis=1)
        for scale in ((1.0, 3.0) if chk.thorough else ((1.0, 3.0)[h % 2],)):
            states = {"basis": TupleBasis(TupleBasis(one, tb), b), "data": scale * data.reshape(-1).astype(np.complex128)}
            keep = states["data"].copy()
            for a in range(nd):
                z = r12(c["turns"][a]) / c["sx"]
                k = np.real(r12(c["mk"][a])) / c["sk"] * dk[a] * scale**2
                x = np.real(r12(c["mx"][a])) / c["sx"] * ls[a] / c["p"][a]["nf"] * scale**2
                small = (np.abs(z) < 1e-9 * norm) | (np.abs(z) > (1 - 1e-9) * norm)
                draw = chk.thorough or (h + a) % 3 == 0
                if draw:
                    curves("mean position", lambda ax: S.plot_averaged_occupation_1d_x(states, (a,), ax=ax), [(tb.times, x)], case)
                    curves("mean wavevector", lambda ax: S.plot_averaged_occupation_1d_k(states, (a,), ax=ax), [(tb.times, k)], case)
                if np.any(norm == 0) or np.any(small):
                    continue
                at = (np.angle(z) % (2 * np.pi)) / (2 * np.pi) * ls[a]
                wide = np.sqrt(-4 * (ls[a] / (2 * np.pi)) ** 2 * np.log(np.abs(z) / norm))
                # the middle of the cell is as good a place for the cut as its start
                near = lambda v: np.cos(2 * np.pi * np.asarray(v) / ls[a])  # noqa: E731
                k1 = k / scale**2 / norm
                r = S.get_coherent_coordinates(states, a)
                g = np.asarray(r["data"]).reshape(3, m)
                ex("coherent coordinates: basis", tuple(r["basis"].shape) == (3, m), case, "")
                eq("coherent position", near(g[0]), near(at), case)
                ex("coherent position: in the cell", np.all(np.real(g[0]) >= 0) and np.all(np.real(g[0]) <= ls[a] * (1 + 1e-12)), case, str(g[0]))
                eq("coherent position", np.sin(2 * np.pi * g[0] / ls[a]), np.sin(2 * np.pi * at / ls[a]), case)
                eq("coherent wavevector", g[1], k1, case)
                eq("spread", g[2], wide, case)
                ex("states untouched", np.array_equal(states["data"], keep), {**case, "function": "get_coherent_coordinates"}, "")
                if not draw:
                    continue
                curves("spread over time", lambda ax: S.plot_spread_1d(states, (a,), ax=ax), [(tb.times, wide)], case)
                curves("spread by wavevector", lambda ax: S.plot_spread_against_k(states, (a,), ax=ax), [(k1, wide)], case)
                (gx, gy), = drawn(lambda ax: S.plot_spread_against_x(states, (a,), ax=ax))
                eq("spread by position", gy, wide, case)
                eq("spread by position: along", near(gx), near(at), case)
            ex("states untouched", np.array_equal(states["data"], keep), case, "")

    def walk(i, c, case):
        h = stable_hash(chk.seed, i)
        n, q, ax_ = c["p"][0], c["q"], c["axis"]
        nd = len(q)
        # axes that lean on each other: the distance is along the axis of the walk
        dx = np.array([[1.0, 0, 0], [0.75, 1.0, 0], [0, -0.5, 2.0]])[:nd, :nd] * ((2.0 + (h + np.arange(nd)) % 3) / np.linalg.norm([[1.0, 0, 0], [0.75, 1.0, 0], [0, -0.5, 2.0]][:nd], axis=1))[:, None]
        L = np.linalg.norm(dx[ax_])
        two = (h // 3) % 2
        b = TupleBasis(*((B.FundamentalTransformedPositionBasis if two and (h // 5 + a) % 2 == 0 else B.FundamentalPositionBasis)(dx[a], q[a]) for a in range(nd)))
        data = np.zeros((6, b.n), dtype=np.complex128)
        data[np.arange(6), c["at"]] = np.exp(1j * np.arange(6))
        for a in range(nd):
            if isinstance(b[a], B.FundamentalTransformedPositionBasis):
                data = np.fft.fft(data.reshape(6, *q), axis=1 + a, norm="ortho").reshape(6, -1)
        back = data[::-1]
        tb = EvenlySpacedTimeBasis(6, 1, h % 2, 3.0)
        states = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), tb), b), "data": np.array([data, back]).reshape(-1)}
        solo = {"basis": TupleBasis(TupleBasis(FundamentalBasis(1), tb), b), "data": data.reshape(-1)}
        cov = np.array(c["covered"]) * L / n
        ways = [((ax_,),)] + ([()] if ax_ == 0 else [])
        cnt = np.arange(6, 0, -1)
        lags = np.arange(6) * tb.dt
        for way in ways:
            got = drawn(lambda ax: S.plot_periodic_averaged_occupation_1d_x(states, *way, ax=ax))
            ex("distance covered: curves", len(got) == 2, case, "")
            for (gx, gy), w in zip(got, (cov, cov[::-1])):
                eq("distance covered: along", gx, tb.times, case)
                eq("distance covered", gy - gy[0], w - w[0], case)
                turns = (gy[0] - w[0]) / L
                eq("distance covered: start", turns, np.round(turns), case)
            # each trajectory starts in the same cell, wherever the one before it ended
            starts = [gy[0] for _, gy in got]
            ex("distance covered: cell of the start", np.ptp(starts) < L * (1 + 1e-9), case, f"{starts} in cells of {L}")
            # both directions cover the same distances
            curves("mean squared displacement of states", lambda ax: S.plot_average_displacement_1d_x(states, *way, ax=ax),
                   [(lags, np.array(c["squares"]) * (L / n) ** 2 / cnt)], case)
            if c["scatter"]:
                sc = r12(c["scatter"]) / cnt
                curves("scattering of states", lambda ax: S.plot_average_isf_1d_x(states, 2 * np.pi / L, *way, ax=ax, measure="real"), [(lags, np.real(sc))], case)
                curves("scattering of states", lambda ax: S.plot_average_isf_1d_x(solo, 2 * np.pi / L, *way, ax=ax, measure="imag"), [(lags, np.imag(sc))], case)
            if n % 2 == 0:
                # at a point, the mean of the wavevectors is that of the ring: half a step below nothing
                k0 = np.linalg.norm(2 * np.pi * np.linalg.inv(dx).T[ax_]) / 2
                curves("drift of states", lambda ax: S.plot_average_drift_1d_x(solo, *way, ax=ax), [(lags, np.abs(np.array(c["moved"])) * L / n * k0 / cnt)], case)

    def lag(i, c, case):
        h = stable_hash(chk.seed, i)
        x = np.array(c["u"], float)
        m, n = x.shape
        unit = (1.0, 0.25, 1e-10)[h % 3]
        tb = EvenlySpacedTimeBasis(n, 1 + h % 3, h % 2, 4.0)
        cnt = np.arange(n, 0, -1)
        wb = TupleBasis(FundamentalBasis(m), tb)
        pos = {"basis": wb, "data": x.reshape(-1) * unit}
        keep = pos["data"].copy()
        w = np.array(c["weight"], float)
        kv = {"basis": wb, "data": w.reshape(-1) / unit}
        cum = np.cumsum(1 / w, axis=1)[:, ::-1]
        for name, fn, args, want, u in (
            ("mean squared displacement", S.get_average_displacements, (), np.array(c["squares"]) / cnt, unit**2),
            ("scattering", S.get_average_isf, (c["x"] * np.pi / 6 / unit,), r12(np.array(c["scatter"]).reshape(-1, 4)).reshape(m, n) / cnt, 1.0),
            ("drift over mean", S.get_normalized_average_drift, (kv,), np.array(c["moves"]) / cum, 1.0),
            ("mean of drifts", S.get_average_normalized_drift, (kv,), np.array(c["pulled"]) / cnt, 1.0),
        ):
            r = fn(pos, *args)
            g = np.asarray(r["data"]).reshape(m, n) / u
            if "drift" in name:
                g, want = np.abs(g), np.abs(want)
            eq(name, g, want, case)
            rb = r["basis"]
            ex(name + ": basis", tuple(rb.shape) == (m, n) and np.allclose(rb[1].times, np.arange(n) * tb.dt), case, "")
            ex("positions untouched", np.array_equal(pos["data"], keep), case, "")
        if x[0, 0] % 2 and not chk.thorough:
            return
        # the averages over trajectories
        vals = {"basis": wb, "data": x.reshape(-1)}
        curves("average over trajectories", lambda ax: V.plot_average_value_list_against_time(vals, ax=ax, measure="real"), [(tb.times, x.mean(axis=0))], case)
        band = shared.collections[0].get_paths()[0].vertices
        dev = np.sqrt(np.array(c["spreads"], float)) / m / np.sqrt(m)
        for j, tt in enumerate(tb.times):
            ys = band[np.isclose(band[:, 0], tt, rtol=1e-9, atol=1e-12), 1]
            eq("average over trajectories: uncertainty", (ys.min(), ys.max()), (x[:, j].mean() - dev[j], x[:, j].mean() + dev[j]), {**case, "time": j})
        curves("each trajectory", lambda ax: V.plot_all_value_list_against_time(vals, ax=ax, measure="real"), [(tb.times, r) for r in x], case)
        curves("each trajectory", lambda ax: V.plot_all_value_list_against_time(vals, ax=ax), [(tb.times, np.abs(r)) for r in x], case)
        curves("stacked", lambda ax: V.plot_split_value_list_against_time(vals, ax=ax, measure="real"), [(tb.times, r) for r in np.cumsum(x, axis=0)], case)
        one = {"basis": tb, "data": x[0]}
        curves("over time", lambda ax: V.plot_value_list_against_time(one, ax=ax, measure="real"), [(tb.times, x[0])], case)
        curves("in order", lambda ax: V.plot_value_list_against_nx(one, ax=ax, measure="real"), [(np.arange(n), x[0])], case)
        # frequencies: those nearest zero, phases counted from time zero
        f = np.arange(n) - n // 2
        t = tb.nt_points // tb.step if tb.step == 1 else tb.nt_points / tb.step
        if float(tb.offset) % 1 == 0 and tb.step == 1:
            ft = np.array([[np.sum(r * np.exp(-2j * np.pi * k * t / n)) for k in f] for r in x])
            for ms, part in (("real", np.real), ("imag", np.imag), ("abs", np.abs)):
                curves("frequencies", lambda ax: V.plot_value_list_against_frequency(one, ax=ax, measure=ms), [(f / (n * tb.dt), part(ft[0]))], case)
                curves("frequencies, stacked", lambda ax: V.plot_split_value_list_against_frequency(vals, ax=ax, measure=ms), [(f / (n * tb.dt), part(r)) for r in np.cumsum(ft, axis=0)], case)

    def occ(i, c, case):
        h = stable_hash(chk.seed, i)
        n, m = c["p"][0], c["u"][0]
        b = TupleBasis((FundamentalBasis(n), B.FundamentalPositionBasis(np.array([1.5]), n))[h % 2])
        ham = np.array([[r12([v])[0] for v in row] for row in c["ham"]]) / n
        op = {"basis": TupleBasis(b, b), "data": ham.reshape(-1)}
        data = np.array([r12(d) for d in c["data"]])
        states = {"basis": TupleBasis(FundamentalBasis(m), b), "data": data.reshape(-1).copy()}
        w = np.array([np.real(r12(o)) for o in c["occ"]]) / n
        e = np.array(c["energies"], float)
        curves("occupation", lambda ax: S.plot_all_eigenstate_occupations(op, states, ax=ax), [(e, r) for r in w], case)
        curves("occupation", lambda ax: S.animate_all_eigenstate_occupations(op, states, ax=ax), [(e, r) for r in w], case)
        curves("occupation, average", lambda ax: S.plot_average_eigenstate_occupation(op, states, ax=ax), [(e, w.mean(axis=0))], case)
        curves("occupation", lambda ax: S.plot_eigenstate_occupation(op, {"basis": b, "data": data[0]}, ax=ax), [(e, w[0])], case)
        ex("states untouched", np.array_equal(states["data"], data.reshape(-1)) and np.array_equal(op["data"], ham.reshape(-1)), case, "")

    kinds = {"mean": mean, "walk": walk, "lag": lag, "occ": occ}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, "p": [b["n"] if isinstance(b, dict) else b for b in c["p"]], "q": c["q"], "x": c["x"], "u": c["u"], "i": i}
        if k == "mean":
            case["basis"] = [(b["sp"], b["cls"], b["n"], b["nf"], b["off"]) for b in c["p"]]
        chk.guard(k, case, lambda: kinds[k](i, c, case))
        chk.traces += 1
    plt.close(fig)
    chk.assumptions += [
        "distances along an axis count lengths of its lattice vector, wavevectors lengths of its reciprocal vector",
        "the sign of a drift is not stated; its size is judged",
        "the start of a distance covered is judged up to whole cells, as that of an angle",
    ]
