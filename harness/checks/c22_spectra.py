"""C22: charts of spectra, histograms and probabilities (spec/Spectra.tla)."""
from __future__ import annotations

import numpy as np
from bases import r12
from charts import Options, Sheet, measured
from scipy.constants import Boltzmann, hbar

from vlib import stable_hash


def run(chk):
    sh = Sheet(chk)
    from scipy import stats
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis
    from surface_potential_analysis.dynamics import isf as I
    from surface_potential_analysis.dynamics import isf_plot as IP
    from surface_potential_analysis.dynamics import plot as DP
    from surface_potential_analysis.dynamics.incoherent_propagation import plot as RP
    from surface_potential_analysis.dynamics.incoherent_propagation.isf import RateDecomposition
    from surface_potential_analysis.kernel import build as KB
    from surface_potential_analysis.kernel import plot as KP
    from surface_potential_analysis.operator import plot as OP
    from surface_potential_analysis.probability_vector import plot as QP
    from surface_potential_analysis.state_vector import eigenvalue_list_plot as EP
    from surface_potential_analysis.state_vector import plot as SP
    from surface_potential_analysis.state_vector import plot_value_list as VP
    from surface_potential_analysis.util import squared_scale as Q

    Options(chk, (IP, DP, KP, OP, QP, EP, SP, VP),
            skip=("plot_operator_sparsity", "plot_kernel_sparsity", "plot_value_list_distribution", "plot_x_distribution_1d", "plot_k_distribution_1d", "plot_spread_distribution_1d", "plot_periodic_x_distribution_1d"),
            chance=("plot_diagonal_noise_operators_single_sample", "plot_noise_operators_single_sample_x", "plot_noise_kernel_single_sample"))
    eq, ex = chk.eq, chk.expect
    cs = []
    for k in range(4 if chk.thorough else 1):
        cs += chk.cases("Spectra", {"Seed": chk.seed + k, "Per": 1, "MaxN": 12}, init="InitS", workers=8,
                        invariants=("Halved", "Shared", "Lossy", "Binned", "Totals", "Kept2", "Marked", "EmitS"))
    chk.sample(cs[0])
    scales = ("linear", "log", "symlog", "squared")

    def space(n, k=False):
        cls = B.FundamentalTransformedPositionBasis if k else B.FundamentalPositionBasis
        return TupleBasis(cls(np.array([2.0 + n]), n))

    def level(i, c, case):
        h = stable_hash(chk.seed, i)
        n = len(c["q"])
        t = 50.0 + h % 300
        unit = Boltzmann * t * np.log(2)
        e = np.array(c["q"], float) * unit
        b = FundamentalBasis(n)
        st = {"basis": TupleBasis(b, b), "data": np.eye(n, dtype=complex).ravel(), "eigenvalue": e.copy()}
        above, occ = np.array(c["above"], float), np.array(c["occ"]) / c["z"]
        s = scales[h % 4]

        def chart(name, fn, tol=1e-9):
            sh.draw(name, fn, case)
            cc = {**case, "function": name}
            ex("occupations: curves", len(sh.ax.lines) == 1, cc, "")
            ln = sh.ax.lines[0]
            eq("occupations: energies", np.asarray(ln.get_xdata()) / unit, above, cc, tol)
            eq("occupations", ln.get_ydata(), occ, cc, tol)
            sh.scaled(s, cc)

        chart("plot_eigenstate_occupations of states", lambda ax: EP.plot_eigenstate_occupations(st, t, ax=ax, scale=s))
        eq("occupations: states untouched", st["eigenvalue"] / unit, c["q"], case)
        # energies are measured from the lowest, wherever that is
        up = {**st, "eigenvalue": e + 5 * unit}
        chart("plot_eigenstate_occupations of states: raised", lambda ax: EP.plot_eigenstate_occupations(up, t, ax=ax, scale=s))
        a = r12(c["ham"]) / c["den"] * unit
        op = {"basis": TupleBasis(b, b), "data": a.copy()}
        chart("plot_eigenstate_occupations", lambda ax: OP.plot_eigenstate_occupations(op, t, ax=ax, scale=s), 1e-6)
        eq("occupations: operator untouched", op["data"], a, case)
        near = np.array(c["sizes"], float)
        for name, fn in (("plot_eigenvalues of states", lambda ax, m: EP.plot_eigenvalues(st, ax=ax, scale=s, measure=m)),
                         ("plot_eigenvalues", lambda ax, m: OP.plot_eigenvalues(op, ax=ax, scale=s, measure=m)),
                         ("plot_eigenvalues: hermitian", lambda ax, m: OP.plot_eigenvalues(op, hermitian=True, ax=ax, scale=s, measure=m))):
            cc = {**case, "function": name}
            sh.draw(name, lambda ax: fn(ax, "abs"), case)
            eq("eigenvalues: along", sh.ax.lines[0].get_xdata(), np.arange(n), cc)
            eq("eigenvalues", np.asarray(sh.ax.lines[0].get_ydata()) / unit, near, cc, 1e-6)
            sh.scaled(s, cc)
            if c["clear"]:
                sh.draw(name, lambda ax: fn(ax, "real"), case)
                eq("eigenvalues: signed", np.asarray(sh.ax.lines[0].get_ydata()) / unit, np.array(c["bysize"], float), cc, 1e-6)
        eq("eigenvalues: states untouched", st["eigenvalue"] / unit, c["q"], case)
        # against time, with uncertainties
        tb = EvenlySpacedTimeBasis(n, 1 + h % 2, -(h % 3), 2.0 + h % 5)
        vals = (np.array(c["q"]) + 1j * near)
        m = ("real", "imag", "abs")[h % 3]
        ev = {"basis": TupleBasis(tb, tb), "data": vals.copy()}
        if n > 1:
            sh.curves("plot_eigenvalue_against_time", lambda ax: EP.plot_eigenvalue_against_time(ev, ax=ax, measure=m), [(tb.times, measured(vals, m))], case, scale="linear")
            sh.curves("plot_isf_against_time", lambda ax: IP.plot_isf_against_time(ev, ax=ax, measure=m), [(tb.times, measured(vals, m))], case)
            err = {**ev, "standard_deviation": near + 1}
            sh.draw("plot_eigenvalue_against_time: uncertainties", lambda ax: EP.plot_eigenvalue_against_time(err, ax=ax, measure=m), case)
            bars = np.array([g for g in sh.ax.containers[0].lines[2][0].get_segments()])
            y = measured(vals, m)
            eq("uncertainties", bars[:, :, 1], np.stack([y - near - 1, y + near + 1], axis=-1), case)
            eq("uncertainties: along", bars[:, :, 0], np.stack([tb.times] * 2, axis=-1), case)
            two = np.array([vals, 3j * vals + 1])
            both = TupleBasis(FundamentalBasis(2), tb)
            sh.curves("plot_average_isf_against_time", lambda ax: IP.plot_average_isf_against_time({"basis": TupleBasis(both, both), "data": two.reshape(-1)}, ax=ax, measure=m),
                      [(tb.times, measured(two.mean(axis=0), m))], case)
            kb = MomentumBasis(np.cumsum(1.0 + near))
            sh.curves("plot_value_list_against_momentum", lambda ax: VP.plot_value_list_against_momentum({"basis": kb, "data": vals}, ax=ax, measure=m), [(kb.k_points, measured(vals, m))], case, scale="linear")
            sh.draw("plot_value_list_against_momentum: uncertainties", lambda ax: VP.plot_value_list_against_momentum({"basis": kb, "data": vals, "standard_deviation": near + 1}, ax=ax, measure=m), case)
            bars = np.array([g for g in sh.ax.containers[0].lines[2][0].get_segments()])
            eq("uncertainties", bars[:, :, 1], np.stack([y - near - 1, y + near + 1], axis=-1), {**case, "function": "plot_value_list_against_momentum"})
        if i % 11 == 0:
            times = np.linspace(0, 3, 7)
            for name, fit, fn, plot in (
                ("4 variables", I.ISF4VariableFit(3.0, 0.25, 0.5, 0.5, 0.25), I.get_isf_from_4_variable_fit, IP.plot_isf_4_variable_fit_against_time),
                ("fey 4 variables", I.ISFFey4VariableFit(2.0, 3.0, 0.25, 0.5, 0.5, 0.25), I.get_isf_from_fey_4_variable_model_110, IP.plot_isf_fey_4_variable_fit_against_time),
                ("fey 110", I.ISFFeyModelFit(3.0, 0.5, 1.0 + h % 3), I.get_isf_from_fey_model_fit_110, IP.plot_isf_fey_model_fit_110_against_time),
                ("fey 112bar", I.ISFFeyModelFit(3.0, 0.5, 1.0 + h % 3), I.get_isf_from_fey_model_fit_112bar, IP.plot_isf_fey_model_fit_112bar_against_time)):
                sh.curves("scattering of a fit: " + name, lambda ax: plot(fit, times, ax=ax, measure=m), [(times, measured(fn(fit, times)["data"], m))], case)

    def steps(name, fn, sizes, case):
        """A curve of how many sizes there are up to each value: it rises by one at every size."""
        sh.draw(name, fn, case)
        cc = {**case, "function": name}
        ex("counts: curves", len(sh.ax.lines) == 1, cc, "")
        gx, gy = np.asarray(sh.ax.lines[0].get_xdata(), float), np.asarray(sh.ax.lines[0].get_ydata(), float)
        s = np.sort(np.asarray(sizes, float))
        ex("counts: up to the largest", np.all(np.diff(gx) >= 0) and s[-1] * 0.98 <= gx[-1] <= s[-1] * 1.0000001, cc, f"{gx[-1]} of {s[-1]}")
        step = gx[-1] / gx[-2] if len(gx) > 1 else 1.0
        # away from the sizes by more than a step; the last is of everything
        clear = np.array([np.all(np.abs(np.log(v / s)) > 2 * np.log(step) + 1e-12) for v in gx])
        clear[-1] = False
        want = np.searchsorted(s, gx, side="right")
        eq("counts", gy[clear], want[clear], cc)
        eq("counts: of all", gy[-1], len(s), cc)
        ex("counts: logarithmic", sh.ax.get_xscale() == "log", cc, sh.ax.get_xscale())

    def count(i, c, case):
        h = stable_hash(chk.seed, i)
        u = np.array([[complex(z[0], z[3]) for z in row] for row in c["u"]])
        n = len(u)
        unit = 10.0 ** -(h % 20)
        b = FundamentalBasis(n)
        op = {"basis": TupleBasis(b, b), "data": (u * unit).reshape(-1)}
        big = np.sqrt([z for z in c["sizes"] if z > 0]) * unit
        if len(big):
            sc = scales[h % 4]
            steps("plot_operator_sparsity", lambda ax: OP.plot_operator_sparsity(op, ax=ax, scale=sc), big, case)
            sh.scaled(sc, {**case, "function": "plot_operator_sparsity"})
            steps("plot_operator_sparsity", lambda ax: OP.plot_operator_sparsity(op, ax=ax), big, case)
            sh.scaled("linear", {**case, "function": "plot_operator_sparsity"})
            pos = np.array([z for z in c["reals"] if z > 0]) * unit
            if len(pos):
                steps("plot_operator_sparsity: real", lambda ax: OP.plot_operator_sparsity(op, ax=ax, measure="real"), pos, case)
            dg = np.sqrt([z for z in c["diags"] if z > 0]) * unit
            steps("plot_operator_diagonal_sparsity", lambda ax: OP.plot_operator_diagonal_sparsity(op, ax=ax), dg, case)
        for m in ("abs", "real", "imag"):
            sh.mesh("plot_operator_2d", lambda ax: OP.plot_operator_2d(op, ax=ax, measure=m), measured(u * unit, m), case)
            d = np.diag(np.diag(u)) * unit
            sh.mesh("plot_operator_2d_diagonal", lambda ax: OP.plot_operator_2d_diagonal({"basis": TupleBasis(b, b), "data": np.diag(u) * unit}, ax=ax, measure=m), measured(d, m), case)
        ex("operator untouched", np.array_equal(op["data"], (u * unit).reshape(-1)), case, "")

    trials = {"n": 0}

    def kernel(i, c, case):
        h = stable_hash(chk.seed, i)
        n = c["p"][0]
        b = space(n, False)
        k = r12(c["ker"]).reshape(n, n) / c["den"]
        sq = TupleBasis(TupleBasis(b, b), TupleBasis(b, b))
        dk = {"basis": sq, "data": k.reshape(-1).copy()}
        s = scales[h % 4]
        lost = np.array(c["lost"], float)
        sh.curves("plot_diagonal_kernel_truncation_error", lambda ax: KP.plot_diagonal_kernel_truncation_error(dk, ax=ax, scale=s), [(np.arange(n + 1), lost)], case, 1e-7, s)
        m = ("abs", "real", "imag")[h % 3]
        sh.mesh("plot_diagonal_kernel_2d", lambda ax: KP.plot_diagonal_kernel_2d(dk, ax=ax, measure=m), measured(r12(c["shifted"]).reshape(n, n) / c["den"], m), case)
        if n == 4 and c["full"]:
            b2 = space(2)
            sq2 = TupleBasis(TupleBasis(b2, b2), TupleBasis(b2, b2))
            full = r12(c["full"]) / c["den"]
            fk = {"basis": sq2, "data": full.copy()}
            if i % 4 == 0:
                sh.curves("plot_kernel_truncation_error", lambda ax: KP.plot_kernel_truncation_error(fk, ax=ax, scale=s), [(np.arange(n + 1), lost)], case, 1e-7, s)
                pick = [0, 4, 2]
                sh.curves("plot_kernel_truncation_error: chosen", lambda ax: KP.plot_kernel_truncation_error(fk, truncations=pick, ax=ax), [(pick, lost[pick])], case, 1e-7)
                # sizes of eigenvalues come from a decomposition: equal ones differ in the last digits
                if len(set(c["ordered"])) == 4:
                    steps("plot_kernel_sparsity", lambda ax: KP.plot_kernel_sparsity(fk, ax=ax, scale=s), c["ordered"], case)
                    sh.scaled(s, {**case, "function": "plot_kernel_sparsity"})
                    # strengths are real
                    steps("plot_kernel_sparsity: real", lambda ax: KP.plot_kernel_sparsity(fk, ax=ax, measure="real"), c["ordered"], case)
                    sh.scaled("linear", {**case, "function": "plot_kernel_sparsity"})
            sh.mesh("plot_kernel_2d", lambda ax: KP.plot_kernel_2d(fk, ax=ax, measure=m), measured(full.reshape(4, 4), m), case)
        ops = r12(c["ops"]).reshape(n, n) / c["one"]
        lst = {"basis": TupleBasis(FundamentalBasis(n), TupleBasis(b, b)), "data": ops.reshape(-1).copy(), "eigenvalue": np.array(c["q"], float)}
        down = np.array(c["ordered"], float)[::-1]
        sh.curves("plot_diagonal_noise_operators_eigenvalues", lambda ax: KP.plot_diagonal_noise_operators_eigenvalues(lst, ax=ax, scale=s), [(np.arange(n), down)], case, scale=s)
        for keep in (1, 2, n):
            sh.curves("plot_diagonal_noise_operators_eigenvalues: the largest", lambda ax: KP.plot_diagonal_noise_operators_eigenvalues(lst, keep, ax=ax), [(np.arange(keep), down[:keep])], {**case, "keep": keep})
        # strengths may have phases: their sizes say which are kept
        turned = {**lst, "eigenvalue": np.array(c["q"]) * 1j ** ((np.arange(n) + h) % 4)}
        for keep in (1, 2, n):
            cut = KB.truncate_diagonal_noise_operator_list(turned, range(keep))
            cc = {**case, "keep": keep}
            eq("truncated list: strengths", np.abs(cut["eigenvalue"]), down[:keep], cc)
            for e, d in zip(cut["eigenvalue"], np.asarray(cut["data"]).reshape(-1, n)):
                ex("truncated list: its own operator", any(np.allclose(d, o) for o, q in zip(ops, turned["eigenvalue"]) if q == e), cc, f"strength {e}")
        if n > 2 and len(set(c["q"])) == n and i % 5 == 0:
            order = np.argsort(-np.array(c["q"]))
            for sel in ([0], [n - 1], [1, 0], None):
                idx = order[sel] if sel is not None else order
                d = ops[idx] - ops[idx][:, :1]
                plot = {
                    "plot_diagonal_noise_operators_single_sample": lambda ax, m: KP.plot_diagonal_noise_operators_single_sample(lst, sel, ax=ax, measure=m),
                    "plot_noise_kernel_single_sample": lambda ax, m: KP.plot_noise_kernel_single_sample(dk, sel, ax=ax, measure=m),
                }
                full = np.zeros((n, n, n), dtype=complex)
                full[:, np.arange(n), np.arange(n)] = ops
                bk = space(n, True)
                f = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)
                fl = {"basis": TupleBasis(FundamentalBasis(n), TupleBasis(bk, bk)), "data": (f @ full @ f.conj().T).reshape(-1), "eigenvalue": np.array(c["q"], float)}
                plot["plot_noise_operators_single_sample_x"] = lambda ax, m: KP.plot_noise_operators_single_sample_x(fl, sel, ax=ax, measure=m)
                for name, fn in plot.items():
                    cc = {**case, "function": name, "kept": sel}
                    md = "real" if stable_hash(i, name) % 2 else "imag"
                    sh.draw(name, lambda ax: fn(ax, md), case)
                    gx, gy = (np.asarray(a) for a in (sh.ax.lines[0].get_xdata(), sh.ax.lines[0].get_ydata()))
                    eq("sample of noise: along", gx, np.arange(n + 1) * (2.0 + n) / n, cc)
                    eq("sample of noise: around", gy[-1], gy[0], cc)
                    eq("sample of noise: from the first", gy[0], 0.0, cc)
                    y = gy[:n] / np.sqrt(hbar)
                    span = np.concatenate([d.real, d.imag])
                    w, *_ = np.linalg.lstsq(span.T, y, rcond=None)
                    eq("sample of noise: of the operators kept", span.T @ w, y, cc, 1e-7)
                    if trials["n"] < 6 and sel is not None:
                        trials["n"] += 1
                        ys = []
                        for _ in range(300):
                            fn(sh.fresh(), md)
                            ys.append(np.asarray(sh.ax.lines[0].get_ydata())[:n] / np.sqrt(hbar))
                        ys = np.array(ys)
                        want = 0.5 * np.real(np.einsum("k,ki,kj->ij", np.array(c["q"], float)[idx], d.conj(), d))
                        sd = np.sqrt(np.abs(np.diag(want)))
                        ex("sample of noise: mean", bool(np.all(np.abs(ys.mean(axis=0)) <= 8 / np.sqrt(300) * sd + 1e-9)), cc, "")
                        ex("sample of noise: correlation", bool(np.all(np.abs(ys.T @ ys / 300 - want) <= 12 / np.sqrt(300) * np.outer(sd, sd) + 1e-9)), cc, lambda: f"{(ys.T @ ys / 300).tolist()} specified {want.tolist()}")
            # on a plane, where only one row is noisy
            for axis in (0, 1):
                row = 1
                put = lambda z: np.stack([0 * z, z], axis=-1 if axis == 0 else -2)  # noqa: E731
                wide = np.array([put(o).reshape(-1) for o in ops])
                shape = (n, 2) if axis == 0 else (2, n)
                bp = TupleBasis(*(B.FundamentalPositionBasis(np.array([2.0 + n, 0.0] if e == axis else [0.5, 3.0]), d) for e, d in enumerate(shape)))
                bq = TupleBasis(*(B.FundamentalTransformedPositionBasis(l.delta_x, l.n) for l in bp))
                up = {"basis": TupleBasis(FundamentalBasis(n), TupleBasis(bp, bp)), "data": wide.reshape(-1), "eigenvalue": np.array(c["q"], float)}
                at = np.flatnonzero(put(np.ones(n)).reshape(-1))
                big = np.zeros((2 * n, 2 * n), dtype=complex)
                big[np.ix_(at, at)] = k
                kk = {"basis": TupleBasis(TupleBasis(bp, bp), TupleBasis(bp, bp)), "data": big.reshape(-1)}
                f2 = np.fft.fftn(np.eye(2 * n).reshape(*shape, 2 * n), axes=(0, 1), norm="ortho").reshape(2 * n, 2 * n)
                fp = {"basis": TupleBasis(FundamentalBasis(n), TupleBasis(bq, bq)), "data": np.array([f2 @ np.diag(o) @ f2.conj().T for o in wide]).reshape(-1), "eigenvalue": np.array(c["q"], float)}
                for name, fn, of in (("plot_diagonal_noise_operators_single_sample", KP.plot_diagonal_noise_operators_single_sample, up),
                                     ("plot_noise_kernel_single_sample", KP.plot_noise_kernel_single_sample, kk),
                                     ("plot_noise_operators_single_sample_x", KP.plot_noise_operators_single_sample_x, fp)):
                    for idx in ((0,), (row,), None):
                        cc = {**case, "function": name, "axis": axis, "row": idx}
                        sh.draw(name, lambda ax: fn(of, [0], (axis,), idx, ax=ax, measure="imag"), case)
                        gx, gy = (np.asarray(z) for z in (sh.ax.lines[0].get_xdata(), sh.ax.lines[0].get_ydata()))
                        eq("sample of noise on a plane: along", gx, np.arange(n + 1) * (2.0 + n) / n + (0 if idx == (0,) else 0.25), cc)
                        y = gy[:n] / np.sqrt(hbar)
                        d = ops[order[:1]] * (0 if idx == (0,) else 1)
                        span = np.concatenate([d.real, d.imag])
                        w, *_ = np.linalg.lstsq(span.T, y, rcond=None)
                        eq("sample of noise on a plane", span.T @ w, y, cc, 1e-7)
                        ex("sample of noise on a plane: some", idx == (0,) or np.ptp(gy) > 0 or np.ptp(d) < 1e-9, cc, "")
            ex("operators untouched", np.array_equal(lst["data"], ops.reshape(-1)), case, "")
        ex("kernel untouched", np.array_equal(dk["data"], k.reshape(-1)), case, "")

    def bars(cc, lo, hi, filled, total, scale=1.0, tol=1e-7):
        ps = sh.ax.patches
        ex("histogram: bars", len(ps) == len(filled), cc, f"{len(ps)} bars")
        w = (hi - lo) / len(filled)
        eq("histogram: at", np.array([q.get_x() for q in ps]) / scale, (lo + w * np.arange(len(filled))) / scale, cc, tol)
        eq("histogram", np.array([q.get_height() for q in ps]) * scale, np.array(filled) / (total * w) * scale, cc, tol)

    def bins(i, c, case):
        h = stable_hash(chk.seed, i)
        unit = 10.0 ** (h % 5 - 4)
        m = ("abs", "real", "imag")[h % 3]
        u = np.array(c["u"], float) * unit
        z = {"abs": u * np.exp(1j * np.arange(len(u))), "real": u + 1j * np.arange(len(u)), "imag": 1j * u + np.arange(len(u))}[m]
        off = 0.0 if m == "abs" else 3.0 * unit * (h % 4)
        z = z + {"abs": 0, "real": off, "imag": 1j * off}[m]
        vals = {"basis": FundamentalBasis(len(u)), "data": z.copy()}
        sh.draw("plot_value_list_distribution", lambda ax: VP.plot_value_list_distribution(vals, ax=ax, measure=m), case)
        if m != "abs":
            # whatever is measured is spread as in the specification
            bars(case, off, off + c["x"][0] * unit, c["filled"], len(u), unit)
            ex("histogram: no curve", len(sh.ax.lines) == 0, case, "")
        else:
            v = np.abs(z)
            if not np.any(np.abs((v - v.min()) / (v.max() - v.min()) * len(c["filled"]) % 1) < 1e-9 * 0):
                bars(case, 0.0, c["x"][0] * unit, c["filled"], len(u), unit)
        dist = ("normal", "exponential normal", "skew normal")[i % 3]
        if len(u) > 3 and len(u) < 100 and (dist == "normal" or i % 4 == 0):
            cc = {**case, "distribution": dist}
            sh.draw("plot_value_list_distribution: " + dist, lambda ax: VP.plot_value_list_distribution(vals, ax=ax, measure=m, distribution=dist), cc)
            v = measured(z, m)
            av, sd = v.mean(), np.sqrt(((v - v.mean()) ** 2).mean())
            lo, hi = av - 4 * sd, av + 4 * sd
            ex("histogram: curves", len(sh.ax.lines) == 1, cc, "")
            gx, gy = (np.asarray(a) for a in (sh.ax.lines[0].get_xdata(), sh.ax.lines[0].get_ydata()))
            eq("fit: ends", np.array([gx[0], gx[-1]]) / unit, np.array([lo, hi]) / unit, cc, 1e-7)
            n = len(sh.ax.patches)
            bars(cc, lo, hi, np.bincount(np.floor((v - lo) / (hi - lo) * n).astype(int), minlength=n), len(u), unit)
            if dist == "normal":
                eq("fit", gy * unit, unit * np.exp(-((gx - av) ** 2) / (2 * sd**2)) / (sd * np.sqrt(2 * np.pi)), cc, 1e-7)
            else:
                law = stats.exponnorm if dist == "exponential normal" else stats.skewnorm
                eq("fit", gy * unit, unit * law.pdf(gx, *law.fit(v)), cc, 1e-7)
        ex("values untouched", np.array_equal(vals["data"], z), case, "")

    def prob(i, c, case):
        h = stable_hash(chk.seed, i)
        (n0, n1, nb), (r, t) = c["p"], c["q"]
        sites = TupleBasis(FundamentalBasis(n0), FundamentalBasis(n1), FundamentalBasis(nb))
        tb = EvenlySpacedTimeBasis(t, 1 + h % 2, h % 2, 3.0)
        u = np.array(c["u"], float)
        reps = u.reshape(r, -1)
        s = scales[h % 4]

        def check(name, fn, want, labels=None):
            _, _, ls = sh.curves(name, fn, [(tb.times, y) for y in np.asarray(want, float).reshape(t, -1).T], case, scale=s)
            if labels:
                ex("labels", [l.get_label() for l in ls] == labels, {**case, "function": name}, "")

        for j in range(r):
            pr = {"basis": TupleBasis(tb, sites), "data": reps[j].copy()}
            check("plot_probability_per_band", lambda ax: DP.plot_probability_per_band(pr, ax=ax, scale=s), c["band"][j], [f"band {n}" for n in range(nb)])
            check("plot_probability_per_site", lambda ax: DP.plot_probability_per_site(pr, ax=ax, scale=s), c["site"][j], [f"site {n}" for n in range(n0 * n1)])
            check("plot_total_probability_against_time", lambda ax: QP.plot_total_probability_against_time(pr, ax=ax, scale=s), c["whole"][j])
            check("plot_probability_against_time", lambda ax: QP.plot_probability_against_time(pr, ax=ax, scale=s), reps[j])
        every = {"basis": TupleBasis(TupleBasis(FundamentalBasis(r), tb), sites), "data": u.copy()}
        check("plot_average_probability_per_band", lambda ax: DP.plot_average_probability_per_band(every, ax=ax, scale=s), np.array(c["all"]) / r, [f"band {n}" for n in range(nb)])
        ex("repeats in the title", f"over {r} repeats" in sh.ax.get_title(), case, sh.ax.get_title())
        ex("probabilities untouched", np.array_equal(every["data"], u), case, "")

    def rates(i, c, case):
        n, m = c["p"]
        co = np.array([[complex(*z) for z in row] for row in c["u"]]).reshape(m, n)
        ev = np.array([[complex(*z) for z in row] for row in c["q"]]).reshape(m, n)
        temps = 100.0 + 50 * np.arange(m)
        want = np.array(c["decay"], float).reshape(m, n)
        lst = [RateDecomposition(e, z) for e, z in zip(ev, co)]
        sh.curves("plot_rate_decomposition_against_temperature", lambda ax: RP.plot_rate_decomposition_against_temperature(lst, temps, ax=ax), [(temps, w) for w in want.T], case)

    def ticks(i, c, case):
        lo, hi = c["x"]
        loc = Q.SquaredLocator()
        want = np.sqrt(np.array(c["marks"]) / 7)
        eq("marks", loc.tick_values(lo, hi), want, case)
        ax = sh.fresh()
        ax.set_yscale(Q.SquaredScale(axis=None))
        ax.set_ylim(lo, hi)
        eq("marks on an axis", ax.yaxis.get_major_locator()(), want, case)
        t = ax.yaxis.get_transform()
        v = np.linspace(lo, hi, 5)
        eq("squares", t.transform(v), v**2, case)
        eq("squares: back", t.inverted().transform(v**2), v, case)
        eq("squares: and again", t.inverted().inverted().transform(v), v**2, case)
        ex("squares: one dimension", t.input_dims == t.output_dims == 1 and t.inverted().input_dims == t.inverted().output_dims == 1 and t.is_separable and t.inverted().is_separable, case, "")
        # as matplotlib finds it by name
        import matplotlib.scale as ms

        if "squared" in ms.get_scale_names():
            ax = sh.fresh()
            ax.set_yscale("squared")
            eq("squares by name", ax.yaxis.get_transform().transform(v), v**2, case)

    def distributions():
        """The distribution of a quantity is the histogram of its values against time."""
        rng = np.random.default_rng(chk.seed)
        b = TupleBasis(B.FundamentalPositionBasis(np.array([3.0, 0.5]), 4), B.FundamentalPositionBasis(np.array([0.0, 2.0]), 3))
        tb = EvenlySpacedTimeBasis(9, 1, 0, 4.0)
        z = rng.normal(size=(9, 12)) + 1j * rng.normal(size=(9, 12))
        z /= np.linalg.norm(z, axis=1)[:, None]
        st = {"basis": TupleBasis(TupleBasis(FundamentalBasis(1), tb), b), "data": z.reshape(-1)}
        for a in range(2):
            for name, chart, line, law in (
                ("x", SP.plot_x_distribution_1d, SP.plot_averaged_occupation_1d_x, None),
                ("k", SP.plot_k_distribution_1d, SP.plot_averaged_occupation_1d_k, "normal"),
                ("spread", SP.plot_spread_distribution_1d, SP.plot_spread_1d, "skew normal")):
                case = {"kind": "distribution", "of": name, "axis": a}
                line(st, (a,), ax=sh.fresh())
                v = np.asarray(sh.ax.lines[0].get_ydata(), float)
                sh.draw(f"distribution of {name}", lambda ax: chart(st, (a,), ax=ax), case)
                lo, hi = (v.min(), v.max()) if law is None else (v.mean() - 4 * v.std(), v.mean() + 4 * v.std())
                n = len(sh.ax.patches)
                ex("histogram: bars", n == 11, case, str(n))
                f = np.bincount(np.minimum(np.floor((v - lo) / (hi - lo) * n), n - 1).astype(int), minlength=n)
                bars(case, lo, hi, f, 9, abs(hi - lo))
                ex("histogram: curves", [l.get_label() for l in sh.ax.lines] == ([f"{law} fit"] if law else []), case, "")
            # of a position around the ring
            at = (np.arange(9) * (2 + a)) % 4
            w = np.zeros((9, 4, 3), dtype=complex)
            w[np.arange(9), at if a == 0 else 0, at % 3 if a else 0] = 1
            n, step = ((4, np.hypot(3.0, 0.5) / 4), (3, 2.0 / 3))[a]
            where = (at if a == 0 else at % 3) * step
            case = {"kind": "distribution", "of": "periodic x", "axis": a}
            one = {**st, "data": w.reshape(-1)}
            sh.draw("distribution of periodic x", lambda ax: SP.plot_periodic_x_distribution_1d(one, (a,), ax=ax), case)
            ps = sh.ax.patches
            ex("histogram: bars", len(ps) == 11, case, "")
            hgt = np.array([q.get_height() for q in ps]) * ps[0].get_width() * 9
            eq("histogram: counts of positions", np.sort(hgt[hgt > 1e-9]), np.sort(np.unique(np.round(where / step).astype(int), return_counts=True)[1]), case)
            # drift: distance over wavevector, averaged over the trajectories
            two = np.array([w, np.roll(w, 1, axis=0)])
            tr = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), tb), b), "data": (two.reshape(18, 12) * 0.8 + 0.1 * z[np.arange(18) % 9]).reshape(-1)}
            SP.plot_periodic_averaged_occupation_1d_x(tr, (a,), ax=sh.fresh())
            xs = np.array([l.get_ydata() for l in sh.ax.lines])
            SP.plot_averaged_occupation_1d_k(tr, (a,), ax=sh.fresh())
            ks = np.array([l.get_ydata() for l in sh.ax.lines])
            vb = TupleBasis(FundamentalBasis(2), tb)
            dr = SP.get_normalized_average_drift({"basis": vb, "data": xs.reshape(-1)}, {"basis": vb, "data": ks.reshape(-1)})
            dv = np.real(dr["data"]).reshape(2, 9)
            _, _, ln = sh.draw("plot_average_drift_1d_x", lambda ax: SP.plot_average_drift_1d_x(tr, (a,), ax=ax, measure="real"), case)
            eq("drift", np.asarray(ln.get_ydata()), dv.mean(axis=0), case, 1e-6)
            eq("drift: along", np.asarray(ln.get_xdata()), np.arange(9) * tb.dt, case)

    run_ = {"level": level, "count": count, "kernel": kernel, "bins": bins, "prob": prob, "rates": rates, "ticks": ticks}
    for i, c in enumerate(cs):
        case = {f: c[f] for f in ("kind", "p", "q", "x", "u") if c["kind"] != "bins" or f != "u" or len(c["u"]) < 20}
        chk.guard(c["kind"], case, lambda: run_[c["kind"]](i, c, case))
        chk.traces += 1
    chk.guard("distribution", {}, distributions)
    sh.close()
    chk.assumptions += [
        "counts of sizes are compared at the plotted values which are not within two steps of a size, and at the last",
        "the spread of samples of noise is judged from 300 of them, to within twelve standard errors",
        "fits to a histogram other than the normal one are those of scipy",
    ]
