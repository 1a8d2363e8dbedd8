"""C23: charts of bands, effective masses and occupations (spec/Bands.tla)."""
from __future__ import annotations

import numpy as np
from bases import make_leaf, r12
from charts import Options, Sheet, measured
from scipy.constants import Boltzmann, hbar

from vlib import stable_hash


def run(chk):
    sh = Sheet(chk)
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis import block_fraction_basis as F
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.state_vector import plot as SP
    from surface_potential_analysis.util import plot as U
    from surface_potential_analysis.wavepacket import get_eigenstate as G
    from surface_potential_analysis.wavepacket import plot as P
    from surface_potential_analysis.wavepacket import wavepacket as W
    from surface_potential_analysis.wavepacket.localization import _wannier90 as W90
    from surface_potential_analysis.wavepacket.localization_operator import get_identity_operator

    Options(chk, (SP, P))

    eq, ex = chk.eq, chk.expect
    cs = []
    for k in range(3 if chk.thorough else 1):
        cs += chk.cases("Bands", {"Seed": chk.seed + k, "Per": 1 if chk.thorough else 2, "MaxN": 48 if chk.thorough else 36}, init="InitB", workers=8,
                        invariants=("Widths", "FreeMass", "Shares", "Divided", "Centred", "EmitB"))
    chk.sample(cs[0])
    measures, scales = ("abs", "real", "imag"), ("linear", "symlog", "squared", "log")

    def samples(ls):
        return TupleBasis(*(B.FundamentalTransformedBasis(b["n"]) if b["cls"] == "low" and b["n"] == b["nf"] and b["sp"] == "k"
                            else make_leaf(b, 0, a, len(ls)) for a, b in enumerate(ls)))

    def states(ls, s=0):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a) if s else 0, a, len(ls), True) for a, b in enumerate(ls)))

    def drawn():
        return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()) for l in sh.ax.lines]

    def pictured(m):
        return np.asarray(m.get_array(), float).ravel(), np.asarray(m.get_coordinates(), float), np.array(m.get_clim(), float), type(m.norm).__name__

    def same_curves(name, fn, wants, case):
        """The curves drawn are those of wants: functions of the axes, of charts judged by C20."""
        want = []
        for w in wants:
            w(sh.fresh())
            want += drawn()
        sh.draw(name, fn, case)
        cc = {**case, "function": name}
        got = drawn()
        ex("curves", len(got) == len(want), cc, f"{len(got)} curves")
        for (gx, gy), (wx, wy) in zip(got, want):
            eq("curve: along", gx / np.max(np.abs(wx), initial=1e-300), wx / np.max(np.abs(wx), initial=1e-300), cc)
            eq("curve", gy, wy, cc)

    def same_picture(name, got, want, case):
        g, w = pictured(got), pictured(want)
        cc = {**case, "function": name}
        eq("picture", g[0], w[0], cc)
        top = np.max(np.abs(w[1])) or 1.0
        eq("picture: points", g[1] / top, w[1] / top, cc)
        if w[2][1] - w[2][0] > 1e-9 * np.max(np.abs(w[0])) and np.ptp(w[0]) > 1e-9 * np.max(np.abs(w[0])):    # or widened for a bar of colours
            eq("picture: limits", g[2], w[2], cc)
        ex("picture: scale", g[3] == w[3], cc, f"{g[3]} specified {w[3]}")

    def alone(v):
        """The largest is larger than the others: which one does not depend on rounding."""
        s = np.sort(np.abs(np.ravel(v)))
        return len(s) == 1 or s[-1] - s[-2] > 1e-6 * s[-1]

    def curve(i, c, case):
        h = stable_hash(chk.seed, i)
        p, q = samples(c["p"]), states(c["q"], h)
        nd, nl = p.ndim, int(np.prod([b["nf"] for b in c["p"]]))
        d = np.array([r12(x, None) for x in c["data"]]).reshape(2, p.n, q.n)
        e = np.array([r12(x) for x in c["eig"]]).reshape(2, -1)
        ek, xk = np.array([r12(x, None, c["sk"]) for x in c["ek"]]), np.array([r12(x, None, c["sx"]) for x in c["ex"]])
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), p), q), "data": d.reshape(-1).copy(), "eigenvalue": e.reshape(-1).copy()}
        ws = [{"basis": TupleBasis(p, q), "data": d[b].reshape(-1).copy(), "eigenvalue": e[b].copy()} for b in range(2)]
        ls = [b["nf"] for b in c["p"]]
        kb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * n, n) for n, b in zip(ls, q)))
        xb = TupleBasis(*(B.FundamentalPositionBasis(b.delta_x * n, n) for n, b in zip(ls, q)))
        fb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * n, n * b.fundamental_n) for n, b in zip(ls, q)))
        unf = [{"basis": fb, "data": r12(x, None, c["s"] * nl)} for x in c["unf"]]
        m, s = measures[h % 3], scales[h // 4 % 3]
        for a in range(nd):
            for bands in (None, [1], [1, 0]):
                rows = [0, 1] if bands is None else bands
                cc = {**case, "axis": a, "bands": bands}
                kw = {} if bands is None else {"bands": bands}
                if min(ls[a], 2) == 2 and all(alone(ek[b]) or nd == 1 for b in rows):
                    same_curves("plot_wavepacket_eigenvalues_1d_k", lambda ax: P.plot_wavepacket_eigenvalues_1d_k(wl, (a,), ax=ax, measure=m, scale=s, **kw),
                                [lambda ax, b=b: U.plot_data_1d_k(kb, ek[b], (a,), ax=ax, measure=m, scale=s) for b in rows], cc)
                if min(ls[a], 2) == 2 and all(alone(xk[b]) or nd == 1 for b in rows):
                    same_curves("plot_wavepacket_eigenvalues_1d_x", lambda ax: P.plot_wavepacket_eigenvalues_1d_x(wl, (a,), ax=ax, measure=m, scale=s, **kw),
                                [lambda ax, b=b: U.plot_data_1d_x(xb, xk[b], (a,), ax=ax, measure=m, scale=s) for b in rows], cc)
            n = fb.shape[a]
            w, st = ws[h % 2], unf[h % 2]
            if n > 1:
                for idx in (None, tuple((h + k) % fb.shape[k if k < a else k + 1] for k in range(nd - 1))):
                    if idx is None and nd > 1 and not alone(st["data"]):
                        continue
                    cc = {**case, "axis": a, "idx": idx}
                    same_curves("plot_wavepacket_1d_k", lambda ax: P.plot_wavepacket_1d_k(w, (a,), idx, ax=ax, measure=m, scale=s),
                                [lambda ax: SP.plot_state_1d_k(st, (a,), idx, ax=ax, measure=m, scale=s)], cc)
                    if idx is not None:
                        same_curves("plot_wavepacket_1d_x", lambda ax: P.plot_wavepacket_1d_x(w, (a,), idx, ax=ax, measure=m, scale=s),
                                    [lambda ax: SP.plot_state_1d_x(st, (a,), idx, ax=ax, measure=m, scale=s)], cc)
        path = np.array([[(k * (a + 1) + h) % fb.shape[a] for k in range(5)] for a in range(nd)])
        same_curves("plot_wavepacket_along_path", lambda ax: P.plot_wavepacket_along_path(ws[0], path, ax=ax, measure=m, scale=s),
                    [lambda ax: SP.plot_state_along_path(unf[0], path, ax=ax, measure=m, scale=s)], case)
        if nd == 1:
            return
        pairs = [(a, b) for a in range(nd) for b in range(nd) if a != b]
        for axes in pairs if nd == 2 else [pairs[h % 6], pairs[(h + 1) % 6]]:
            rest = [k for k in range(nd) if k not in axes]
            kidx = tuple((h + k) % ls[k] for k in rest)
            fidx = tuple((h + k) % fb.shape[k] for k in rest)
            w, st, b = ws[h % 2], unf[h % 2], h % 2
            cc = {**case, "axes": axes}

            def pair(name, fn, ref):
                want = ref(sh.fresh())[2]
                same_picture(name, sh.draw(name, fn, cc)[2], want, cc)
            pair("plot_wavepacket_eigenvalues_2d_k", lambda ax: P.plot_wavepacket_eigenvalues_2d_k(w, axes, kidx, ax=ax, measure=m, scale=s),
                 lambda ax: U.plot_data_2d_k(kb, ek[b], axes, kidx, ax=ax, measure=m, scale=s))
            pair("plot_wavepacket_eigenvalues_2d_x", lambda ax: P.plot_wavepacket_eigenvalues_2d_x(w, axes, kidx, ax=ax, measure=m, scale=s),
                 lambda ax: U.plot_data_2d_x(xb, xk[b], axes, kidx, ax=ax, measure=m, scale=s))
            pair("plot_wavepacket_2d_k", lambda ax: P.plot_wavepacket_2d_k(w, axes, fidx, ax=ax, measure=m, scale=s),
                 lambda ax: SP.plot_state_2d_k(st, axes, fidx, ax=ax, measure=m, scale=s))
            pair("plot_wavepacket_2d_x", lambda ax: P.plot_wavepacket_2d_x(w, axes, fidx, ax=ax, measure=m, scale=s),
                 lambda ax: SP.plot_state_2d_x(st, axes, fidx, ax=ax, measure=m, scale=s))
            top = np.max([np.abs(np.fft.ifftn(z["data"].reshape(fb.shape), norm="ortho")) for z in unf], axis=0)
            if top.min() > 1e-6:     # the difference is relative
                pair("plot_wavepacket_difference_2d_x", lambda ax: P.plot_wavepacket_difference_2d_x(ws[0], ws[1], axes, fidx, ax=ax, measure=m, scale=s),
                     lambda ax: SP.plot_state_difference_2d_x(unf[0], unf[1], axes, fidx, ax=ax, measure=m, scale=s))
            if nd == 2 and alone(ek[b]):
                pair("plot_wavepacket_eigenvalues_2d_k", lambda ax: P.plot_wavepacket_eigenvalues_2d_k(w, axes, ax=ax),
                     lambda ax: U.plot_data_2d_k(kb, ek[b], axes, ax=ax))
            # where the samples are
            dk = 2 * np.pi * np.linalg.inv(np.array([b.delta_x for b in kb])).T
            for idx in (kidx, None):
                at = [(l if k in axes else ((0,) * len(rest) if idx is None else idx)[rest.index(k)],) if k not in axes else range(l) for k, l in enumerate(ls)]
                pts = np.array(np.meshgrid(*[np.array([x if 2 * x < l else x - l for x in r]) for r, l in zip(at, ls)], indexing="ij")).reshape(nd, -1)
                want = (dk.T @ pts)[list(axes)]
                _, _, ln = sh.draw("plot_wavepacket_sample_frequencies", lambda ax: P.plot_wavepacket_sample_frequencies(w, axes, idx, ax=ax), cc)
                got = np.array([ln.get_xdata(), ln.get_ydata()], float)
                cc2 = {**cc, "idx": idx}
                ex("samples: how many", got.shape == want.shape, cc2, lambda: f"{got.shape} specified {want.shape}")
                eq("samples", sorted(map(tuple, np.round(got.T, 9))), sorted(map(tuple, np.round(want.T, 9))), cc2, 1e-6)
            if (nd == 2 and h % 3 == 0) or (nd == 3 and axes == pairs[h % 6] and nl < 9):
                bl = np.array([r12(x, None, c["s"]) for x in c["bloch"]])
                for name, fn, ref in (("plot_all_wavepacket_states_2d_k", P.plot_all_wavepacket_states_2d_k, SP.plot_state_2d_k), ("plot_all_wavepacket_states_2d_x", P.plot_all_wavepacket_states_2d_x, SP.plot_state_2d_x)):
                    k = -1
                    for k, (f, _, got) in enumerate(fn(ws[0], axes, *((fidx,) if nd > 2 else ()), measure=m, scale=s)):
                        if k < len(bl):
                            same_picture(name, got, ref({"basis": fb, "data": bl[k]}, axes, fidx, ax=sh.fresh(), measure=m, scale=s)[2], {**cc, "sample": k})
                        sh.plt.close(f)
                    ex("a picture for each sample", k + 1 == nl, {**cc, "function": name}, f"{k + 1} of {nl}")
        if nd == 3:
            w, st = ws[h % 2], unf[h % 2]
            axes = ((0, 1, 2), (1, 2, 0), (2, 1, 0))[h % 3]

            def film(fn, state):
                _, _, ani = fn(state, axes, (), ax=sh.fresh(), measure=m, scale=s)
                return [pictured(fr[0]) for fr in ani._framedata] if hasattr(ani, "_framedata") else []
            got, want = film(P.animate_wavepacket_3d_x, w), film(SP.animate_state_3d_x, st)
            cc = {**case, "function": "animate_wavepacket_3d_x", "axes": axes}
            ex("film: frames", len(got) == len(want) == fb.shape[axes[2]], cc, f"{len(got)} of {len(want)}")
            for g, w2 in zip(got, want):
                eq("film", g[0], w2[0], cc)
                eq("film: limits", g[2], w2[2], cc)
        ex("wavepackets untouched", np.array_equal(wl["data"], d.ravel()) and np.array_equal(wl["eigenvalue"], e.ravel())
           and all(np.array_equal(w["data"], d[b].ravel()) and np.array_equal(w["eigenvalue"], e[b]) for b, w in enumerate(ws)), case, "")

    def full(c, i, nb, eig=None, data=None):
        """Bands with a full set of samples."""
        h = stable_hash(chk.seed, i)
        p, q = samples(c["p"]), states(c["q"], h)
        if data is None:
            data = np.zeros((nb, p.n, q.n), dtype=complex)
            for b in range(nb):
                data[b, :, b % q.n] = 1
        return p, q, {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), p), q), "data": data.reshape(-1).astype(complex), "eigenvalue": np.array(eig).reshape(-1).astype(complex)}

    def masses(wl, a, first, length, n, case, mass=None):
        """first: parts of the energies which turn once along axis a, summed over n samples. Returns the masses."""
        nb = len(first)
        want = hbar**2 * (2 * np.arange(nb) + 1) / (length**2 * np.abs(first) / n)
        got = P.get_wavepacket_transformed_energy_effective_mass(wl, a)
        eq("mass", got["data"] / want, np.ones(nb), case)
        ex("mass: of each band", got["basis"].n == nb, case, "")
        op = get_identity_operator(wl["basis"][0])
        got = P.get_wavepacket_localized_effective_mass(wl, op, a)
        eq("mass from localized states", got["data"] / want, np.ones(nb), case)
        ex("mass from localized states: of each band", got["basis"].n == nb, case, "")
        return want

    def mass(i, c, case):
        h = stable_hash(chk.seed, i)
        e = np.array([r12(x) for x in c["eig"]]) * 1e-20
        p, q, wl = full(c, i, 2, e)
        m = ("real", "abs")[h % 2]
        av = np.real(e).mean(1)
        for a in range(p.ndim):
            if p.shape[a] == 1:
                continue
            f = np.array([r12([x[a]])[0] for x in c["first"]]) * 1e-20
            if np.any(np.abs(f) < 1e-26):
                continue
            cc = {**case, "axis": a}
            ms = masses(wl, a, f, np.linalg.norm(q[a].delta_x), p.n, cc)
            one = np.mean(ms)

            def chart(name, fn, x, y, scx, tol=1e-9, scy=None):
                sh.draw(name, fn, cc)
                c2 = {**cc, "function": name}
                ex("curves", len(sh.ax.lines) == len(y), c2, "")
                for l, wy in zip(sh.ax.lines, y):
                    eq("curve: along", np.asarray(l.get_xdata(), float) / scx, np.asarray(x) / scx, c2, tol)
                    top = scy or np.max(np.abs(wy))
                    eq("curve", np.asarray(l.get_ydata(), float) / top, wy / top, c2, tol)
            chart("plot_wavepacket_transformed_energy_effective_mass_against_band", lambda ax: P.plot_wavepacket_transformed_energy_effective_mass_against_band(wl, (a,), ax=ax, measure=m), [0.0, 1.0], [ms], 1)
            chart("plot_wavepacket_transformed_energy_effective_mass_against_energy", lambda ax: P.plot_wavepacket_transformed_energy_effective_mass_against_energy(wl, (a,), ax=ax, measure=m), av, [ms], 1e-20)
            chart("plot_wavepacket_transformed_energy_effective_mass_against_energy: error", lambda ax: P.plot_wavepacket_transformed_energy_effective_mass_against_energy(wl, (a,), true_mass=one, ax=ax, measure="real"),
                  av, [(ms - one) / one], 1e-20, 1e-8, 1.0)
            for bands in (None, [1]):
                rows = [0, 1] if bands is None else bands
                y = np.abs(f[rows]) / np.sqrt(p.n)
                free = (2 * np.array(rows) + 1) * hbar**2 / (one * np.linalg.norm(q[a].delta_x) ** 2) * np.sqrt(p.n)
                chart("plot_wavepacket_transformed_energy_1d", lambda ax: P.plot_wavepacket_transformed_energy_1d(wl, axes=(a,), bands=bands, ax=ax), np.array(rows, float), [y], 1)
                chart("plot_wavepacket_transformed_energy_1d: and free", lambda ax: P.plot_wavepacket_transformed_energy_1d(wl, one, (a,), bands, ax=ax), np.array(rows, float), [y, free], 1)
                chart("plot_wavepacket_transformed_energy_1d: real", lambda ax: P.plot_wavepacket_transformed_energy_1d(wl, axes=(a,), bands=bands, ax=ax, measure="real"), np.array(rows, float), [np.real(f[rows]) / np.sqrt(p.n)] if np.all(np.abs(np.real(f[rows])) > 1e-26) else [], 1) if np.all(np.abs(np.real(f[rows])) > 1e-26) else None
            # Wannier90 itself is judged by C21: here it answers with the states it was given
            keep = {}
            for mod in (P, W90):
                if hasattr(mod, "get_localization_operator_wannier90_individual_bands"):
                    keep[mod] = mod.get_localization_operator_wannier90_individual_bands
                    mod.get_localization_operator_wannier90_individual_bands = lambda w: get_identity_operator(w["basis"][0])
            try:
                name = "plot_wavepacket_localized_effective_mass_against_energy"
                chart(name, lambda ax: P.plot_wavepacket_localized_effective_mass_against_energy(wl, (a,), ax=ax, measure=m), av, [ms], 1e-20)
                chart(name + ": error", lambda ax: P.plot_wavepacket_localized_effective_mass_against_energy(wl, (a,), true_mass=one, ax=ax, measure="real"), av, [(ms - one) / one], 1e-20, 1e-8, 1.0)
            finally:
                for mod, fn in keep.items():
                    mod.get_localization_operator_wannier90_individual_bands = fn
        got = SP.get_average_band_energy(G.get_full_bloch_hamiltonian(wl))
        eq("average energies", got["data"] / 1e-20, av / 1e-20, case)
        w = W.get_wavepacket_at_band(wl, h % 2)
        real = {**w, "eigenvalue": np.real(w["eigenvalue"]).copy()}
        for a in range(p.ndim):
            idx = tuple((h + k) % p.shape[k if k < a else k + 1] for k in range(p.ndim - 1))
            line = np.moveaxis(real["eigenvalue"].reshape(p.shape), a, -1)
            sh.curves("plot_eigenvalues_1d_x", lambda ax: P.plot_eigenvalues_1d_x(real, (a,), idx, ax=ax), [(np.arange(p.shape[a]), line[idx])], {**case, "axis": a}, scale="linear")
            sh.curves("plot_eigenvalues_1d_x", lambda ax: P.plot_eigenvalues_1d_x(real, (a,), ax=ax), [(np.arange(p.shape[a]), line[(0,) * (p.ndim - 1)])], {**case, "axis": a})
        ex("bands untouched", np.array_equal(wl["eigenvalue"], e.ravel()), case, "")

    def free(i, c, case):
        """All bands of a free particle have its mass, up to the number of samples."""
        h = stable_hash(chk.seed, i)
        n, nb = c["p"][0]["nf"], c["x"]
        a, m0 = 3.0e-10 * (1 + h % 3), 1e-27 * (1 + h % 7)
        p = TupleBasis(B.FundamentalTransformedBasis(n))
        q = TupleBasis(B.FundamentalTransformedPositionBasis(np.array([a]), max(nb, 2)))
        unit = hbar**2 / (2 * m0) * (2 * np.pi / (n * a)) ** 2
        e = np.array([np.real(r12(x)) for x in c["eig"]]).reshape(nb, n)
        f = np.real(np.array([r12([x])[0] for x in c["first"]]))
        data = np.zeros((nb, n, q.n), dtype=complex)
        data[np.arange(nb), :, np.arange(nb)] = 1
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), p), q), "data": data.reshape(-1), "eigenvalue": (e * unit).reshape(-1).astype(complex)}
        got = masses(wl, 0, f * unit, a, n, case)
        eq("free: one mass", got / got[0], np.ones(nb), case)
        # with more samples ever closer to the mass of the particle
        ex("free: mass", abs(got[0] / m0 - 1) <= 4 / n**2 * 1.7, case, f"{got[0] / m0}")
        got = P.get_wavepacket_transformed_energy_effective_mass(wl)["data"]
        ex("free: mass", bool(np.all(np.abs(got / m0 - 1) <= 4 / n**2 * 1.7)), case, f"{got / m0}")

    def occ(i, c, case):
        h = stable_hash(chk.seed, i)
        t = 20.0 + h % 300
        unit = Boltzmann * t * np.log(2)
        lv = np.array(c["level"], float)
        p, q, wl = full(c, i, c["x"], lv * unit)
        want = np.array(c["weight"]) / c["total"]
        for shift in (0.0, 3.0):
            w = {**wl, "eigenvalue": wl["eigenvalue"] + shift * unit}
            got = P.get_wavepacket_band_occupation(w, t)
            eq("occupation", got["data"], want, case)
            ex("occupation: of each band", got["basis"].n == c["x"], case, "")
        s = scales[h % 4]
        sh.curves("plot_occupation_against_band", lambda ax: P.plot_occupation_against_band(wl, t, ax=ax, scale=s), [(np.arange(c["x"]), want)], case, scale=s)
        sh.draw("plot_occupation_against_band_average_energy", lambda ax: P.plot_occupation_against_band_average_energy(wl, t, ax=ax, scale=s), case)
        (gx, gy), = drawn()
        eq("occupation against energy: along", gx / unit, lv.mean(1), case)
        eq("occupation against energy", gy, want, case)
        ex("bands untouched", np.array_equal(wl["eigenvalue"], (lv * unit).ravel()), case, "")

    def total(i, c, case):
        h = stable_hash(chk.seed, i)
        p, q = samples(c["p"]), states(c["q"], 0)
        nb = c["x"]
        d = np.zeros((nb, p.n, q.n), dtype=complex)
        pl, tu = np.array(c["place"]), np.array(c["turn"])
        for b in range(nb):
            d[b, np.arange(p.n), pl[b]] = np.exp(2j * np.pi * tu[b] / 12)
        lv = np.array(c["level"], float)
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), p), q), "data": d.reshape(-1), "eigenvalue": lv.reshape(-1).astype(complex)}
        ham = G.get_full_bloch_hamiltonian(wl)
        fb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * a.n, a.n * b.n) for a, b in zip(p, q)))
        st = {"basis": fb, "data": r12(c["psi"])}
        if not any(c["inband"]):
            return
        if h % 2:
            from surface_potential_analysis.stacked_basis.conversion import stacked_basis_as_fundamental_position_basis
            from surface_potential_analysis.state_vector.conversion import convert_state_vector_to_basis

            st = convert_state_vector_to_basis(st, stacked_basis_as_fundamental_position_basis(fb))
        want = np.array(c["inband"], float)
        s = scales[h % 4]
        name = "plot_total_band_occupation_against_energy"
        sh.draw(name, lambda ax: SP.plot_total_band_occupation_against_energy(ham, st, ax=ax, scale=s), case)
        ex("curves", len(sh.ax.lines) == 2, case, "")
        (gx, gy), (ax_, _) = drawn()
        eq("occupation of bands: along", gx, lv.mean(1), case)
        eq("occupation of bands", gy, want, case, 1e-8)
        eq("occupation of bands: average energy", ax_, [np.sum(want * lv.mean(1)) / want.sum()] * 2, case, 1e-8)

    def uneven(i, c, case):
        h = stable_hash(chk.seed, i)
        nd, n = c["x"]
        fr = np.array(c["num"], float).reshape(nd, n) / 12
        q = TupleBasis(*(make_leaf({"sp": "kx"[(h >> k) % 2], "cls": "low", "n": 2 + (h >> k) % 2, "nf": 3, "off": 0, "step": 1}, stable_hash(h, k), k, nd, True) for k in range(nd)))
        dk = 2 * np.pi * np.linalg.inv(np.array([b.delta_x for b in q])).T
        nb = 1 + h % 3
        e = np.arange(nb)[:, None] * 3.0 + np.cos(np.arange(n))[None] + 1j * np.arange(n)[None]
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), F.ExplicitBlockFractionBasis(fr)), q), "data": np.zeros(nb * n * q.n, dtype=complex), "eigenvalue": e.reshape(-1).copy()}
        m = measures[h % 3]
        for a in range(nd):
            at = (dk.T @ fr).T @ (dk[a] / np.linalg.norm(dk[a]))
            for bands in (None, [nb - 1]):
                cc = {**case, "axis": a, "bands": bands}
                rows = range(nb) if bands is None else bands
                name = "plot_uneven_wavepacket_eigenvalues_1d_k"
                sh.draw(name, lambda ax: P.plot_uneven_wavepacket_eigenvalues_1d_k(wl, (a,), bands, ax=ax, measure=m), cc)
                got = drawn()
                ex("curves", len(got) == len(rows), cc, "")
                for (gx, gy), b in zip(got, rows):
                    ex("uneven: in order", bool(np.all(np.diff(gx) >= -1e-12)), cc, "")
                    y = measured(e[b], m)
                    key = lambda z: (round(z[0], 8), round(z[1], 8))
                    eq("uneven", sorted(zip(gx, gy), key=key), sorted(zip(at, y), key=key), cc)

    def spaced(i, c, case):
        """Samples on a line, every so many."""
        n, st, of = c["x"]
        want = np.array(c["num"]) / (2 * n * st)
        bs = [F.EvenlySpacedBlockFractionBasis(n, st, of)] + ([F.FundamentalBlockFractionBasis(n)] if st == 1 else [])
        for b in bs:
            eq("fractions", b.bloch_fractions, want[None], case)
            ex("fractions: on one axis", b.ndim == 1 and np.isrealobj(b.bloch_fractions) and b.n == n, case, "")
            q = TupleBasis(B.FundamentalPositionBasis(np.array([2.0]), 3))
            seen = []

            def ham(f):
                seen.append(np.array(f, float))
                return {"basis": TupleBasis(q, q), "data": np.diag([1.0 + f[0], 3.0, 7.0 - f[0]]).reshape(-1).astype(complex)}
            r = W.generate_uneven_wavepacket(ham, b, FundamentalBasis(2))
            eq("uneven bands: samples", [s for s in seen if True][-n:], want[:, None], case)
            eq("uneven bands", r["eigenvalue"], [*(1 + want), *(0 * want + 3)], case)
            ex("uneven bands: basis", r["basis"].shape == (2 * n, 3) and r["basis"][0].shape == (2, n), case, "")
            sh.draw("plot_uneven_wavepacket_eigenvalues_1d_k", lambda ax: P.plot_uneven_wavepacket_eigenvalues_1d_k(r, ax=ax), case)
            eq("uneven", drawn(), [(want * np.pi, 1 + want), (want * np.pi, 0 * want + 3)], case)

    run_ = {"curve": curve, "mass": mass, "free": free, "occ": occ, "total": total, "uneven": uneven, "spaced": spaced}
    for i, c in enumerate(cs):
        case = {f: c[f] for f in ("kind", "p", "q", "x")}
        chk.guard(c["kind"], case, lambda: run_[c["kind"]](i, c, case))
        chk.traces += 1
    sh.close()
    chk.assumptions += [
        "values along lines and planes are placed as by the charts of data and of states, which C20 judges; a default line through the largest value is judged where one is the largest",
        "the mass of a free particle is approached as the inverse square of the number of samples",
    ]
