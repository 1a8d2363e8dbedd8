"""C09: displacements on periodic grids and kernels built from them (spec/Displacements.tla)."""
from __future__ import annotations

import numpy as np
from bases import same_basis
from scipy.constants import Boltzmann, hbar


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import build as KB
    from surface_potential_analysis.kernel import gaussian as KG
    from surface_potential_analysis.kernel import lorentzian as KL
    from surface_potential_analysis.operator import build as OB

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Displacements", {"Seed": chk.seed, "Big": chk.thorough}, init="DInit", next_="DNext",
                   invariants=("Class", "Anti", "Homogeneous", "Nearest", "EmitD"), workers=8)
    chk.sample({k: cs[0][k] for k in ("kind", "D", "n", "nf", "org", "flat")})

    def leaf(d, n, nf, sp):
        d = np.asarray(d, dtype=float)
        if sp == "x":
            return B.FundamentalPositionBasis(d, n) if n == nf else B.TruncatedPositionBasis(d, n, nf)
        return B.FundamentalTransformedPositionBasis(d, n) if n == nf else B.TransformedPositionBasis(d, n, nf)

    def half(nm, got, num, den, L, case):
        """Equal, where a displacement of half a period may have either sign."""
        got = np.asarray(got)
        want = np.asarray(num, dtype=float) / den
        if got.shape != want.shape:
            ex(nm, False, case, f"shape {got.shape}, specified {want.shape}")
            return
        edge = np.isclose(np.abs(want), L / 2, atol=1e-9)
        eq(nm, np.where(edge, np.abs(got), got), np.where(edge, np.abs(want), want), case)

    def one(c):
        D = np.array(c["D"], dtype=float)
        n, nf = c["n"], c["nf"]
        nd = len(n)
        NF = int(np.prod(nf))
        case = {"D": c["D"], "n": n, "nf": nf, "sp": c["sp"], "origin": c["org"]}
        tb = TupleBasis(*(leaf(D[a], n[a], nf[a], c["sp"][a]) for a in range(nd)))
        xb = TupleBasis(*(leaf(D[a], nf[a], nf[a], "x") for a in range(nd)))
        o = tuple(x / 4 for x in c["org"])
        eq("index displacements", OB.get_displacements_matrix_nx(tb), c["flat"], case)
        m = OB.get_displacements_matrix_nx_stacked(tb)
        ex("index displacements, stacked: axes", len(m) == nd, case, "")
        for a in range(nd):
            eq("index displacements, stacked", m[a], c["axis"][a], case)
            eq("index displacements of one axis", OB.get_displacements_matrix_nx(tb[a]), c["own"][a], case)

        if c["kind"] == "skew":
            t = OB.get_total_displacements_matrix_x_stacked(tb)
            got2 = np.abs(np.asarray(t["data"]).reshape(NF, NF)[:, 0]) ** 2 * NF * NF
            bad = [i for i, g in enumerate(got2)
                   if not any(abs(g - w) < 1e-6 * max(1, w) for w in c["images"][i])]
            # the recorded finding: cartesian component a wrapped by the length of vector a
            pts = np.array(np.unravel_index(np.arange(NF), tuple(nf))).T / np.array(nf) @ D
            ln = np.linalg.norm(D, axis=1)
            cart = np.sum((np.remainder(pts + ln / 2 + 1e-12, ln) - ln / 2) ** 2, axis=1)
            cart_known = all(abs(got2[i] / NF / NF - cart[i]) < 1e-6 for i in bad)
            ex("total displacement on a skewed lattice is that of a periodic image", not bad, case,
               ("components wrapped one by one: " if cart_known else "unexpected: ")
               + f"{[(i, got2[i] / NF / NF) for i in bad[:3]]}")
        else:
            L = np.abs(np.diag(D))
            total = np.sqrt(np.array(c["total2"], dtype=float)) / (4 * NF)
            xs = OB.get_displacements_x_stacked(tb, o)
            ms = OB.get_displacements_matrix_x_stacked(tb, o)
            md = np.asarray(ms["data"]).reshape(nd, NF, NF)
            ex("displacements along axes: basis", len(xs) == nd and all(same_basis(x["basis"], xb) for x in xs), case, "")
            ex("displacement matrices: basis", same_basis(ms["basis"][1], TupleBasis(xb, xb)) and ms["basis"][0].n == nd, case, "")
            for a in range(nd):
                half("displacements along axes", xs[a]["data"], c["disp"][a], 4 * nf[a], L[a], case)
                half("displacement matrices along axes", md[a], c["mat"][a], 4 * nf[a], L[a], case)
            t = OB.get_total_displacements_matrix_x_stacked(tb)
            eq("total displacement", np.asarray(t["data"]).reshape(NF, NF), total, case)
            ex("total displacement: basis", same_basis(t["basis"], TupleBasis(xb, xb)), case, "")
            for oo in (o, (0.0,) * nd, tuple(-x for x in o)):
                t = OB.get_total_displacements_matrix_x_stacked(tb, oo)
                mo = np.asarray(OB.get_displacements_matrix_x_stacked(tb, oo)["data"]).reshape(nd, NF, NF)
                eq("total displacement about an origin", np.asarray(t["data"]).reshape(NF, NF) ** 2, np.sum(mo**2, axis=0), {**case, "about": oo})

            # kernels that are a function of the total displacement
            probe = KB.build_isotropic_kernel_from_function_stacked(tb, lambda d: d**2)
            eq("isotropic kernel from a function", probe["data"], total[:, 0] ** 2, case)
            ex("isotropic kernel from a function: basis", same_basis(probe["basis"], xb), case, "")
            A, lam = 1.25, 0.4 * float(np.min(L)) + 0.3
            gauss = A**2 * np.exp(-(total**2) / (2 * lam**2))
            lor = A**2 * lam**2 / (total**2 + lam**2)
            r = KG.get_gaussian_isotropic_noise_kernel(tb, A, lam)
            eq("gaussian kernel", r["data"], gauss[:, 0], case)
            ex("gaussian kernel: basis", same_basis(r["basis"], xb), case, "")
            r = KL.get_lorentzian_isotropic_noise_kernel(tb, A, lam)
            eq("lorentzian kernel", r["data"], lor[:, 0], case)
            ex("lorentzian kernel: basis", same_basis(r["basis"], xb), case, "")
            r = KG.get_gaussian_noise_kernel(tb, A, lam)
            eq("gaussian diagonal kernel", np.asarray(r["data"]).reshape(NF, NF), gauss, case)
            ax = KG.get_gaussian_axis_noise_kernel(tb, A, lam)
            ap = KB.build_axis_kernel_from_function_stacked(tb, lambda d: d**2)
            ex("axis kernels: one per axis", len(ax) == len(ap) == nd, case, "")
            for a in range(nd):
                d = np.abs(np.array(c["own"][a], dtype=float)[:, 0]) * L[a] / nf[a]
                eq("axis kernels from a function", ap[a]["data"], d**2, case)
                eq("gaussian axis kernels", ax[a]["data"], A**2 * np.exp(-(d**2) / (2 * lam**2)), case)
                ex("axis kernels: basis", same_basis(ap[a]["basis"], xb[a]) and same_basis(ax[a]["basis"], xb[a]), case, "")

            # one axis by itself
            if nd == 1:
                one_x = OB.get_displacements_x(tb[0], o[0])
                half("displacements from an origin", one_x["data"], c["single"], 4 * nf[0], L[0], case)
                ex("displacements from an origin: basis", same_basis(one_x["basis"], xb[0]), case, "")
                for vec in ([D[0, 0]], [0.6 * D[0, 0], 0.8 * D[0, 0]]):
                    b1 = leaf(vec, n[0], nf[0], c["sp"][0])
                    mm = OB.get_displacements_matrix_x(b1, o[0])
                    half("displacement matrix", np.asarray(mm["data"]).reshape(nf[0], nf[0]), c["singlemat"], 4 * nf[0], L[0], case)
                    b2 = leaf(vec, nf[0], nf[0], "x")
                    ex("displacement matrix: basis", same_basis(mm["basis"], TupleBasis(b2, b2)), case, "")
                    if o[0] == 0:
                        r = KB.build_isotropic_kernel_from_function(b1, lambda d: d)
                        half("isotropic kernel of one axis", r["data"], np.array(c["singlemat"])[:, 0], 4 * nf[0], L[0], case)
                        ex("isotropic kernel of one axis: basis", same_basis(r["basis"], b2), case, "")

        # parameters matching a friction coefficient: the curvature A^2 / lambda^2 is
        # that of Caldeira-Leggett noise, the length a fraction of the shortest vector
        eta, T = 0.7, 1e-3
        mu = np.sqrt(2 * eta * Boltzmann * T) / hbar
        s = np.sqrt(c["short2"])
        for lf in (None, 1.5):
            kw = {} if lf is None else {"lambda_factor": lf}
            f = 2 * np.sqrt(2) if lf is None else lf
            for nm, fn, w in (("gaussian", KG.get_effective_gaussian_parameters, 1.0),
                              ("lorentzian", KL.get_effective_lorentzian_parameter, 0.5)):
                a_, l_ = fn(tb, eta, T, **kw)
                eq(f"effective {nm} length", l_, w * s / f, case)
                eq(f"effective {nm} curvature", a_ / l_ / mu, 1.0, case)
        if c["kind"] == "aligned":
            lam = s / (2 * np.sqrt(2))
            g = (mu * lam) ** 2 * np.exp(-(total**2) / (2 * lam**2))
            r = KG.get_effective_gaussian_noise_kernel(tb, eta, T)
            eq("effective gaussian kernel", np.asarray(r["data"]).reshape(NF, NF) / (mu * lam) ** 2, g / (mu * lam) ** 2, case)
            r = KG.get_effective_gaussian_isotropic_noise_kernel(tb, eta, T)
            eq("effective gaussian isotropic kernel", r["data"] / (mu * lam) ** 2, g[:, 0] / (mu * lam) ** 2, case)

    for c in cs:
        chk.guard("displacements", {k: c[k] for k in ("kind", "D", "n", "nf", "sp", "org")}, lambda c=c: one(c))
        chk.traces += 1
    chk.assumptions += ["a displacement of exactly half a period may have either sign",
                        "total displacements are specified for lattices aligned with the coordinate axes; on skewed lattices they must be those of some image (known finding)"]
