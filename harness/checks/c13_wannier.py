"""C13: localization operators, Wannier states and projections (spec/Wannier.tla)."""
from __future__ import annotations

import numpy as np
from bases import make_leaf, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.dynamics.tunnelling_basis import TunnellingSimulationBandsBasis
    from surface_potential_analysis.stacked_basis.conversion import stacked_basis_as_fundamental_position_basis
    from surface_potential_analysis.wavepacket import get_eigenstate as G
    from surface_potential_analysis.wavepacket import localization as LZ
    from surface_potential_analysis.wavepacket import localization_operator as LO
    from surface_potential_analysis.wavepacket import wavepacket as W
    from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
    from surface_potential_analysis.wavepacket.localization import _projection as LP
    from surface_potential_analysis.wavepacket.localization import _tight_binding as LT

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Wannier", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 48 if chk.thorough else 36},
                   init="InitW", invariants=("Orthonormal", "Moved", "Hermitian", "EmitW"), workers=8)
    chk.sample(cs[0])

    def setup(c, i):
        s = stable_hash(chk.seed, i)
        p = TupleBasis(*(B.FundamentalTransformedBasis(b["n"]) if b["n"] == b["nf"] else make_leaf(b, 0, a, len(c["p"]))
                         for a, b in enumerate(c["p"])))
        q = TupleBasis(*(make_leaf(b, stable_hash(s, a), a, len(c["q"]), True) for a, b in enumerate(c["q"])))
        fb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * a.fundamental_n, a.fundamental_n * b.fundamental_n)
                          for a, b in zip(p, q)))
        return p, q, fb

    def momenta(states, fb):
        """Coefficients of a list of states at every momentum of the full grid."""
        return convert_vector(np.asarray(states["data"]).reshape(-1, states["basis"][1].n), states["basis"][1], fb)

    def positions(data, fb):
        return convert_vector(data, fb, stacked_basis_as_fundamental_position_basis(fb))

    def bands(d, p, q, e=None):
        nb = len(d)
        w = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), p), q), "data": np.asarray(d).reshape(-1).copy()}
        if e is not None:
            w["eigenvalue"] = np.asarray(e).astype(complex).reshape(-1)
        return w

    def loc(i, c, case):
        p, q, fb = setup(c, i)
        nb, nw = c["x"]["nb"], c["x"]["nw"]
        d = np.array([r12(y) for y in c["data"]]).reshape(nb, p.n, q.n)
        o = np.array([r12(y) for y in c["op"]]).reshape(p.n, nw, nb)
        e = np.array(c["en"], float)
        wl = bands(d, p, q, e)
        ob = FundamentalBasis(nw)
        op = {"basis": TupleBasis(p, TupleBasis(ob, wl["basis"][0][0])), "data": o.reshape(-1).copy()}
        r = LO.get_localized_wavepackets(wl, op)
        eq("localized wavepackets", r["data"], np.array([r12(y) for y in c["mixed"]]).reshape(-1), case)
        ex("localized wavepackets: basis", same_basis(r["basis"], TupleBasis(TupleBasis(ob, p), q)), case, "")
        ham = np.array([r12(y) for y in c["ham"]]).reshape(-1)
        r = G.get_wannier_hamiltonian(wl, op)
        eq("hamiltonian of the localized states of every sample", r["data"], ham, case)
        ex("hamiltonian of the localized states: basis", r["basis"].shape == (p.n, nw * nw) and same_basis(r["basis"][0], p), case, "")
        r = LO.get_localized_hamiltonian_from_eigenvalues(G.get_bloch_hamiltonian(wl), op)
        eq("hamiltonian of the localized states of every sample", r["data"], ham, case)
        dg = np.array([r12(y) for y in c["dg"]]).reshape(p.n, nb)
        db = TupleBasis(p, wl["basis"][0][0])
        dop = {"basis": TupleBasis(db, db), "data": dg.reshape(-1).copy()}
        r = LO.get_diagonal_localized_wavepackets(wl, dop)
        want = np.array([r12(y) for y in c["dmixed"]]).reshape(-1)
        eq("wavepackets after a diagonal operator", r["data"], want, case)
        ex("wavepackets after a diagonal operator: basis", same_basis(r["basis"], wl["basis"]), case, "")
        fo = LO.diagonal_localization_operator_as_full(dop)
        eq("diagonal operator in full", np.asarray(fo["data"]).reshape(p.n, nb, nb), np.einsum("lb,bc->lbc", dg, np.eye(nb)), case)
        ex("diagonal operator in full: basis", same_basis(fo["basis"], TupleBasis(p, TupleBasis(db[1], db[1]))), case, "")
        eq("wavepackets after a diagonal operator, in full", LO.get_localized_wavepackets(wl, fo)["data"], want, case)
        back = LO.localization_operator_as_diagonal(fo)
        eq("full operator as diagonal", back["data"], dg.reshape(-1), case)
        ex("full operator as diagonal: basis", same_basis(back["basis"], TupleBasis(db, db)), case, "")
        io = LO.get_identity_operator(TupleBasis(wl["basis"][0][0], p))
        r = LO.get_localized_wavepackets(wl, io)
        eq("identity operator", r["data"], d.reshape(-1), case)
        ex("arguments untouched", np.array_equal(wl["data"], d.reshape(-1)) and np.array_equal(op["data"], o.reshape(-1))
           and np.array_equal(dop["data"], dg.reshape(-1)), case, "")

    def wannier(i, c, case):
        p, q, fb = setup(c, i)
        nb, nw, nl = c["x"]["nb"], c["nw"], p.n
        d = np.array([r12(y, None, c["us"]) for y in c["data"]]).reshape(nb, nl, q.n)
        o = np.array([r12(y, None, c["os"]) for y in c["op"]]).reshape(nl, nw, nb)
        e = np.array(c["en"], float)
        wl = bands(d, p, q, e)
        ob = FundamentalBasis(nw)
        op = {"basis": TupleBasis(p, TupleBasis(ob, wl["basis"][0][0])), "data": o.reshape(-1)}
        want = np.array([[r12(y, None, c["us"] * c["os"] * c["s"] * nl) for y in z] for z in c["wan"]]).reshape(nw * nl, -1)
        r = G.get_wannier_states(wl, op)
        eq("wannier states", momenta(r, fb), want, case)
        ex("wannier states: basis", same_basis(r["basis"], TupleBasis(TupleBasis(ob, p), stacked_basis_as_fundamental_position_basis(fb))), case, "")
        ham = np.array([r12(y, None, c["os"] ** 2) for y in c["ham"]]).reshape(-1)
        eq("hamiltonian of the localized states of every sample", G.get_wannier_hamiltonian(wl, op)["data"], ham, case)
        if c["x"]["fam"] != "unit":
            return
        wb = G.get_wannier_basis(wl, op)
        ex("wannier basis: size", wb.n == nw * nl and wb.fundamental_n == fb.n, case, "")
        s = stable_hash(chk.seed, i)
        vec = np.array([(2 * k * k + s) % 9 - 4 + 1j * ((s + 3 * k) % 5 - 2) for k in range(fb.n)])
        eq("momenta into the wannier basis", convert_vector(vec, fb, wb), want.conj() @ vec, case)
        eq("wannier basis into momenta", convert_vector(vec[: nw * nl], wb, fb), vec[: nw * nl] @ want, case)
        full = (np.array(c["full"], float).reshape(-1, 4) @ np.exp(2j * np.pi * np.arange(4) / 12) / nl / c["os"]).reshape(nw * nl, nw * nl)
        r = G.get_full_wannier_hamiltonian(wl, op)
        eq("hamiltonian of the wannier states", np.asarray(r["data"]).reshape(nw * nl, -1), full, case)
        ex("hamiltonian of the wannier states: basis", r["basis"][0].n == nw * nl and r["basis"][1].n == nw * nl, case, "")
        # as an operator on the full grid it is that of the bloch states
        m = np.einsum("ki,ij,lj->kl", want.T, np.asarray(r["data"]).reshape(nw * nl, -1), want.conj().T)
        bl = np.asarray(G.get_bloch_states(wl)["data"]).reshape(nb * nl, -1)
        eq("hamiltonian of the wannier states, at momenta", m, np.einsum("b,bi,bj->ij", e.reshape(-1), bl, bl.conj()), case)

    def polar(clause, u, a, case):
        """u is the unitary (isometric) factor of a (bands, projections)."""
        n = min(a.shape)
        eq(clause + ": isometry", u.conj().T @ u if a.shape[0] >= a.shape[1] else u @ u.conj().T, np.eye(n), case)
        if np.linalg.svd(a, compute_uv=False)[-1] > 1e-6:
            h = u.conj().T @ a
            sc = max(1.0, np.abs(a).max())
            ex(clause + ": closest to the projections", np.allclose(h, h.conj().T, atol=1e-8 * sc)
               and np.linalg.eigvalsh(h)[0] > -1e-8 * sc, case, lambda: str(np.round(h, 4))[:300])

    def project(i, c, case):
        p, q, fb = setup(c, i)
        nb, nw = c["x"]["nb"], c["x"]["nw"]
        d = np.array([r12(y) for y in c["data"]]).reshape(nb, p.n, q.n)
        g = np.array([r12(y) for y in c["proj"]]).reshape(nw, fb.n)
        a = np.array([r12(y, None, c["s"]) for y in c["over"]]).reshape(p.n, nb, nw)
        wl = bands(d, p, q)
        pb = FundamentalBasis(nw)
        xb = stacked_basis_as_fundamental_position_basis(fb)
        for bb, gg in ((fb, g), (xb, positions(g, fb))):
            pr = {"basis": TupleBasis(pb, bb), "data": gg.reshape(-1).copy()}
            r = LZ.get_localization_operator_for_projections(wl, pr)
            ex("projected operator: basis", same_basis(r["basis"], TupleBasis(p, TupleBasis(pb, wl["basis"][0][0]))), case, "")
            o = np.asarray(r["data"]).reshape(p.n, nw, nb)
            for l in range(p.n):
                polar("projected operator", o[l].T, a[l], {**case, "l": l})
            lw = LZ.localize_wavepacket_projection(wl, pr)
            eq("localized by projection", lw["data"], np.einsum("lib,bls->ils", o, d).reshape(-1), case)
        for l in range(p.n):
            st = G.get_states_at_bloch_idx(wl, l)
            r = LP.get_state_projections_many_band(st, {"basis": TupleBasis(pb, xb), "data": positions(g, fb).reshape(-1)})
            eq("overlaps of bands and projections", np.asarray(r["data"]).reshape(nb, nw), a[l], {**case, "l": l})
        w0 = {"basis": TupleBasis(p, q), "data": d[0].reshape(-1).copy()}
        r = LZ.localize_single_band_wavepacket_projection(w0, {"basis": fb, "data": g[0].copy()})
        ok = np.abs(a[:, 0, 0]) > 1e-6
        eq("single band localized by projection", np.asarray(r["data"]).reshape(p.n, -1)[ok],
           (d[0] * (a[:, 0, 0] / np.where(ok, np.abs(a[:, 0, 0]), 1))[:, None])[ok], case)
        ex("single band localized by projection: basis", same_basis(r["basis"], w0["basis"]), case, "")
        # projections onto states made from the wavepacket itself
        made = [("tight binding", LZ.localize_tight_binding_projection, lambda: G.get_tight_binding_state(w0)),
                ("single point", LZ.localize_single_point_projection, lambda: LP.get_single_point_state_for_wavepacket(w0)),
                ("exponential decay", LZ.localize_exponential_decay_projection, None),
                ("gaussian", LZ.localize_wavepacket_gaussian_projection, lambda: (lambda z: {"basis": z["basis"][1], "data": z["data"]})(LP.get_gaussian_states(w0)))]
        for nm, fn, st in made:
            r = np.asarray(fn(w0)["data"]).reshape(p.n, -1)
            if st is None:
                x = LP.get_exponential_state(w0)
                y = positions(momenta({"basis": TupleBasis(FundamentalBasis(1), G.get_wavepacket_state_vector(w0, 0)["basis"]),
                                       "data": G.get_wavepacket_state_vector(w0, 0)["data"]}, fb), fb)[0]
                st_k = convert_vector(np.asarray(x["data"]) * y, xb, fb)
            else:
                x = st()
                st_k = convert_vector(np.asarray(x["data"]).reshape(-1), x["basis"], fb)
            bl = np.asarray(G.get_bloch_states({"basis": TupleBasis(TupleBasis(FundamentalBasis(1), p), q), "data": d[0].reshape(-1)})["data"]).reshape(p.n, -1)
            ov = bl.conj() @ st_k
            ok = np.abs(ov) > 1e-6
            eq(f"localized by the {nm} state", r[ok], (d[0] * (ov / np.where(ok, np.abs(ov), 1))[:, None])[ok], case)
        # the same from the state of another sample
        for l in {0, p.n - 1}:
            st = positions(momenta({"basis": TupleBasis(FundamentalBasis(1), G.get_wavepacket_state_vector(w0, l)["basis"]),
                                    "data": G.get_wavepacket_state_vector(w0, l)["data"]}, fb), fb)[0]
            z = LP.get_single_point_state_for_wavepacket(w0, l)
            zd = np.asarray(z["data"]).reshape(-1)
            cc = {**case, "idx": l}
            ex("single point state: one point", np.count_nonzero(zd) == 1 and np.isclose(np.abs(zd).max(), 1), cc, lambda: str(zd))
            eq("single point state: where the state is largest", np.abs(st[np.argmax(np.abs(zd))]), np.abs(st).max(), cc)
            ex("single point state: basis", same_basis(z["basis"], xb), cc, "")
            top = np.array(np.unravel_index(np.flatnonzero(np.abs(st) >= np.abs(st).max() * (1 - 1e-9)), xb.shape)).T
            z = np.asarray(LP.get_exponential_state(w0, l)["data"]).reshape(-1)
            ex("exponential state: around the largest value", any(np.allclose(z, np.asarray(LP.get_exponential_state(w0, l, tuple(int(x) for x in t))["data"]).reshape(-1)) for t in top), cc, "")
            r = np.asarray(LZ.localize_single_point_projection(w0, l)["data"]).reshape(p.n, -1)
            zk = convert_vector(np.asarray(LP.get_single_point_state_for_wavepacket(w0, l)["data"]).reshape(-1), xb, fb)
            ov = np.asarray(G.get_bloch_states({"basis": TupleBasis(TupleBasis(FundamentalBasis(1), p), q), "data": d[0].reshape(-1)})["data"]).reshape(p.n, -1).conj() @ zk
            ok = np.abs(ov) > 1e-6
            eq("localized by the single point state", r[ok], (d[0] * (ov / np.where(ok, np.abs(ov), 1))[:, None])[ok], cc)
        ob = LZ.get_localization_operator_tight_binding_projections(wl)
        ex("tight binding operator: basis", same_basis(ob["basis"], TupleBasis(p, TupleBasis(wl["basis"][0][0], wl["basis"][0][0]))), case, "")
        tb = momenta(G.get_tight_binding_states(wl), fb)
        bl = np.asarray(G.get_bloch_states(wl)["data"]).reshape(nb, p.n, -1)
        for l in range(p.n):
            polar("tight binding operator", np.asarray(ob["data"]).reshape(p.n, nb, nb)[l].T, bl[:, l].conj() @ tb.T, {**case, "l": l})
        ex("arguments untouched", np.array_equal(wl["data"], d.reshape(-1)) and np.array_equal(w0["data"], d[0].reshape(-1)), case, "")

    def phase(i, c, case):
        p, q, fb = setup(c, i)
        d = r12(c["data"]).reshape(p.n, q.n)
        val = np.array([r12(y, None, c["s"] * fb.n) for y in c["val"]]).reshape(-1)
        w = {"basis": TupleBasis(p, q), "data": d.reshape(-1).copy()}

        def at(z, pos):
            st = [G.get_wavepacket_state_vector(z, l) for l in range(p.n)]
            k = np.array([convert_vector(np.asarray(y["data"]), y["basis"], fb) for y in st])
            return positions(k, fb)[:, pos]
        eq("states at a position", at(w, c["pos"]), val, case)
        idx = tuple(c["x"])
        forms = [idx]
        if all(0 <= a < b["nf"] for a, b in zip(idx, c["q"])):
            forms.append(int(np.ravel_multi_index(idx, [b["nf"] for b in c["q"]])))
        for f in forms:
            for ang in (0, 0.7):
                r = LZ.localize_tightly_bound_wavepacket_idx(w, f, ang)
                ok = np.abs(val) > 1e-6
                eq("states in phase at the index", at(r, c["pos"])[ok], (np.abs(val) * np.exp(1j * ang))[ok], {**case, "idx": f, "angle": ang})
                eq("states in phase: only phases change", np.abs(r["data"]), np.abs(d.reshape(-1)), {**case, "idx": f})
                ex("states in phase: basis", same_basis(r["basis"], w["basis"]), case, "")
        shape = [b["nf"] for b in c["q"]]
        big = tuple(fb.shape)
        r = LZ.localize_tightly_bound_wavepacket_max_point(w, 0.3)
        full0 = at(w, slice(None))
        top = np.flatnonzero(np.abs(full0[0]) > np.abs(full0[0]).max() - 1e-9)
        got = at(r, slice(None))
        if np.abs(full0[0]).max() > 1e-9:
            ex("states in phase at the largest value",
               any(np.allclose(got[:, t][np.abs(got[:, t]) > 1e-6], (np.abs(full0[:, t]) * np.exp(0.3j))[np.abs(got[:, t]) > 1e-6]) for t in top), case, "")
            ex("states in phase: basis", same_basis(r["basis"], w["basis"]) and np.asarray(r["data"]).shape == (d.size,), case, "")
        plain, zero = (np.asarray(LZ.localize_tightly_bound_wavepacket_max_point(w, *a)["data"]) for a in ((), (0,)))
        eq("states in phase: no angle", plain, zero, case)
        if len(shape) == 3 and shape[0] == shape[1] and c["p"][2]["nf"] == 1:
            for off in ((0, 0), (1, -1)):
                plain, zero = (np.asarray(LZ.localize_tightly_bound_wavepacket_two_point_max(w, off, *a)["data"]) for a in ((), (0,)))
                eq("two points: no angle", plain, zero, case)
            plain, zero = (np.asarray(LZ.localize_tightly_bound_wavepacket_two_point_max(w, *a)["data"]) for a in ((), ((0, 0), 0)))
            eq("two points: around the origin", plain, zero, case)
            for off in ((0, 0), (1, -1)):
                t0, t1 = LT.get_wavepacket_two_points(w, off)
                ex("two points: mirror images", all((t1[a] - t0[b]) % shape[a] == 0 for a, b in ((0, 1), (1, 0))) and (t1[2] - t0[2]) % shape[2] == 0, case, lambda: str((t0, t1)))
                ex("two points: in the cell around the origin", all(-shape[a] <= 2 * (t[a] - shape[a] * off[a]) <= shape[a] for a in (0, 1) for t in (t0, t1)), case, lambda: str((t0, t1, shape)))
                f0 = int(np.ravel_multi_index([int(x) for x in t0], big, mode="wrap"))
                f1 = int(np.ravel_multi_index([int(x) for x in t1], big, mode="wrap"))
                eq("two points: the largest value", np.abs(full0[0, f0]), np.abs(full0[0]).max(), case)
                r = at(LZ.localize_tightly_bound_wavepacket_two_point_max(w, off, 0.3), slice(None))
                ok = (np.abs(full0[:, f0]) > 1e-6) & (np.abs(full0[:, f1]) > 1e-6)
                eq("two points: phases average to the angle", np.exp(2j * (np.angle(r[ok, f0]) + np.angle(r[ok, f1]) - 0.6)), np.ones(ok.sum()), case)
            t0, t1 = LT.get_wavepacket_two_points(w)
            tb = TunnellingSimulationBandsBasis.from_wavepackets(bands(d[None], p, q, np.zeros(p.n)))
            eq("bands of the tunnelling simulation: fractions of the cell", np.asarray(tb.locations).reshape(2, -1)[:, 0],
               [(t0[a] + t1[a]) / 2 / shape[a] for a in (0, 1)], case)
            eq("bands of the tunnelling simulation: cell", np.array(tb.unit_cell), [np.asarray(q[a].delta_x)[:2] for a in (0, 1)], case)
            ex("bands of the tunnelling simulation: size", tb.n == 1, case, "")
        ex("arguments untouched", np.array_equal(w["data"], d.reshape(-1)), case, "")

    def place(i, c, case):
        p, q, fb = setup(c, i)
        d = r12(c["data"]).reshape(p.n, q.n)
        w = {"basis": TupleBasis(p, q), "data": d.reshape(-1).copy()}
        xb = stacked_basis_as_fundamental_position_basis(fb)
        sh = tuple(c["x"]["sh"])
        r = LZ.get_evenly_spaced_points(w["basis"], sh)
        want = np.zeros((len(c["spaced"]), fb.n))
        want[np.arange(len(want)), c["spaced"]] = 1
        eq("evenly spaced points", np.asarray(r["data"]).reshape(len(want), -1), want, case)
        ex("evenly spaced points: basis", r["basis"][0].shape == sh and same_basis(r["basis"][1], xb), case, "")
        o = tuple(c["x"]["o"])
        one = np.zeros(fb.n)
        one[c["pos"]] = 1
        r = LP.get_single_point_state_for_wavepacket(w, 0, o)
        eq("single point state", r["data"], one, case)
        ex("single point state: basis", same_basis(r["basis"], xb), case, "")
        cells = [b["nf"] for b in c["q"]]
        d2 = sum((np.array(x) / n) ** 2 for x, n in zip(c["off"], cells))
        for nm, fn, k in (("gaussian", LP.get_gaussian_states, 0.5), ("exponential", LP.get_exponential_state, 1.0)):
            r = fn(w, origin=o)
            f = np.exp(-k * d2)
            eq(f"{nm} state around an origin", r["data"], f / np.linalg.norm(f), case)
            for y in {0, fb.n // 2, fb.n - 1}:
                a, b = (np.asarray(fn(w, origin=z)["data"]) for z in (int(y), tuple(int(t) for t in np.unravel_index(y, fb.shape))))
                eq(f"{nm} state around an origin: flat index", a, b, {**case, "origin": y})
            if nm == "gaussian":
                eq("gaussian state: around the origin", fn(w)["data"], fn(w, origin=(0,) * fb.ndim)["data"], case)
            ex(f"{nm} state: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(1), xb) if nm == "gaussian" else xb), case, "")

    def position(i, c, case):
        p, q, fb = setup(c, i)
        d = np.array([r12(y) for y in c["data"]]).reshape(2, p.n, q.n)
        n = fb.n
        # the first component of the position, along each axis
        step = [b.delta_x[0] / b.n for b in fb]
        m = sum(s * np.array([[r12(z) for z in y] for y in x]).reshape(2 * p.n, 2 * p.n) for s, x in zip(step, c["mat"])) / (n * c["s"])
        ws = [{"basis": TupleBasis(p, q), "data": d[b].reshape(-1).copy(), "eigenvalue": np.arange(p.n) + 0j} for b in range(2)]
        bl = np.asarray(G.get_bloch_states(bands(d, p, q))["data"]).reshape(2, p.n, -1)

        def diagonal(clause, vs, mm):
            vs = np.array(vs)
            eq(clause + ": orthonormal mixtures", vs.conj() @ vs.T, np.eye(len(mm)), case)
            h = vs.conj() @ mm @ vs.T
            x = np.real(np.diag(h))
            sc = max(1.0, np.abs(mm).max())
            eq(clause + ": diagonal positions", h / sc, np.diag(x) / sc, case)
            ex(clause + ": ascending positions", np.all(np.diff(x) > -1e-8 * sc), case, lambda: str(x))
        for b, w in enumerate(ws):
            if np.any(np.abs(d[b]).max(1) < 1e-9):
                return
            rs = LZ.localize_position_operator(w)
            ex("position states: one for each sample", len(rs) == p.n, case, "")
            vs = []
            for r in rs:
                y = np.asarray(r["data"]).reshape(p.n, q.n)
                v = np.einsum("ls,ls->l", d[b].conj(), y) / np.einsum("ls,ls->l", d[b].conj(), d[b])
                eq("position states: mixtures of the samples", y, v[:, None] * d[b], case)
                vs.append(v)
                ex("position states: basis", same_basis(r["basis"], w["basis"]) and np.array_equal(r["eigenvalue"], w["eigenvalue"]), case, "")
            diagonal("position states", vs, m[b * p.n:(b + 1) * p.n, b * p.n:(b + 1) * p.n])
        for ww, mm, bb in ((ws[:1], m[:p.n, :p.n], bl[0]), (ws, m, bl.reshape(2 * p.n, -1))):
            if np.linalg.matrix_rank(bb, 1e-6) < len(bb):
                continue
            rs = LZ.localize_position_operator_many_band(ww)
            ks = np.array([convert_vector(np.asarray(r["data"]), r["basis"], fb) for r in rs])
            diagonal("position states of many bands", ks @ np.linalg.pinv(bb), mm)
            rs = LZ.localize_position_operator_many_band_individual(ww)
            pick = [LZ.localize_position_operator(z)[p.n // 4] for z in ww]
            us = np.array([convert_vector(np.asarray(unfurl_wavepacket(z)["data"]), unfurl_wavepacket(z)["basis"], fb) for z in pick])
            ks = np.array([convert_vector(np.asarray(r["data"]), r["basis"], fb) for r in rs])
            xs = positions(us, fb)
            shape = tuple(fb.shape)
            loc = sum(s * np.array(np.unravel_index(np.arange(n), shape))[a] for a, s in enumerate(step))
            diagonal("position states of one from each band", ks @ np.linalg.pinv(us), np.einsum("ix,x,jx->ij", xs.conj(), loc, xs))

    fns = {"loc": loc, "wannier": wannier, "project": project, "phase": phase, "place": place, "position": position}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, **{x: c[x] for x in "pqx"}}
        chk.guard(k, case, lambda: fns[k](i, c, case))
        chk.traces += 1
    chk.assumptions += ["Wannier states are judged on complete sets of samples; their moves run against the axes, as the code defines them"]
