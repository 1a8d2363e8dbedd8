"""C14: incoherent tunnelling between bands of a lattice and its ISF (spec/Tunnelling.tla)."""
from __future__ import annotations

import numpy as np
import scipy.linalg
from bases import same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
    from surface_potential_analysis.dynamics import isf as S
    from surface_potential_analysis.dynamics import tunnelling_basis as TB
    from surface_potential_analysis.dynamics import util as U
    from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as E
    from surface_potential_analysis.dynamics.incoherent_propagation import isf as I
    from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as M

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Tunnelling", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2},
                   invariants=("Conserved", "Homogeneous", "ReadBack", "Stationary", "Emit"), workers=8)
    chk.sample(cs[0])

    def bands(nb, cell=((2.0, 0.0), (1.0, 3.0)), loc=None):
        loc = np.array([[k / 4, 1 - k / 3] for k in range(nb)]) if loc is None else np.asarray(loc, float)
        return TB.TunnellingSimulationBandsBasis(loc.reshape(nb, 2).T.copy(), tuple(np.array(v, float) for v in cell))

    def states(b, s, nb, bb):
        """b is the basis of nb bands over s cells."""
        return (tuple(b.shape) == (*s, nb) and np.allclose(b[2].locations, bb.locations[:, :nb])
                and np.allclose(b[2].unit_cell, bb.unit_cell) and isinstance(b[2], TB.TunnellingSimulationBandsBasis))

    def square(o, s, nb, bb):
        return states(o["basis"][0], s, nb, bb) and states(o["basis"][1], s, nb, bb) and len(o["basis"].shape) == 2

    def rates(i, c, case):
        nb, nr, s = c["nb"], c["nr"], tuple(c["s"])
        bb = bands(nb)
        jump = np.array(c["jump"], float)
        seen = []

        def fn(a, b, h):
            seen.append((a, b, h))
            return float(jump[a, b, h])
        j = M.get_jump_matrix_from_function(bb, fn)
        eq("jump matrix of a function", j["data"], jump.reshape(-1), case)
        ex("jump matrix of a function: basis", same_basis(j["basis"], TupleBasis(bb, bb)) and len(seen) >= 9 * nb * nb, case, "")
        j0 = np.array(j["data"])
        a = M.get_a_matrix_from_jump_matrix(j, s)
        want = np.array(c["a"], float)
        eq("rates between the states", np.asarray(a["data"]).reshape(-1), want.reshape(-1), case)
        ex("rates between the states: basis", square(a, s, nb, bb), case, "")
        ar = M.get_a_matrix_from_jump_matrix(j, s, n_bands=nr)
        eq("rates between the states of the first bands", np.asarray(ar["data"]).reshape(-1), np.array(c["ar"], float).reshape(-1), case)
        ex("rates between the states of the first bands: basis", square(ar, s, nr, bb), case, "")
        r = M.get_a_matrix_reduced_bands(a, nr)
        eq("rates reduced to the first bands", np.asarray(r["data"]).reshape(-1), np.array(c["ar"], float).reshape(-1), case)
        ex("rates reduced to the first bands: basis", square(r, s, nr, bb), case, "")
        for nm, k, nn in (("m", None, nb), ("mr", nr, nr)):
            m = M.get_tunnelling_m_matrix(a) if k is None else M.get_tunnelling_m_matrix(a, k)
            eq("master equation" + (" of the first bands" if k else ""), np.asarray(m["data"]).reshape(-1), np.array(c[nm], float).reshape(-1), case)
            ex("master equation: basis", square(m, s, nn, bb), case, "")
        ex("arguments untouched", np.array_equal(j["data"], j0) and np.allclose(np.asarray(a["data"]).reshape(-1), want.reshape(-1)), case, "")
        if min(s) >= 3:
            b = M.get_jump_matrix_from_a_matrix(a)
            eq("jump matrix of the rates", b["data"], np.array(c["back"], float).reshape(-1), case)
            ex("jump matrix of the rates: basis", same_basis(b["basis"], TupleBasis(bb, bb)), case, "")
            # moving the rates to another torus is building them there
            s2 = (1 + stable_hash(i, "x") % 4, 1 + stable_hash(i, "y") % 4)
            r2 = M.resample_tunnelling_a_matrix(a, s2, nr)
            w2 = M.get_a_matrix_from_jump_matrix(j, s2, n_bands=nr)
            eq("resampled rates", np.asarray(r2["data"]).reshape(-1), np.asarray(w2["data"]).reshape(-1), case)
            ex("resampled rates: basis", square(r2, s2, nr, bb), case, "")

    def hop(_i, c, case):
        d = U.get_hop_shift(c["x"], 2)
        ex("hop shift", len(d) == 2 and tuple(int(y) for y in d) == tuple(c["d"]), case, lambda: str(d))
        s = tuple(c["s"])
        o = U.build_hop_operator(c["x"], s)
        eq("hop operator", np.asarray(o).reshape(s[0] * s[1], -1), np.array(c["op"], float), case)
        ex("hop operator: shape", np.asarray(o).shape == (*s, *s), case, "")
        if c["x"] < 3:
            d1 = U.get_hop_shift(c["x"], 1)
            ex("hop shift of one axis", tuple(int(y) for y in d1) == (c["d"][1],), case, lambda: str(d1))
            o = np.asarray(U.build_hop_operator(c["x"], (s[1],)))
            eq("hop operator of one axis", o, np.roll(np.eye(s[1]), c["d"][1], 0), case)

    def evolve(i, c, case):
        nb, s = c["nb"], tuple(c["s"])
        n = s[0] * s[1] * nb
        cell = np.array(c["cell"], float)
        bb = bands(nb, cell, np.array(c["loc"], float) / 12)
        b = TB.get_basis_from_shape(s, nb, bb)
        ex("states of a shape: basis", states(b, s, nb, bb), case, "")
        m = np.array(c["m"], float)
        mm = {"basis": TupleBasis(b, b), "data": m.reshape(-1).astype(complex)}
        if stable_hash(chk.seed, i) % 2:
            mm["data"] = mm["data"].reshape(n, n)
        st = E.calculate_tunnelling_eigenstates(mm)
        v = np.asarray(st["data"]).reshape(n, n)
        ev = np.asarray(st["eigenvalue"]).reshape(-1)
        ex("eigenstates: basis", st["basis"].shape == (n, n) and same_basis(st["basis"][1], b), case, "")
        eq("eigenstates of the master equation", v @ m.T, ev[:, None] * v, case, tol=1e-7)
        if np.linalg.cond(v) > 1e5:
            return False
        eq("largest rate is zero", np.abs(ev).min(), 0, case, tol=1e-7)
        k = stable_hash(i) % n
        for idx in (k, tuple(int(y) for y in np.unravel_index(k, (*s, nb)))):
            p = M.get_initial_pure_density_matrix_for_basis(b, idx)
            eq("pure state", p["data"], np.eye(n)[k], case)
            ex("pure state: basis", same_basis(p["basis"], TupleBasis(b, b)), case, "")
        eq("pure state", M.get_initial_pure_density_matrix_for_basis(b)["data"], np.eye(n)[0], case)
        p0 = np.array(c["start"], float) / c["total"]
        rho = {"basis": TupleBasis(b, b), "data": p0.astype(complex)}
        co = E.get_operator_state_vector_decomposition(rho, st)
        eq("decomposition", np.asarray(co).reshape(-1) @ v, p0, case, tol=1e-7)
        rd = I.get_rate_decomposition(mm, rho)
        ex("rate decomposition: eigenvalues", np.asarray(rd.eigenvalues).shape == (n,)
           and np.allclose(np.sort_complex(np.round(rd.eigenvalues, 7)), np.sort_complex(np.round(ev, 7)), atol=1e-6), case, lambda: str(rd.eigenvalues)[:200])
        t = np.array([0.0, 0.03, 0.4, 2.0])
        eq("rate decomposition adds up", np.asarray(rd.coefficients) @ v, p0, case, tol=1e-7)
        want = np.array([scipy.linalg.expm(m * y) @ p0 for y in t])
        r = E.calculate_tunnelling_simulation_state(mm, rho, t)
        eq("occupations at each time", np.asarray(r["data"]).reshape(len(t), n), want, case, tol=1e-7)
        ex("occupations at each time: basis", np.array_equal(r["basis"][0].times, t) and same_basis(r["basis"][1], TupleBasis(b, b)), case, "")
        r2 = E.get_tunnelling_simulation_state(st, rho, t)
        eq("occupations at each time, from the eigenstates", np.asarray(r2["data"]).reshape(len(t), n), want, case, tol=1e-7)
        eq("probability is conserved", np.asarray(r["data"]).reshape(len(t), n).sum(1), np.ones(len(t)), case, tol=1e-7)
        pr = M.density_matrix_list_as_probabilities(r)
        eq("probabilities at each time", np.asarray(pr["data"]).reshape(len(t), n), want, case, tol=1e-7)
        ex("probabilities at each time: basis", np.array_equal(pr["basis"][0].times, t) and same_basis(pr["basis"][1], b)
           and np.isrealobj(pr["data"]), case, "")
        q = M.density_matrix_as_probability(rho)
        eq("probabilities", q["data"], p0, case)
        ex("probabilities: basis", same_basis(q["basis"], b) and np.isrealobj(q["data"]), case, "")

        # the ISF: positions in cartesian coordinates from the mean position
        frac = np.array(c["dist"], float) / (12 * c["total"])
        pos = np.einsum("af,ac->cf", frac, cell)
        rec = 2 * np.pi * np.linalg.inv(cell * np.array(s, float)[:, None])        # columns: the wavevectors of the torus
        h = stable_hash(i, "k")
        dks = [rec @ np.array([h % 3 - 1, (h // 3) % 4 - 1.0])]
        if not c["tie"]:
            dks.append(np.array([0.3 + (h % 5) / 7, -0.45 + (h % 7) / 5]))
        pv = {"basis": b, "data": p0.copy()}
        fv = {"basis": TupleBasis(ExplicitTimeBasis(t), b), "data": want.reshape(-1).copy()}
        for dk in dks:
            isf = want @ np.exp(1j * dk @ pos)
            r = S.calculate_isf_approximate_locations(pv, fv, dk)
            eq("isf of occupations", np.asarray(r["data"]).reshape(-1), isf, case, tol=1e-7)
            ex("isf of occupations: basis", r["basis"].shape == (len(t), len(t)) and np.array_equal(r["basis"][0].times, t), case, "")
            r = I.calculate_isf_at_times(mm, rho, t, dk)
            eq("isf at times", np.asarray(r["data"]).reshape(-1), isf, case, tol=1e-7)
            ex("isf at times: basis", r["basis"].shape == (len(t), len(t)) and np.array_equal(r["basis"][0].times, t), case, "")
        ex("arguments untouched", np.array_equal(np.asarray(mm["data"]).reshape(-1), m.reshape(-1)) and np.array_equal(rho["data"], p0)
           and np.array_equal(pv["data"], p0), case, "")
        if not c["irreducible"]:
            return None
        w = np.array(c["weight"], float)
        w /= w.sum()
        pe = np.tile(w, s[0] * s[1]) / (s[0] * s[1])
        for r in (E.get_equilibrium_state(st), E.calculate_equilibrium_state(mm)):
            eq("equilibrium", np.asarray(r["data"]).reshape(-1), pe, case, tol=1e-7)
            ex("equilibrium: basis", same_basis(r["basis"], TupleBasis(b, b)), case, "")
        # ISFs of equilibrium: only displacements matter at wavevectors of the torus; their
        # mean position is not a grid point, so the phase there is that of the wrapped position
        at0 = np.zeros((n,))
        at0[:nb] = w
        place = np.array(c["place"], float) / 12
        dk = dks[0]
        cart = np.einsum("af,ac->cf", place, cell)
        per = np.array([scipy.linalg.expm(m * y) for y in t])              # t, final, initial
        one = np.einsum("f,tfn,n->tn", np.exp(1j * dk @ cart), per[:, :, :nb], np.exp(-1j * dk @ cart[:, :nb]))
        r = I.calculate_equilibrium_state_averaged_isf(mm, t, dk)
        eq("isf averaged over equilibrium", np.asarray(r["data"]).reshape(-1), one @ w, case, tol=1e-7)
        ex("isf averaged over equilibrium: basis", r["basis"].shape == (len(t), len(t)) and np.array_equal(r["basis"][0].times, t), case, "")
        mean = cart @ at0
        both = np.einsum("f,tfn,n->t", np.exp(1j * dk @ (cart - mean[:, None])), per[:, :, :nb], w)
        r = I.calculate_equilibrium_initial_state_isf(mm, t, dk)
        eq("isf of the equilibrium of one cell", np.asarray(r["data"]).reshape(-1), both, case, tol=1e-7)
        ex("isf of the equilibrium of one cell: basis", r["basis"].shape == (len(t), len(t)), case, "")
        return None

    def fey(i, c, case):
        f, sl = float(c["x"]["fast"]), float(c["x"]["slow"])
        adk = 0.3 + 0.45 * c["x"]["k"]
        t = np.array([0.0, 0.1, 0.5, 1.5, 4.0])
        pi = np.array([f, sl]) / (f + sl)
        tb = ExplicitTimeBasis(t)

        def walk(sm):
            g = np.array([[-sl, f * np.conj(sm) / 3], [sl * sm / 3, -f]])
            return np.array([np.ones(2) @ scipy.linalg.expm(g * y) @ pi for y in t]), np.sort(-np.linalg.eigvals(g).real)
        s1 = sum(np.exp(0.5j * adk * y) for y in c["jumps110"])
        s2 = sum(np.exp(1j * adk * y / np.sqrt(12)) for y in c["jumps112"])
        w1, e1 = walk(s1)
        w2, e2 = walk(s2)
        eq("two-site chain along 110", S.calculate_isf_fey_model_110(t, f, sl, a_dk=adk), w1, case, tol=1e-8)
        eq("two-site chain along 112bar", S.calculate_isf_fey_model_112bar(t, f, sl, a_dk=adk), w2, case, tol=1e-8)
        fit = S.ISFFeyModelFit(f, sl, a_dk=adk)
        for nm, fn, w in (("110", S.get_isf_from_fey_model_fit_110, w1), ("112bar", S.get_isf_from_fey_model_fit_112bar, w2)):
            r = fn(fit, t)
            eq(f"isf of the chain along {nm}", r["data"], w, case, tol=1e-8)
            ex(f"isf of the chain along {nm}: basis", np.array_equal(r["basis"][0].times, t) and len(r["basis"].shape) == 2, case, "")
        r = S.get_isf_from_fey_4_variable_model_110(S.ISFFey4VariableFit(adk, f, 0.25, sl, 0.5, 0.125), t)
        eq("four variable chain along 110", r["data"], 0.25 * np.exp(-e1[1] * t) + 0.5 * np.exp(-e1[0] * t) + 0.125, case, tol=1e-8)
        r = S.get_isf_from_4_variable_fit(S.ISF4VariableFit(f + sl, 0.25, sl, 0.5, 0.125), t)
        eq("double exponential", r["data"], 0.25 * np.exp(-(f + sl) * t) + 0.5 * np.exp(-sl * t) + 0.125, case)
        ex("double exponential: basis", np.array_equal(r["basis"][0].times, t), case, "")
        # rates read back from the exponents along 112bar at a dk = 2
        if sl < f:
            adk = 2.0
            _, e = walk(sum(np.exp(1j * adk * y / np.sqrt(12)) for y in c["jumps112"]))
            r = S.extract_fey_rate_from_4_variables_fit_112bar(S.ISF4VariableFit(e[1], 0.4, e[0], 0.6, 0.0))
            # exchanging the bands gives the same exponents: the larger of the rates is the fast one
            ex("rates of the exponents: order", r.fast_rate >= r.slow_rate, case, lambda: str(r))
            eq("rates of the exponents: rates", (r.fast_rate, r.slow_rate), (f, sl), case, tol=1e-5)
            sm = sum(np.exp(1j * adk * y / np.sqrt(12)) for y in c["jumps112"])
            g = np.array([[-r.slow_rate, r.fast_rate * np.conj(sm) / 3], [r.slow_rate * sm / 3, -r.fast_rate]])
            eq("rates of the exponents", np.sort(-np.linalg.eigvals(g).real), e, case, tol=1e-5)
            ex("rates of the exponents: a dk", r.a_dk == 2, case, "")
        # fits of data that the model describes exactly, near the starting point of the fit
        if c["x"]["k"] == 2 and sl < f:
            h = stable_hash(chk.seed, i)
            for nm, fn, back, model, u in (
                ("fit along 110", S.fit_isf_to_fey_model_110, S.get_isf_from_fey_model_fit_110, S.calculate_isf_fey_model_110, 3e8),
                ("fit along 112bar", S.fit_isf_to_fey_model_112bar, S.get_isf_from_fey_model_fit_112bar, S.calculate_isf_fey_model_112bar, 6e9),
            ):
                u *= (0.8, 1, 1.2)[h % 3]
                tt = np.linspace(0, 5, 80) / (sl * u)
                tb = ExplicitTimeBasis(tt)
                d = model(tt, f * u, sl * u, a_dk=2)
                r = fn({"basis": TupleBasis(tb, tb), "data": d.astype(complex)}, a_dk=2)
                eq(nm + " gives the data back", back(r, tt)["data"], d, case, tol=6e-3)
                ex(nm + ": a dk", r.a_dk == 2, case, "")
                r = fn({"basis": TupleBasis(tb, tb), "data": 1j * d + 7}, measure="imag", a_dk=2)
                eq(nm + " gives the data back", back(r, tt)["data"], d, case, tol=6e-3)
                r = fn({"basis": TupleBasis(tb, tb), "data": d * np.exp(1j * np.arange(80))})
                eq(nm + ", usual arguments, gives the data back", back(r, tt)["data"], d, case, tol=6e-3)
                for adk in (1.6, 1.8):
                    d = model(tt, f * u, sl * u, a_dk=adk)
                    r = fn({"basis": TupleBasis(tb, tb), "data": d.astype(complex)}, a_dk=adk)
                    ex(nm + ": a dk", r.a_dk == adk, {**case, "a_dk": adk}, "")
                    eq(nm + " gives the data back", back(r, tt)["data"], d, {**case, "a_dk": adk}, tol=1e-2)
            u = 1e10 * (0.8, 1, 1.2)[h % 3]
            tt = np.linspace(0, 5, 80) / (sl * u)
            tb = ExplicitTimeBasis(tt)
            d = 0.5 * np.exp(-f * u * tt) + 0.3 * np.exp(-sl * u * tt) + 0.2
            r = S.fit_isf_to_double_exponential({"basis": TupleBasis(tb, tb), "data": d.astype(complex)})
            eq("fit to a double exponential gives the data back", S.get_isf_from_4_variable_fit(r, tt)["data"], d, case, tol=6e-3)
            for nm, z in (("real", d + 3j), ("imag", 2 + 1j * d), ("abs", d * np.exp(2j))):
                r = S.fit_isf_to_double_exponential({"basis": TupleBasis(tb, tb), "data": z}, measure=nm)
                eq("fit to a double exponential gives the data back", S.get_isf_from_4_variable_fit(r, tt)["data"], d, {**case, "measure": nm}, tol=6e-3)
            u = 7e8 * (0.8, 1, 1.2)[h % 3]
            tt = np.linspace(0, 5, 80) / (sl * u)
            tb = ExplicitTimeBasis(tt)
            d = S.calculate_isf_fey_4_variable_model_110(tt, f * u, 0.3, sl * u, 0.6, 0.05, a_dk=2)
            d1 = {"basis": TupleBasis(tb, tb), "data": d.astype(complex)}
            # what is not within the times of the fit may be anything
            a, b = tt[6] + 0.3 * (tt[1] - tt[0]), tt[70] - 0.3 * (tt[1] - tt[0])
            early, late = tt < a, tt > b
            four = {"four variable fit along 110": lambda z, late_too=False, **k: S.fit_isf_to_fey_4_variable_model_110(z, **k)} if f == 2 * sl else {}
            four["fit of fixed ratio"] = lambda z, late_too=False, **k: S.fit_isf_to_fey_4_variable_model_110_fixed_ratio(z, sl / f, **({**k, "end_t": b} if late_too else k))
            for nm, fn in four.items():
                def back(r):
                    return S.get_isf_from_fey_4_variable_model_110(r, tt)["data"]

                def op(z):
                    return {"basis": TupleBasis(tb, tb), "data": z}
                eq(f"{nm} gives the data back", back(fn(op(d * np.exp(1j * np.arange(80))))), d, case, tol=6e-3)
                for m, z in (("real", d + 3j), ("imag", 2 + 1j * d)):
                    eq(f"{nm} gives the data back", back(fn(op(z), measure=m)), d, {**case, "measure": m}, tol=6e-3)
                z = np.where(early, 0.9 + 0.5 * np.arange(80) % 1, d)
                eq(f"{nm} from a later time gives the data back", back(fn(op(z.astype(complex)), start_t=a))[~early], d[~early], case, tol=6e-3)
                if nm == "fit of fixed ratio":
                    z = np.where(late, 0.7, z)
                    eq(f"{nm} within some times gives the data back", back(fn(op(z.astype(complex)), late_too=True, start_t=a))[~early & ~late], d[~early & ~late], case, tol=6e-3)
                for adk in (1.6, 1.8):
                    d2 = S.calculate_isf_fey_4_variable_model_110(tt, f * u, 0.3, sl * u, 0.6, 0.05, a_dk=adk)
                    r = fn(op(d2.astype(complex)), a_dk=adk)
                    ex(f"{nm}: a dk", r.a_dk == adk, case, "")
                    eq(f"{nm} gives the data back", back(r), d2, {**case, "a_dk": adk}, tol=1e-2)
            r = S.fit_isf_to_fey_4_variable_model_110_fixed_ratio(d1, sl / f)
            eq("fit of fixed ratio gives the data back", S.get_isf_from_fey_4_variable_model_110(r, tt)["data"], d, case, tol=6e-3)
            eq("fit of fixed ratio", r.slow_rate / r.fast_rate, sl / f, case)

    skipped = []
    fns = {"a": rates, "hop": hop, "evolve": evolve, "fey": fey}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, **{x: c[x] for x in ("s", "nb", "nr", "fam", "x")}}
        chk.guard(k, case, lambda: fns[k](i, c, case) is False and skipped.append(i))
        chk.traces += 1
    chk.assumptions += [f"master equations without a complete set of eigenvectors are left out of the evolution ({len(skipped)} cases)"]
