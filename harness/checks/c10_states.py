"""C10: states, inner products, expectation values and averages (spec/States.tla)."""
from __future__ import annotations

import numpy as np
from bases import has_length, make_stack, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.state_vector import eigenstate_calculation as EC
    from surface_potential_analysis.state_vector import eigenstate_list as EL
    from surface_potential_analysis.state_vector import state_vector as SV
    from surface_potential_analysis.state_vector import state_vector_list as SL
    from surface_potential_analysis.state_vector import util as U

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("States", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2}, workers=8,
                   invariants=("Hermitian", "Unitary", "Localised", "Emit"))
    chk.sample(cs[0])

    def inner(i, c, case):
        s = stable_hash(chk.seed, i)
        ln = has_length(c["p"]) and has_length(c["q"])
        p = make_stack(c["p"], s, length=ln)
        q = p if c["p"] == c["q"] else make_stack(c["q"], s // 3, length=ln)
        a, b = (np.array([r12(x) for x in c[k]]) for k in "ab")
        na, nb = FundamentalBasis(len(a)), FundamentalBasis(len(b))
        la = {"basis": TupleBasis(na, p), "data": a.reshape(-1).copy()}
        lb = {"basis": TupleBasis(nb, q), "data": b.reshape(-1).copy()}
        want = np.array([r12(r, None, c["s"]) for r in c["inner"]])
        r = SL.calculate_inner_products(la, lb)
        eq("inner products", r["data"], want.reshape(-1), case)
        ex("inner products: basis", same_basis(r["basis"], TupleBasis(na, nb)), case, "")
        r = SL.calculate_inner_products_elementwise(la, {"basis": TupleBasis(na, q), "data": b[:len(a)].reshape(-1).copy()})
        eq("elementwise inner products", r["data"], np.diagonal(want), case)
        ex("elementwise inner products: basis", same_basis(r["basis"], na), case, "")
        n2 = r12(c["norm2"]).real
        own = np.array([r12(r) for r in c["self"]])
        ea, eb = np.array([2 + 1j, -1j]), np.array([1 - 3j, 0.5])
        l2 = {**la, "eigenvalue": ea}
        r = SL.calculate_inner_products_eigenvalues(l2, {**la, "eigenvalue": eb})
        eq("inner products of scaled states", r["data"], (own * ea.conj()[:, None] * eb).reshape(-1), case)
        ex("inner products of scaled states: basis", same_basis(r["basis"], TupleBasis(na, na)), case, "")
        states = SL.state_vector_list_into_iter(la)
        for k, st in enumerate(states):
            eq("normalization", SV.calculate_normalization(st), n2[k], case)
            d = SV.as_dual_vector(st)
            eq("dual vector", d["data"], a[k].conj(), case)
            ex("dual vector: basis", d["basis"] == st["basis"], case, "")
            eq("dual of the dual", SV.as_vector(d)["data"], a[k], case)
            for j in range(len(a)):
                dj = SV.as_dual_vector({"basis": p, "data": a[j].copy()})
                eq("inner product", SV.calculate_inner_product(st, dj), own[j][k], case)
        w = r12(c["w"])
        r = SL.get_weighted_state_vector(la, {"basis": na, "data": w.copy()})
        eq("weighted sum of states", r["data"], r12(c["weighted"]), case)
        ex("weighted sum of states: basis", same_basis(r["basis"], p), case, "")
        r = SL.get_basis_states(p)
        eq("states of a basis", np.asarray(r["data"]).reshape(p.n, -1), np.eye(p.n), case)
        ex("states of a basis: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(p.n), p)), case, "")
        for k in range(p.n):
            r = U.get_single_point_state_vector_excact(p, k)
            eq("exact single point state", r["data"], np.eye(p.n)[k], case)
        r = EL.get_eigenvalues_list(l2)
        eq("eigenvalues of a list", r["data"], ea, case)
        ex("eigenvalues of a list: basis", same_basis(r["basis"], TupleBasis(na, na)), case, "")
        ex("arguments untouched", np.array_equal(la["data"], a.ravel()) and np.array_equal(lb["data"], b.ravel()), case, "")

    def expect(i, c, case):
        s = stable_hash(chk.seed, i)
        ln = all(has_length(c[k]) for k in "puv")
        mk = {}
        p, u, v = (mk.setdefault(repr(c[k]), make_stack(c[k], s // (1 + j), length=ln)) for j, k in enumerate("puv"))
        a = np.array([r12(x) for x in c["a"]])
        o = r12(c["o"])
        op = {"basis": TupleBasis(u, v), "data": o.copy()}
        want = r12(c["e"], None, c["s"])
        for k in range(len(a)):
            eq("expectation value", EC.calculate_expectation(op, {"basis": p, "data": a[k].copy()}), want[k], case)
        na = FundamentalBasis(len(a))
        r = EC.calculate_expectation_list(op, {"basis": TupleBasis(na, p), "data": a.reshape(-1).copy()})
        eq("expectation values of a list", r["data"], want, case)
        ex("expectation values of a list: basis", same_basis(r["basis"], na), case, "")
        dual = SV.as_dual_vector({"basis": u, "data": r12(c["x"])})
        eq("operator inner product", EC.calculate_operator_inner_product(dual, op, {"basis": v, "data": r12(c["y"])}),
           r12([c["sandwich"]])[0], case)
        ex("arguments untouched", np.array_equal(op["data"], o), case, "")

    def diagonal(i, c, case):
        s = stable_hash(chk.seed, i)
        ln = all(has_length(c[k]) for k in "pu")
        p = make_stack(c["p"], s, length=ln)
        u = p if c["p"] == c["u"] else make_stack(c["u"], s // 3, length=ln)
        a = np.array([r12(x) for x in c["a"]])
        want = r12(c["e"]) / c["s"]
        op = {"basis": TupleBasis(u, u), "data": r12(c["d"])}
        for k in range(len(a)):
            eq("expectation value of a diagonal operator",
               EC.calculate_expectation_diagonal(op, {"basis": p, "data": a[k].copy()}), want[k], case)

    def average(c, case):
        shape = tuple(x["n"] for x in c["p"])
        lb = TupleBasis(*(FundamentalBasis(n) for n in shape))
        sb = FundamentalBasis(2)
        d = np.array([r12(x) for x in c["data"]])
        src = {"basis": TupleBasis(lb, sb), "data": d.reshape(-1).copy()}
        for av in c["avg"]:
            ax = tuple(x - 1 for x in av["ax"])
            want = np.array([r12(x) for x in av["sum"]]) / av["count"]
            keep = TupleBasis(*(FundamentalBasis(n) for k, n in enumerate(shape) if k not in ax))
            for axis in {ax, ax[::-1]} | ({None} if len(ax) == len(shape) else set()):
                r = SL.average_state_vector(src, axis)
                eq("average of states", r["data"], want.reshape(-1), {**case, "axis": axis})
                ex("average of states: basis", same_basis(r["basis"], TupleBasis(keep, sb)), {**case, "axis": axis}, "")
            # weights of a single axis
            if len(ax) == 1:
                w = np.arange(shape[ax[0]]) + 1.0
                r = SL.average_state_vector(src, ax, weights=w)
                x = np.moveaxis(d.reshape(*shape, -1), ax[0], 0)
                eq("weighted average of states", r["data"], sum(wi * xi for wi, xi in zip(w, x)).reshape(-1) / w.sum(), {**case, "axis": ax})
            if len(ax) == len(shape):
                w = (np.arange(np.prod(shape)) % 4 + 1.0).reshape(shape)
                x = d.reshape(*shape, -1)
                r = SL.average_state_vector(src, None, weights=w[..., None] * np.ones(2))
                eq("weighted average of all states", r["data"], (x * w[..., None]).reshape(-1, 2).sum(0) / w.sum(), case)
        ex("argument untouched", np.array_equal(src["data"], d.ravel()), case, "")

    def wbasis(cells, points, sp="x"):
        nd = len(cells)
        cls = {"x": B.FundamentalPositionBasis, "k": B.FundamentalTransformedPositionBasis}[sp]
        d = np.eye(nd) * 1.5 + 0.25 * (np.arange(nd)[:, None] > np.arange(nd))
        return TupleBasis(TupleBasis(*(B.FundamentalTransformedBasis(n) for n in cells)),
                          TupleBasis(*(cls(d[a], n) for a, n in enumerate(points))))

    def free(i, c, case):
        cells = tuple(x["n"] for x in c["p"])
        points = tuple(x["nf"] for x in c["p"])
        shape = tuple(x["n"] for x in c["q"])
        wb = wbasis(cells, points, "xk"[i % 2])
        ft = np.array([r12(r) for r in c["free"]])
        nst, npt = ft.shape
        r = U.get_most_localized_free_state_vectors(wb, shape)
        eq("free localized states", np.asarray(r["data"]).reshape(nst, -1), ft / np.sqrt(npt), case)
        d = [wb[1][a].delta_x * cells[a] for a in range(len(cells))]
        sb = TupleBasis(*(B.TransformedPositionBasis(d[a], cells[a] * shape[a], cells[a] * points[a]) for a in range(len(cells))))
        ex("free localized states: basis",
           same_basis(r["basis"][1], sb) and tuple(r["basis"][0].shape) == shape, case, lambda: repr(r["basis"])[:300])
        # states at single points of the first unit cell
        nb = int(np.prod(points))
        for n in {1, min(2, nb), nb}:
            r = U.get_single_point_state_vectors(wb, n)
            x = np.asarray(r["data"]).reshape(n, -1)
            fb = TupleBasis(*(B.FundamentalPositionBasis(d[a], cells[a] * points[a]) for a in range(len(cells))))
            ex("single point states: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(n), fb)), {**case, "n": n}, "")
            ex("single point states: one point each, all distinct",
               np.allclose(x @ x.conj().T, np.eye(n)) and bool(np.all(np.count_nonzero(np.abs(x) > 1e-12, axis=1) == 1)),
               {**case, "n": n}, lambda: str(np.count_nonzero(x, axis=1)))

    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, **{x: c[x] for x in "pquv"}}
        fn = {"inner": inner, "expect": expect, "diagonal": diagonal, "free": free}.get(k)
        chk.guard(k, case, (lambda fn=fn: fn(i, c, case)) if fn else (lambda: average(c, case)))
        chk.traces += 1
    chk.assumptions += ["inner products of states carrying eigenvalues are taken in one basis, as typed"]
