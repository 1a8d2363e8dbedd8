"""C08: the algebra of operators and lists of operators (spec/Operators.tla)."""
from __future__ import annotations

import numpy as np
from bases import has_length, make_leaf, make_stack, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.operator import operations as OP
    from surface_potential_analysis.operator import operator as O
    from surface_potential_analysis.operator import operator_list as OL
    from surface_potential_analysis.state_vector import eigenstate_calculation as EC

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Operators", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 6 if chk.thorough else 4},
                   invariants=("TraceFree", "Associates", "Adjoint", "Resolves", "HermitianOnes", "Emit"), workers=8)
    chk.sample(cs[0])
    two = FundamentalBasis(2)

    def algebra(i, c):
        k = c["kind"]
        s = stable_hash(chk.seed, i)
        ln = all(has_length(c[x]) for x in "pquv")
        mk = {}

        def b(ls, salt):
            key = repr(ls)
            if key not in mk:
                mk[key] = make_stack(ls, s // salt, length=ln)
            return mk[key]

        p, q, u, v = (b(c[x], 1 + j) for j, x in enumerate("pquv"))
        case = {"operation": k, "p": c["p"], "q": c["q"], "u": c["u"], "v": c["v"]}
        many = len(c["a"]) > 1
        A = np.array([r12(x) for x in c["a"]])
        Bm = np.array([r12(x) for x in c["b"]])
        want = np.array([sum(r12(t["m"], None, t["s"]) for t in parts) for parts in c["res"]])
        ob = TupleBasis(*(b(x, 9) for x in c["out"]))
        pq, uv = TupleBasis(p, q), TupleBasis(u, v)

        def dg(x, n):
            return np.diagonal(x.reshape(-1, n, n), axis1=1, axis2=2)

        op_a = {"basis": pq, "data": A[0].copy()}
        op_b = {"basis": uv, "data": Bm[0].copy()}
        li_a = {"basis": TupleBasis(two, pq), "data": A.reshape(-1).copy()}
        li_b = {"basis": TupleBasis(two, uv), "data": Bm.reshape(-1).copy()}
        di_a = di_b = None
        if k == "diag_list_op":
            di_a = {"basis": TupleBasis(two, pq), "data": dg(A, p.n).reshape(-1).copy()}
        if k in ("op_diag_list", "commutator_diag_list"):
            di_b = {"basis": TupleBasis(two, uv), "data": dg(Bm, u.n).reshape(-1).copy()}
        f = r12([c["factor"]])[0]
        calls = {
            "matmul": lambda: O.matmul_operator(op_a, op_b),
            "add": lambda: O.add_operator(op_a, op_b),
            "subtract": lambda: O.subtract_operator(op_a, op_b),
            "commutator": lambda: OP.get_commutator(op_a, op_b),
            "anticommutator": lambda: OP.get_anti_commutator(op_a, op_b),
            "scale": lambda: OP.scale_operator(f, op_a),
            "list_op": lambda: OP.matmul_list_operator(li_a, op_b),
            "op_list": lambda: OP.matmul_operator_list(op_a, li_b),
            "diag_list_op": lambda: OP.matmul_diagonal_list_operator(di_a, op_b),
            "op_diag_list": lambda: OP.matmul_operator_diagonal_list(op_a, di_b),
            "add_list": lambda: OP.add_list_list(li_a, li_b),
            "subtract_list": lambda: OP.subtract_list_list(li_a, li_b),
            # get_commutator_operator_list re-expresses the list in the basis of the operator
            "commutator_list": lambda: OP.get_commutator_operator_list(op_a, li_b),
            "commutator_diag_list": lambda: OP.get_commutator_diagonal_operator_list(op_a, di_b),
        }
        if k in calls:
            keep = [(o, np.array(o["data"])) for o in (op_a, op_b, li_a, li_b, di_a, di_b) if o is not None]
            r = calls[k]()
            eq(k, np.asarray(r["data"]).reshape(-1), want.reshape(-1), case)
            ex(f"{k}: basis of the result", same_basis(r["basis"], TupleBasis(two, ob) if many else ob), case,
               lambda: repr(r["basis"])[:200])
            ex(f"{k}: operands untouched", all(np.array_equal(o["data"], d) for o, d in keep), case, "")
            for d, full, nb in ((di_a, A, pq), (di_b, Bm, uv)):
                if d is None or k == "commutator_diag_list":
                    continue
                r = OL.diagonal_operator_list_as_full(d)
                eq("diagonal list as full", r["data"], full.reshape(-1), case)
                ex("diagonal list as full: basis", same_basis(r["basis"], d["basis"]), case, "")
                r = OL.operator_list_as_diagonal({"basis": d["basis"], "data": full.reshape(-1) + (1 - np.eye(nb.shape[0])[None]).repeat(2, 0).reshape(-1)})
                eq("list as diagonal keeps the diagonal", r["data"], d["data"], case)
                one = {"basis": nb, "data": d["data"].reshape(2, -1)[1]}
                r = O.as_operator(one)
                eq("diagonal as operator", np.asarray(r["data"]).reshape(-1), full[1], case)
                ex("diagonal as operator: basis", same_basis(r["basis"], nb), case, "")
                r = O.as_diagonal_operator({"basis": nb, "data": full[1] + (1 - np.eye(nb.shape[0])).reshape(-1)})
                eq("operator as diagonal", r["data"], one["data"], case)
                ex("operator as diagonal: basis", same_basis(r["basis"], nb), case, "")
                fl = OL.as_flat_operator({"basis": d["basis"], "data": full.reshape(-1)})
                fb = TupleBasis(two, *nb)
                eq("flat operator", fl["data"], full.reshape(-1), case)
                ex("flat operator: basis", same_basis(fl["basis"], TupleBasis(fb, fb)), case, "")
            if k == "scale":
                r = OP.scale_operator_list(f, li_a)
                eq("scale list", r["data"], want.reshape(-1), case)
                ex("scale list: basis", same_basis(r["basis"], li_a["basis"]), case, "")
            return
        # applying operators to states: normalised states and their norms
        norm = np.sqrt(np.sum(np.abs(want) ** 2, axis=1))
        if np.any(norm < 1e-9):
            return
        if k == "apply":
            st = {"basis": u, "data": Bm[0].copy()}
            r = O.apply_operator_to_state(op_a, st)
            eq("apply to state", r["data"], want[0] / norm[0], case)
            eq("apply to state: norm", r["eigenvalue"], norm[0], case)
            ex("apply to state: basis", same_basis(r["basis"], p), case, "")
            ex("apply: operands untouched", np.array_equal(st["data"], Bm[0]) and np.array_equal(op_a["data"], A[0]), case, "")
        else:
            one = {"basis": TupleBasis(p, q), "data": A[0].copy()}
            st = {"basis": TupleBasis(two, u), "data": Bm.reshape(-1).copy()}
            r = OP.apply_operator_to_states(one, st)
            eq("apply to states", np.asarray(r["data"]).reshape(-1), (want / norm[:, None]).reshape(-1), case)
            eq("apply to states: norms", r["eigenvalue"], norm, case)
            ex("apply to states: basis", same_basis(r["basis"], TupleBasis(two, p)), case, "")
            ex("apply: operands untouched", np.array_equal(st["data"], Bm.reshape(-1)), case, "")

    def spectral(i, c):
        n = c["n"]
        den = c["den"]
        a = r12(c["a"]).reshape(n, n) / den
        lam = np.array([complex(*e) for e in c["eig"]])
        pr = np.array([r12(x) for x in c["proj"]]).reshape(-1, n, n) / den
        case = {"operator": a.tolist(), "eigenvalues": lam.tolist()}
        basis = make_leaf({"sp": "x", "cls": "low", "n": n, "nf": n, "step": 1, "off": 0}, i % 2, 0, 1, True) if i % 3 else FundamentalBasis(n)
        op = {"basis": TupleBasis(basis, basis), "data": a.reshape(-1).copy()}

        def fn(f):
            return np.einsum("k,kij->ij", f(lam), pr)

        tol = 1e-7
        eq("exponential of an operator", OP.exp_operator(op)["data"].reshape(n, n), fn(np.exp), case, tol)
        for nm, f in (("polynomial", lambda x: x * x + 3 * x - 1), ("sine", np.sin), ("step", lambda x: np.where(x.real > 0.5, 2.0, -1.0))):
            r = O.apply_function_to_operator(op, f)
            eq(f"function of an operator: {nm}", np.asarray(r["data"]).reshape(n, n), fn(f), case, tol)
            ex("function of an operator: basis", same_basis(r["basis"], op["basis"]), case, "")

        def decomposition(nm, r, n_states=n, offset=0):
            vec = np.asarray(r["data"]).reshape(-1, n)
            val = np.asarray(r["eigenvalue"])
            ex(f"{nm}: number of states", vec.shape[0] == n_states == val.size == r["basis"][0].n, case, "")
            ex(f"{nm}: basis", same_basis(r["basis"][1], basis), case, "")
            for x, v in zip(val, vec):
                eq(f"{nm}: A v = e v", a @ v, x * v, case, tol)
                eq(f"{nm}: normalised", np.linalg.norm(v), 1.0, case, tol)
            return val, vec

        r = EC.calculate_eigenvectors(op)
        val, vec = decomposition("eigenvectors", r)
        full = np.sort_complex(np.repeat(lam, c["mult"]).round(9))
        eq("eigenvectors: eigenvalues with multiplicity", np.sort_complex(val.round(6) + 0), full, case, 1e-5)
        back = EC.operator_from_eigenstates(r)
        eq("operator from eigenstates", np.asarray(back["data"]).reshape(n, n), a, case, tol)
        ex("operator from eigenstates: basis", same_basis(back["basis"], op["basis"]), case, "")
        if c["kind"] == "hermitian":
            r = EC.calculate_eigenvectors_hermitian(op)
            val, vec = decomposition("hermitian eigenvectors", r)
            eq("hermitian eigenvectors: ascending", val, np.sort(np.repeat(lam.real, c["mult"])), case, tol)
            eq("hermitian eigenvectors: orthonormal", vec.conj() @ vec.T, np.eye(n), case, tol)
            for e, m in zip(lam, pr):
                w = vec[np.abs(val - e.real) < 1e-6]
                eq("hermitian eigenvectors: projector", w.T @ w.conj(), m, case, tol)
            for lo in range(n):
                for hi in range(lo, n):
                    r = EC.calculate_eigenvectors_hermitian(op, subset_by_index=(lo, hi))
                    v2, _ = decomposition("hermitian subset", r, hi - lo + 1)
                    eq("hermitian subset: eigenvalues", v2, val[lo:hi + 1], case, tol)
            # the basis of the eigenstates diagonalises the operator
            from surface_potential_analysis.operator.conversion import convert_operator_to_basis

            eb = EC.get_eigenstate_basis_from_hamiltonian(op)
            d = convert_operator_to_basis(op, TupleBasis(eb, eb))["data"].reshape(n, n)
            eq("eigenstate basis diagonalises", d, np.diag(val), case, tol)
            eb = EC.get_eigenstate_basis_from_hamiltonian(op, (1, n - 1))
            d = convert_operator_to_basis(op, TupleBasis(eb, eb))["data"].reshape(n - 1, n - 1)
            eq("partial eigenstate basis diagonalises", d, np.diag(val[1:]), case, tol)
            tb = make_stack([{"cls": "low", "sp": "x", "n": n, "nf": n, "step": 1, "off": 0}], 0, length=True)
            eb = EC.get_eigenstate_basis_stacked_from_hamiltonian({"basis": TupleBasis(tb, tb), "data": op["data"]}, (0, n - 2))
            d = convert_operator_to_basis({"basis": TupleBasis(tb, tb), "data": op["data"]}, TupleBasis(eb, eb))["data"]
            eq("stacked eigenstate basis diagonalises", d.reshape(n - 1, n - 1), np.diag(val[:-1]), case, tol)
            eb = EC.get_eigenstate_basis_stacked_from_hamiltonian({"basis": TupleBasis(tb, tb), "data": op["data"]})
            d = convert_operator_to_basis({"basis": TupleBasis(tb, tb), "data": op["data"]}, TupleBasis(eb, eb))["data"]
            eq("stacked eigenstate basis of every state diagonalises", d.reshape(n, n), np.diag(val), case, tol)
        ex("argument untouched", np.array_equal(op["data"], a.reshape(-1)), case, "")

    for i, c in enumerate(cs):
        fn = spectral if c["kind"] in ("function", "hermitian") else algebra
        chk.guard(c["kind"], {k: c.get(k) for k in ("kind", "p", "q", "u", "v", "n", "eig")}, lambda fn=fn, i=i, c=c: fn(i, c))
        chk.traces += 1
    chk.assumptions += ["operands of matmul_operator, add_operator and subtract_operator meet in the same basis, as their types demand"]
