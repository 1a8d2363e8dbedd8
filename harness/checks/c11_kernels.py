"""C11: noise kernels and their decompositions (spec/Kernels.tla)."""
from __future__ import annotations

from math import factorial
from unittest import mock

import numpy as np
from bases import make_stack, r12, same_basis
from scipy.constants import Boltzmann, hbar

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import build as KB
    from surface_potential_analysis.kernel import conversion as KC
    from surface_potential_analysis.kernel import gaussian as KG
    from surface_potential_analysis.kernel import kernel as K
    from surface_potential_analysis.kernel import lorentzian as KL
    from surface_potential_analysis.kernel import sample as KS
    from surface_potential_analysis.kernel import solve as S

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Kernels", {"Seed": chk.seed, "Big": chk.thorough}, workers=8,
                   invariants=("Transforms", "RealSpectrum", "Hermitian", "EigenPairs", "Separable", "LooseLaw", "Emit"))
    chk.sample(cs[0])

    def grid(shape, sp="x"):
        cls = B.FundamentalPositionBasis if sp == "x" else B.FundamentalTransformedPositionBasis
        nd = len(shape)
        return TupleBasis(*(cls(np.eye(nd)[a] * (1.5 + a), n) for a, n in enumerate(shape)))

    def square(b):
        return TupleBasis(TupleBasis(b, b), TupleBasis(b, b))

    def kern(b, h):
        return {"basis": b, "data": np.array(h)}

    def kernel2(ops):
        """The diagonal kernel of a list of diagonal operators, by definition."""
        d = np.asarray(ops["data"]).reshape(ops["basis"][0].n, -1)
        return np.einsum("s,si,sj->ij", np.asarray(ops["eigenvalue"]).ravel(), d.conj(), d)

    def decomposes(nm, ops, want, b, case, tol=1e-9, count=None):
        eq(f"{nm}: operators give the kernel", kernel2(ops), want, case, tol)
        ex(f"{nm}: one eigenvalue per operator", np.asarray(ops["eigenvalue"]).size == ops["basis"][0].n
           and np.asarray(ops["data"]).size == ops["basis"][0].n * b.n, case,
           lambda: f"{np.asarray(ops['eigenvalue']).size} eigenvalues, {ops['basis'][0].n} operators")
        ex(f"{nm}: basis", same_basis(ops["basis"][1], TupleBasis(b, b)), case, "")
        if count is not None:
            ex(f"{nm}: number of operators", ops["basis"][0].n == count, case, lambda: str(ops["basis"][0].n))

    def diag(c, case):
        a, b = c["shape"]
        k, full = r12(c["k"]), r12(c["full"])
        fa, fb = FundamentalBasis(a), FundamentalBasis(b)
        basis = TupleBasis(TupleBasis(fa, fa), TupleBasis(fb, fb))
        src = {"basis": basis, "data": k.copy()}
        r = K.as_full_kernel_from_diagonal(src)
        eq("diagonal kernel as full", np.asarray(r["data"]).ravel(), full, case)
        ex("diagonal kernel as full: basis", same_basis(r["basis"], basis), case, "")
        noise = full + np.where(full == 0, 1.5, 0)
        # entries off the diagonals are ignored
        mask = np.zeros((a, a, b, b), bool)
        mask[np.arange(a)[:, None], np.arange(a)[:, None], np.arange(b), np.arange(b)] = True
        noise = np.where(mask.ravel(), full, 1.5)
        r = K.as_diagonal_kernel_from_full({"basis": basis, "data": noise})
        eq("full kernel as diagonal", r["data"], k, case)
        ex("full kernel as diagonal: basis", same_basis(r["basis"], basis), case, "")
        ex("argument untouched", np.array_equal(src["data"], k), case, "")

    def iso(i, c, case):
        shape = c["shape"]
        h, k = r12(c["h"]), r12(c["k"]).reshape(int(np.prod(shape)), -1)
        s = stable_hash(chk.seed, i)
        sp = "xk"[s % 2]
        for b in (grid(shape), grid(shape, sp)):
            r = K.as_diagonal_kernel_from_isotropic_stacked(kern(b, h))
            eq("isotropic kernel as diagonal, stacked", np.asarray(r["data"]).reshape(k.shape), k, case)
            ex("isotropic kernel as diagonal, stacked: basis", same_basis(r["basis"], square(b)), case, "")
            dk = {"basis": square(b), "data": k.reshape(-1).copy()}
            r = K.as_isotropic_kernel_from_diagonal_stacked(dk)
            eq("diagonal kernel as isotropic, stacked", r["data"], h, case)
            ex("diagonal kernel as isotropic, stacked: basis", same_basis(r["basis"], b), case, "")
            if len(shape) == 1:
                for bb in (b, b[0]):
                    r = K.as_diagonal_kernel_from_isotropic(kern(bb, h))
                    eq("isotropic kernel as diagonal", np.asarray(r["data"]).reshape(k.shape), k, case)
                    ex("isotropic kernel as diagonal: basis", same_basis(r["basis"], square(bb)), case, "")
                    r = K.as_isotropic_kernel_from_diagonal({"basis": square(bb), "data": k.reshape(-1).copy()})
                    eq("diagonal kernel as isotropic", r["data"], h, case)
                    ex("diagonal kernel as isotropic: basis", same_basis(r["basis"], bb), case, "")
            # a kernel that is not isotropic is refused unless asked not to
            if h.size > 1:
                bad = k.copy()
                bad[-1, -1] += 1
                badk = {"basis": square(b), "data": bad.reshape(-1)}
                fns = [K.as_isotropic_kernel_from_diagonal_stacked]
                if len(shape) == 1:
                    fns.append(K.as_isotropic_kernel_from_diagonal)
                for fn in fns:
                    try:
                        fn(badk)
                        ex("kernel that is not isotropic is refused", False, case, "accepted")
                    except AssertionError:
                        ex("kernel that is not isotropic is refused", True, case)
                    eq("kernel that is not isotropic: that of state 0", fn(badk, assert_isotropic=False)["data"], bad[:, 0], case)

    def axis(c, case):
        shape = c["shape"]
        nd = len(shape)
        ax = [r12(x) for x in c["ax"]]
        h = r12(c["h"])
        k = r12(c["k"]).reshape(h.size, -1)
        b = grid(shape)
        r = K.as_isotropic_kernel_from_axis(tuple(kern(b[a], ax[a]) for a in range(nd)))
        eq("axis kernels as isotropic", r["data"], h, case)
        ex("axis kernels as isotropic: basis", same_basis(r["basis"], b), case, "")
        back = K.as_axis_kernel_from_isotropic(kern(b, h))
        ex("isotropic as axis kernels: one per axis", len(back) == nd and all(same_basis(x["basis"], b[a]) for a, x in enumerate(back)), case, "")
        eq("isotropic as axis kernels and back", K.as_isotropic_kernel_from_axis(back)["data"], h, case)
        c0 = h[0] ** (1 / nd)
        for a in range(nd):
            eq("isotropic as axis kernels", back[a]["data"], ax[a] / ax[a][0] * c0, case)
        if c["w"] == 2:   # real and even along every axis
            r = S.get_periodic_noise_operators_real_isotropic_stacked_fft(kern(b, h))
            decomposes("real stacked fft", r, k, b, case)
            r = S.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion(kern(b, h))
            decomposes("real stacked taylor", r, k, b, case, 1e-7)
            r = S.get_periodic_noise_operators_isotropic_stacked_fft(kern(b, h))
            decomposes("stacked fft", r, k, b, case)
            # fewer operators along each axis
            for f in {tuple(1 for _ in shape), tuple(m if a else 1 for a, m in enumerate(shape)), tuple(m if a == 0 else 1 for a, m in enumerate(shape))}:
                parts = [kernel2(S.get_periodic_noise_operators_isotropic_fft(x, fundamental_n=m)) for x, m in zip(back, f)]
                want = parts[0]
                for x in parts[1:]:
                    want = np.kron(want, x)
                r = S.get_periodic_noise_operators_real_isotropic_stacked_fft(kern(b, h), fundamental_shape=f)
                decomposes("real stacked fft of fewer operators", r, want, b, {**case, "operators": f}, count=int(np.prod(f)))
            loose = tuple(m + 1 for m in shape)
            try:
                S.get_periodic_noise_operators_real_isotropic_stacked_fft(kern(b, h), fundamental_shape=loose)
                ex("operators that are not periodic are refused", False, {**case, "operators": loose}, "accepted")
            except AssertionError:
                pass
            parts = [kernel2(S.get_periodic_noise_operators_isotropic_fft(x, fundamental_n=m, assert_periodic=False)) for x, m in zip(back, loose)]
            want = parts[0]
            for x in parts[1:]:
                want = np.kron(want, x)
            r = S.get_periodic_noise_operators_real_isotropic_stacked_fft(kern(b, h), fundamental_shape=loose, assert_periodic=False)
            decomposes("real stacked fft, not periodic", r, want, b, {**case, "operators": loose}, count=int(np.prod(loose)))
            if all(m >= 4 for m in shape):
                f = tuple(1 + a % 2 for a in range(nd))
                f = tuple(min(t, m // 2 - 1) for t, m in zip(f, shape))
                parts = [kernel2(S.get_periodic_noise_operators_real_isotropic_taylor_expansion(kern(b[a], np.real(back[a]["data"])), n=f[a])) for a in range(nd)]
                want = parts[0]
                for x in parts[1:]:
                    want = np.kron(want, x)
                r = S.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion(kern(b, h), shape=f)
                decomposes("real stacked taylor of fewer terms", r, want, b, {**case, "terms": f}, 1e-7, count=int(np.prod([2 * t + 1 for t in f])))
            lists = tuple(S.get_periodic_noise_operators_isotropic_fft(x) for x in back)
            decomposes("operators from axes", K.get_diagonal_noise_operators_from_axis(lists), k, b, case)
            if nd == 1:
                r = S.get_periodic_noise_operators_real_isotropic_taylor_expansion(kern(b[0], h.real))
                decomposes("real taylor", r, k, b[0], case, 1e-7)
                n = shape[0]
                for m in range(1, n // 2):
                    r = S.get_periodic_noise_operators_real_isotropic_taylor_expansion(kern(b[0], h.real), n=m)
                    got = kernel2(r)
                    dd = np.minimum(np.mod(np.arange(n)[:, None] - np.arange(n), n), np.mod(np.arange(n) - np.arange(n)[:, None], n))
                    eq("real taylor of fewer terms: short displacements", got[dd <= m], k[dd <= m], {**case, "n": m}, 1e-7)
                    # for the smallest displacements the operators used are the first frequencies
                    ex("real taylor of fewer terms: number of operators", r["basis"][0].n == 2 * m + 1, {**case, "n": m}, "")

    def ops(c, case):
        shape = c["shape"]
        n = int(np.prod(shape))
        b = grid(shape)
        A = np.array([r12(x) for x in c["ops"]])
        e = r12(c["eig"])
        lst = {"basis": TupleBasis(FundamentalBasis(len(A)), TupleBasis(b, b)), "data": A.reshape(-1).copy(), "eigenvalue": e.copy()}
        r = K.get_full_kernel_from_operators(lst)
        eq("full kernel of operators", r["data"], r12(c["full"]), case)
        ex("full kernel of operators: basis", same_basis(r["basis"], square(b)), case, "")
        k = r12(c["k"])
        r = K.get_diagonal_kernel_from_operators(lst)
        eq("diagonal kernel of operators", r["data"], k, case)
        ex("diagonal kernel of operators: basis", same_basis(r["basis"], square(b)), case, "")
        dl = K.as_diagonal_noise_operators_from_full(lst)
        eq("operators as diagonal", np.asarray(dl["data"]).reshape(len(A), n), np.diagonal(A.reshape(-1, n, n), axis1=1, axis2=2), case)
        eq("operators as diagonal: eigenvalues", dl["eigenvalue"], e, case)
        ex("operators as diagonal: basis", same_basis(dl["basis"], lst["basis"]), case, "")
        r = K.get_diagonal_kernel_from_diagonal_operators(dl)
        eq("diagonal kernel of diagonal operators", r["data"], k, case)
        fl = K.as_noise_operators_from_diagonal(dl)
        eq("diagonal operators as full", np.asarray(fl["data"]).reshape(-1, n, n), A.reshape(-1, n, n) * np.eye(n), case)
        eq("diagonal operators as full: eigenvalues", fl["eigenvalue"], e, case)
        # truncation keeps the operators of largest eigenvalue, in that order
        if np.unique(np.abs(e)).size == e.size:
            order = np.argsort(-np.abs(e))
            for sel in (range(2), [2, 0], range(3)):
                r = KB.truncate_diagonal_noise_operator_list(dl, sel)
                eq("truncated diagonal operators", np.asarray(r["data"]).reshape(-1, n), np.asarray(dl["data"]).reshape(-1, n)[order[list(sel)]], case)
                eq("truncated diagonal operators: eigenvalues", r["eigenvalue"], e[order[list(sel)]], case)
                ex("truncated diagonal operators: basis", r["basis"][0].n == len(list(sel)) and same_basis(r["basis"][1], dl["basis"][1]), case, "")
        if c["w"] == 0:
            order = np.argsort(-e.real)
            for sel in (range(2), [2, 0], range(3)):
                r = KB.truncate_noise_operator_list(lst, sel)
                eq("truncated operators", np.asarray(r["data"]).reshape(-1, n * n), A[order[list(sel)]], case)
                eq("truncated operators: eigenvalues", r["eigenvalue"], e[order[list(sel)]], case)
                ex("truncated operators: basis", r["basis"][0].n == len(list(sel)) and same_basis(r["basis"][1], lst["basis"][1]), case, "")
        ex("argument untouched", np.array_equal(lst["data"], A.reshape(-1)) and np.array_equal(lst["eigenvalue"], e), case, "")

    class SeededRng:
        """np.random.default_rng with a fixed seed, so that sampling is reproducible."""

        def __enter__(self):
            orig = np.random.default_rng
            count = iter(range(10**6))
            self.p = mock.patch.object(np.random, "default_rng",
                                       lambda *a, **k: orig(chk.seed * 1000 + next(count)))
            np.random.seed(chk.seed)
            self.p.__enter__()

        def __exit__(self, *a):
            self.p.__exit__(*a)

    def moments(nm, x, want, case):
        """Zero mean, <x_i* x_j> = want and <x_i x_j> = 0 within eight standard errors."""
        ns = x.shape[0]
        x = x / np.sqrt(hbar)
        sc = np.sqrt(np.abs(np.outer(np.diag(want), np.diag(want)))) + 1e-12
        tol = 8 / np.sqrt(ns)
        ex(f"{nm}: mean", bool(np.all(np.abs(x.mean(0)) <= tol * np.sqrt(np.abs(np.diag(want))) + 1e-9)), case, "")
        cov = x.conj().T @ x / ns
        ex(f"{nm}: correlation is hbar times the kernel", bool(np.all(np.abs(cov - want) <= 2 * tol * sc)), case,
           lambda: f"{cov.tolist()} specified {want.tolist()}")
        ex(f"{nm}: no anomalous correlation", bool(np.all(np.abs(x.T @ x / ns) <= 2 * tol * sc)), case, "")

    def herm(c, case):
        shape = c["shape"]
        n = int(np.prod(shape))
        b = grid(shape)
        k = r12(c["k"]).reshape(n, n) / c["den"]
        dk = {"basis": square(b), "data": k.reshape(-1).copy()}
        r = S.get_periodic_noise_operators_diagonal_eigenvalue(dk)
        decomposes("diagonal eigenvalue", r, k, b, case, count=n)
        eq("diagonal eigenvalue: eigenvalues", np.sort(r["eigenvalue"]), np.sort(c["eig"]), case)
        d = np.asarray(r["data"]).reshape(n, n)
        eq("diagonal eigenvalue: independent operators", d.conj() @ d.T, np.eye(n), case)
        for m, t in enumerate(c["trunc"]):
            want = r12(t) / c["den"]
            got = KB.truncate_diagonal_noise_kernel(dk, range(m + 1))
            eq("truncated diagonal kernel", got["data"], want, {**case, "n": m + 1})
            ex("truncated diagonal kernel: basis", same_basis(got["basis"], square(b)), case, "")
        if len(c["mom"]):
            kb = grid(shape, "k")
            got = KC.convert_diagonal_kernel_to_basis(dk, TupleBasis(kb, kb))
            eq("diagonal kernel to momentum basis", got["data"], r12(c["mom"]) / (c["den"] * n * n), case)
            ex("diagonal kernel to momentum basis: basis", same_basis(got["basis"], square(kb)), case, "")
        if min(c["eig"]) >= 0 and len(shape) == 1:
            ns = 4000
            with SeededRng():
                got = KS.sample_noise_from_diagonal_kernel(dk, n_samples=ns, truncation=None)
                moments("noise of a diagonal kernel", np.asarray(got["data"]).reshape(ns, n), k, case)
                ex("noise of a diagonal kernel: basis", same_basis(got["basis"], TupleBasis(FundamentalBasis(ns), TupleBasis(b, b))), case, "")
                got = KS.sample_noise_from_diagonal_operators(r, n_samples=ns)
                moments("noise of diagonal operators", np.asarray(got["data"]).reshape(ns, n), k, case)
                split = KS.sample_noise_from_diagonal_operators_split(r, n_samples=ns)
                parts = np.asarray(split["data"]).reshape(n, ns, n)
                moments("split noise", parts.sum(axis=0), k, case)
                for j in range(n):
                    op = {"basis": TupleBasis(FundamentalBasis(1), r["basis"][1]), "data": d[j], "eigenvalue": r["eigenvalue"][j:j + 1]}
                    moments("noise of one operator", parts[j], kernel2(op), case)
                tot = KS.diagonal_operator_list_from_diagonal_split(split)
                eq("sum of split noise", np.asarray(tot["data"]).reshape(ns, n) / np.sqrt(hbar), parts.sum(axis=0) / np.sqrt(hbar), case)
                ex("sum of split noise: basis", same_basis(tot["basis"], TupleBasis(FundamentalBasis(ns), TupleBasis(b, b))), case, "")
                comp = KS.get_diagonal_split_noise_components(split)
                eq("components of split noise", np.array([np.asarray(x["data"]).reshape(ns, n) for x in comp]) / np.sqrt(hbar), parts / np.sqrt(hbar), case)
                # mixed signs cannot occur: the split of independent operators is uncorrelated
                cross = parts[0].conj().T @ parts[-1] / ns / hbar if n > 1 else np.zeros((1, 1))
                ex("split noise: operators are independent", bool(np.all(np.abs(cross) <= 16 / np.sqrt(ns) * (1 + np.max(np.abs(k))))), case, "")
                full = K.as_noise_operators_from_diagonal(r)
                got = KS.sample_noise_from_operators(full, n_samples=ns)
                x = np.asarray(got["data"]).reshape(ns, n, n)
                moments("noise of full operators", np.diagonal(x, axis1=1, axis2=2), k, case)
                ex("noise of full operators: nothing off the diagonal", not np.any(x[:, ~np.eye(n, dtype=bool)]), case, "")
                if c["trunc"]:
                    got = KS.sample_noise_from_diagonal_kernel(dk, n_samples=ns, truncation=range(1))
                    moments("noise of a truncated kernel", np.asarray(got["data"]).reshape(ns, n), r12(c["trunc"][0]).reshape(n, n) / c["den"], case)
        ex("argument untouched", np.array_equal(dk["data"], k.reshape(-1)), case, "")

    def hermfull(c, case):
        b = grid((2,))
        full = r12(c["full"]) / c["den"]
        fk = {"basis": square(b), "data": full.copy()}
        r = S.get_periodic_noise_operators_eigenvalue(fk)
        A = np.asarray(r["data"]).reshape(-1, 2, 2)
        eq("eigenvalue: operators give the kernel",
           np.einsum("s,sji,skl->ijkl", r["eigenvalue"], A.conj(), A).reshape(-1), full, case)
        eq("eigenvalue: eigenvalues", np.sort(r["eigenvalue"]), np.sort(c["eig"]), case)
        eq("eigenvalue: independent operators", A.reshape(-1, 4).conj() @ A.reshape(-1, 4).T, np.eye(4), case)
        ex("eigenvalue: basis", same_basis(r["basis"][1], TupleBasis(b, b)) and r["basis"][0].n == 4, case, "")
        for m, t in enumerate(c["trunc"]):
            got = KB.truncate_noise_kernel(fk, range(m + 1))
            eq("truncated kernel", got["data"], r12(t) / c["den"], {**case, "n": m + 1})
            ex("truncated kernel: basis", same_basis(got["basis"], square(b)), case, "")
        kb = grid((2,), "k")
        got = KC.convert_kernel_to_basis(fk, TupleBasis(kb, kb))
        eq("kernel to momentum basis", got["data"], r12(c["mom"]) / (c["den"] * 4), case)
        ex("kernel to momentum basis: basis", same_basis(got["basis"], square(kb)), case, "")
        ex("argument untouched", np.array_equal(fk["data"], full), case, "")

    def fft(c, case):
        shape = tuple(c["shape"])
        n = int(np.prod(shape))
        b = grid(shape)
        h = r12(c["h"])
        k = r12(c["k"]).reshape(n, n)
        spec = r12(c["spec"])
        real = not np.any(h.imag)
        src = kern(b, h)
        r = S.get_periodic_noise_operators_isotropic_stacked_fft(src)
        decomposes("stacked fft", r, k, b, case, count=n)
        eq("stacked fft: spectrum", np.sort_complex(np.round(r["eigenvalue"], 8) + 0), np.sort_complex(np.round(spec, 8) + 0), case, 1e-7)
        for f, pk in c["pad"]:
            r = S.get_periodic_noise_operators_isotropic_stacked_fft(src, fundamental_shape=tuple(f))
            decomposes("stacked fft of fewer operators", r, r12(pk).reshape(n, n), b, {**case, "operators": f}, count=int(np.prod(f)))
        for f, pk in c["loose"]:
            r = S.get_periodic_noise_operators_isotropic_stacked_fft(src, fundamental_shape=tuple(f), assert_periodic=False)
            decomposes("stacked fft, not periodic", r, r12(pk).reshape(n, n), b, {**case, "operators": f}, count=int(np.prod(f)))
            if len(shape) == 1:
                r = S.get_periodic_noise_operators_isotropic_fft(kern(b[0], h), fundamental_n=f[0], assert_periodic=False)
                decomposes("fft, not periodic", r, r12(pk).reshape(n, n), b[0], {**case, "operators": f}, count=f[0])
                half = f[0] > shape[0] and shape[0] % 2 == 0 and abs(h[shape[0] // 2]) > 1e-9
                # the displacement of half a period has no partner among the padded ones
                if real and f[0] % 2 == 1 and not half:
                    r = S.get_periodic_noise_operators_real_isotropic_fft(kern(b[0], h), n=(f[0] - 1) // 2, assert_periodic=False)
                    decomposes("real fft, not periodic", r, r12(pk).reshape(n, n), b[0], {**case, "operators": f}, count=f[0])
        if len(shape) == 1:
            b1 = b[0]
            s1 = kern(b1, h)
            r = S.get_periodic_noise_operators_isotropic_fft(s1)
            decomposes("fft", r, k, b1, case, count=n)
            for f, pk in c["pad"]:
                r = S.get_periodic_noise_operators_isotropic_fft(s1, fundamental_n=f[0])
                decomposes("fft of fewer operators", r, r12(pk).reshape(n, n), b1, {**case, "operators": f}, count=f[0])
                if real and f[0] % 2 == 1:
                    r = S.get_periodic_noise_operators_real_isotropic_fft(s1, n=(f[0] - 1) // 2)
                    decomposes("real fft of fewer operators", r, r12(pk).reshape(n, n), b1, {**case, "operators": f}, count=f[0])
            if real:
                r = S.get_periodic_noise_operators_real_isotropic_fft(s1)
                decomposes("real fft", r, k, b1, case)
                ex("real fft: operators are hermitian", not np.any(np.imag(r["data"])), case, "")
            iso_k = K.get_isotropic_kernel_from_diagonal_operators(S.get_periodic_noise_operators_isotropic_fft(s1))
            eq("isotropic kernel of diagonal operators", iso_k["data"], h, case)
            ex("isotropic kernel of diagonal operators: basis", same_basis(iso_k["basis"], b1), case, "")
            full = K.as_noise_operators_from_diagonal(S.get_periodic_noise_operators_isotropic_fft(s1))
            eq("isotropic kernel of operators", K.get_isotropic_kernel_from_operators(full)["data"], h, case)
            if n > 1:
                # operators of a kernel which is not isotropic: refused, unless asked not to
                one = K.as_diagonal_noise_operators_from_full(full)
                one = {**one, "data": np.asarray(one["data"]) * np.tile(1.0 + np.arange(n), n)}
                want = kernel2(one)
                lists = {"get_isotropic_kernel_from_diagonal_operators": one, "get_isotropic_kernel_from_operators": K.as_noise_operators_from_diagonal(one)}
                ts = TupleBasis(b1)
                lists["get_isotropic_kernel_from_diagonal_operators_stacked"] = {**one, "basis": TupleBasis(one["basis"][0], TupleBasis(ts, ts))}
                isotropic = np.allclose(want, want[np.mod(np.arange(n)[:, None] - np.arange(n), n), 0])
                for nm, ops_ in lists.items():
                    cc = {**case, "function": nm}
                    eq("operators that are not isotropic: the kernel of state 0", getattr(K, nm)(ops_, assert_isotropic=False)["data"], want[:, 0], cc)
                    try:
                        getattr(K, nm)(ops_)
                        ex("operators that are not isotropic are refused", isotropic or not np.any(want), cc, "accepted")
                    except AssertionError:
                        ex("operators that are not isotropic are refused", True, cc)
        for bad in [f for f in ([s + 1 for s in shape],) if all(x > 0 for x in f)]:
            for fn, arg in ((lambda: S.get_periodic_noise_operators_isotropic_stacked_fft(src, fundamental_shape=tuple(bad)), bad),):
                try:
                    fn()
                    ex("operators that are not periodic are refused", False, {**case, "operators": arg}, "accepted")
                except AssertionError:
                    ex("operators that are not periodic are refused", True, case)
        r = K.get_isotropic_kernel_from_diagonal_operators_stacked(S.get_periodic_noise_operators_isotropic_stacked_fft(src))
        eq("isotropic kernel of diagonal operators, stacked", r["data"], h, case)
        ex("isotropic kernel of diagonal operators, stacked: basis", same_basis(r["basis"], b), case, "")
        ex("argument untouched", np.array_equal(src["data"], h), case, "")

    def cos(c, case):
        n, nt = c["shape"][0], c["nt"]
        b = grid((n,))[0]
        p = np.array([t / factorial(2 * m) for m, t in enumerate(c["taylor"])])
        r = S.get_periodic_noise_operators_explicit_taylor_expansion(b, p, n_terms=nt)
        k = r12(c["k2"]).reshape(n, n) / 2
        decomposes("explicit taylor", r, k, b, case, 1e-7)
        full = S.get_periodic_operators_for_real_isotropic_noise(b, n=nt)
        i = np.arange(n)
        cosines = [np.cos(2 * np.pi * m * i / n) for m in range(nt)]
        sines = [np.sin(2 * np.pi * m * i / n) for m in range(nt - 1, 0, -1)]
        eq("real periodic operators", np.asarray(full["data"]).reshape(-1, n), np.array(cosines + sines) / np.sqrt(n), case)
        ex("real periodic operators: basis", same_basis(full["basis"][1], TupleBasis(b, b)) and full["basis"][0].n == 2 * nt - 1, case, "")

    def taylor_moments(c, case):
        n, nt, q = c["shape"][0], c["nt"], c["w"]
        a = 1.3
        for vec in ([2.5], [1.5, 2.0]):
            b = B.FundamentalPositionBasis(np.array(vec), n)
            L = np.linalg.norm(vec)

            def series(ops, t=nt):
                k = kernel2(ops)
                j = np.arange(n)
                return np.array([(1 if m == 0 else 2) * np.mean(k[:, 0] * np.cos(2 * np.pi * m * j / n)) for m in range(t)]), k

            lam = L / (2 * np.pi) / np.sqrt(2 * q)
            lor = L / (2 * np.pi) / np.sqrt(q)
            tb = TupleBasis(b)
            for nm, r, want in (
                ("gaussian taylor operators", KG.get_periodic_gaussian_operators_explicit_taylor(b, a, lam, n_terms=nt), c["gauss"]),
                *([("lorentzian taylor operators", KL.get_lorentzian_operators_explicit_taylor(a, lor, tb, n_terms=nt), c["lor"])] if len(vec) == 1 else []),
            ):
                cc, k = series(r)
                got = np.array([np.sum(cc * np.arange(nt, dtype=float) ** (2 * m)) for m in range(nt)])
                eq(f"{nm}: taylor coefficients", got / (a * a * np.array(want)), np.ones(nt), case, 1e-6)
                # nothing but those cosines
                j = np.arange(n)
                rec = sum(cc[m] * np.cos(2 * np.pi * m * (j[:, None] - j) / n) for m in range(nt))
                eq(f"{nm}: a cosine series", k, rec, case, 1e-6)
                ex(f"{nm}: one eigenvalue per operator", r["basis"][0].n == np.asarray(r["eigenvalue"]).size == 2 * nt - 1, case, "")
            r = KG.get_periodic_gaussian_operators_explicit_taylor(b, a, lam)
            ex("gaussian taylor operators: default number", r["basis"][0].n == 2 * (n // 2) - 1, case, lambda: str(r["basis"][0].n))
            # linear operators: powers of the displacement with the plain taylor coefficients
            r = KG.get_linear_gaussian_noise_operators_explicit_taylor(b, a, lam, n_terms=nt)
            eq("linear gaussian operators: coefficients", r["eigenvalue"],
               [a * a * (-q) ** m / factorial(m) for m in range(nt)], case)
        # on a surface, the product over the axes
        tb = grid((n, 2 * (n // 4) + 2))
        lam = 0.9
        axes = [KG.get_periodic_gaussian_operators_explicit_taylor(tb[x], a, lam, n_terms=2) for x in range(2)]
        want = np.einsum("ij,kl->ikjl", *map(kernel2, axes)).reshape(tb.n, tb.n)
        r = KG.get_periodic_gaussian_operators_explicit_taylor_stacked(tb, a, lam, shape=(2, 2))
        decomposes("gaussian taylor operators of a surface", r, want, tb, case, 1e-7)
        axes = [KG.get_linear_gaussian_noise_operators_explicit_taylor(tb[x], a, lam, n_terms=2) for x in range(2)]
        want = np.einsum("ij,kl->ikjl", *map(kernel2, axes)).reshape(tb.n, tb.n)
        r = KG.get_linear_gaussian_operators_explicit_taylor_stacked(tb, a, lam, shape=(2, 2))
        decomposes("linear gaussian operators of a surface", r, want, tb, case, 1e-7)
        # as many terms as usual: half the points along each axis, or all of them
        if n <= 6:
            axes = [KG.get_periodic_gaussian_operators_explicit_taylor(tb[x], a, lam, n_terms=tb[x].n // 2) for x in range(2)]
            want = np.einsum("ij,kl->ikjl", *map(kernel2, axes)).reshape(tb.n, tb.n)
            r = KG.get_periodic_gaussian_operators_explicit_taylor_stacked(tb, a, lam)
            s0 = np.max(np.abs(want))
            eq("gaussian taylor operators of a surface: usual terms", kernel2(r) / s0, want / s0, case, 1e-7)
            axes = [KG.get_linear_gaussian_noise_operators_explicit_taylor(tb[x], a, lam, n_terms=tb[x].n) for x in range(2)]
            want = np.einsum("ij,kl->ikjl", *map(kernel2, axes)).reshape(tb.n, tb.n)
            s0 = np.max(np.abs(want))
            r = KG.get_linear_gaussian_operators_explicit_taylor_stacked(tb, a, lam)
            eq("linear gaussian operators of a surface: usual terms", kernel2(r) / s0, want / s0, case, 1e-7)
            r = KL.get_lorentzian_operators_explicit_taylor(a, lam, TupleBasis(tb[0]))
            q1 = KL.get_lorentzian_operators_explicit_taylor(a, lam, TupleBasis(tb[0]), n_terms=r["basis"][0].n // 2 + 1)
            eq("lorentzian taylor operators: usual terms", kernel2(r), kernel2(q1), case, 1e-7)

    def linear(c, case):
        n = c["shape"][0]
        b = grid((n,))[0]
        d = 2 * np.pi / n * np.array(c["d"], dtype=float)
        # the displacement of half a period may have either sign
        p = np.array([1.5, -0.5, 2.0, 0.25])[: 2 + c["w"]]
        r = S.get_linear_noise_operators_explicit_taylor_expansion(b, p, n_terms=len(p))
        want = sum(pm * np.outer(d**m, d**m) for m, pm in enumerate(p))
        decomposes("linear taylor operators", r, want, b, case, count=len(p))
        eq("linear taylor operators: coefficients", r["eigenvalue"], p, case)

    def temp(c, case):
        p = make_stack(c["p"], 0, length=True)
        u = make_stack(c["u"], 0, length=True)
        T = 2 / Boltzmann
        two = FundamentalBasis(2)
        H = r12(c["ham"])
        ham = {"basis": TupleBasis(p, p), "data": H.copy()}
        e = np.array([1.0, 2.5])
        A = np.array([r12(x) for x in c["full"]])
        lst = {"basis": TupleBasis(two, TupleBasis(u, u)), "data": A.reshape(-1).copy(), "eigenvalue": e}
        want = np.array([r12(x, None, c["s"] ** 2) - r12(y, None, c["s"] ** 2) / 8 for x, y in zip(c["inp"], c["comm"])])
        r = KB.get_temperature_corrected_noise_operators(ham, lst, T)
        eq("temperature corrected operators", np.asarray(r["data"]).reshape(2, -1), want, case)
        eq("temperature corrected operators: eigenvalues", r["eigenvalue"], e, case)
        ex("temperature corrected operators: basis", same_basis(r["basis"], TupleBasis(two, TupleBasis(p, p))), case, "")
        D = np.array([r12(x) for x in c["diag"]])
        m = u.n
        dl = {"basis": TupleBasis(two, TupleBasis(u, u)), "data": np.diagonal(D.reshape(2, m, m), axis1=1, axis2=2).reshape(-1).copy(), "eigenvalue": e}
        want = np.array([x - r12(y, None, c["s"] ** 2) / 8 for x, y in zip(D, c["dcomm"])])
        r = KB.get_temperature_corrected_diagonal_noise_operators(ham, dl, T)
        eq("temperature corrected diagonal operators", np.asarray(r["data"]).reshape(2, -1), want, case)
        eq("temperature corrected diagonal operators: eigenvalues", r["eigenvalue"], e, case)
        ex("temperature corrected diagonal operators: basis", same_basis(r["basis"], TupleBasis(two, TupleBasis(u, u))), case, "")
        ex("argument untouched", np.array_equal(ham["data"], H) and np.array_equal(lst["data"], A.reshape(-1)), case, "")
        # the gaussian operators of the surface, corrected with this hamiltonian
        if all(x["sp"] == "x" and x["n"] == x["nf"] for x in c["p"]) and len(c["p"]) == 1:
            a, lam = 1.2, 0.8
            plain = KG.get_gaussian_noise_operators_periodic(p, a, lam)
            k = KG.get_gaussian_noise_kernel(p, a, lam)
            decomposes("gaussian operators", plain, np.asarray(k["data"]).reshape(p.n, p.n), p, case)
            d = np.asarray(plain["data"]).reshape(-1, p.n)
            L = np.einsum("si,ij->sij", d, np.eye(p.n))
            Hm = H.reshape(p.n, p.n)
            L = L - (Hm @ L - L @ Hm) / 8
            want = np.einsum("s,sji,skl->ijkl", plain["eigenvalue"], L.conj(), L)
            r = KG.get_temperature_corrected_gaussian_noise_operators(ham, a, lam, T)
            eq("temperature corrected gaussian operators", np.asarray(K.get_full_kernel_from_operators(r)["data"]), want.reshape(-1), case)
            ex("temperature corrected gaussian operators: basis", same_basis(r["basis"][1], TupleBasis(p, p)), case, "")
            t = KG.get_gaussian_noise_operators_periodic(p, a, lam, truncation=range(1))
            w2 = KB.truncate_diagonal_noise_operator_list(plain, range(1))
            eq("truncated gaussian operators", kernel2(t), kernel2(w2), case)
            r = KG.get_temperature_corrected_gaussian_noise_operators(ham, a, lam, T, truncation=range(2))
            cut = KB.get_temperature_corrected_diagonal_noise_operators(ham, KG.get_gaussian_noise_operators_periodic(p, a, lam, truncation=range(2)), T)
            eq("truncated, temperature corrected gaussian operators", np.asarray(K.get_full_kernel_from_operators(r)["data"]), np.asarray(K.get_full_kernel_from_operators(cut)["data"]), case)
            ex("truncated, temperature corrected gaussian operators: number", r["basis"][0].n == 2, case, "")
            eta = 1e-70
            ae, le = KG.get_effective_gaussian_parameters(p, eta, T)
            ke = np.asarray(KG.get_gaussian_noise_kernel(p, ae, le)["data"]).reshape(p.n, p.n)
            r = KG.get_effective_gaussian_noise_operators_periodic(p, eta, T)
            eq("effective gaussian operators", kernel2(r) / ae**2, ke / ae**2, case)
            for factor in (1.0, 4.0):
                af, lf = KG.get_effective_gaussian_parameters(p, eta, T, lambda_factor=factor)
                cc = {**case, "lambda_factor": factor}
                eq("effective gaussian kernel", np.asarray(KG.get_effective_gaussian_noise_kernel(p, eta, T, lambda_factor=factor)["data"]) / af**2,
                   np.asarray(KG.get_gaussian_noise_kernel(p, af, lf)["data"]) / af**2, cc)
                eq("effective gaussian kernel, isotropic", np.asarray(KG.get_effective_gaussian_isotropic_noise_kernel(p, eta, T, lambda_factor=factor)["data"]) / af**2,
                   np.asarray(KG.get_gaussian_isotropic_noise_kernel(p, af, lf)["data"]) / af**2, cc)
            for cut in (range(1), [1, 0]):
                r = KG.get_effective_gaussian_noise_operators_periodic(p, eta, T, truncation=cut)
                q = KG.get_gaussian_noise_operators_periodic(p, ae, le, truncation=cut)
                eq("truncated effective gaussian operators", kernel2(r) / ae**2, kernel2(q) / ae**2, {**case, "kept": list(cut)})
                r = KG.get_temperature_corrected_effective_gaussian_noise_operators(ham, eta, T, truncation=cut)
                q = KG.get_temperature_corrected_gaussian_noise_operators(ham, ae, le, T, truncation=cut)
                eq("truncated, temperature corrected effective gaussian operators", np.asarray(K.get_full_kernel_from_operators(r)["data"]) / ae**2,
                   np.asarray(K.get_full_kernel_from_operators(q)["data"]) / ae**2, {**case, "kept": list(cut)})
            r = KG.get_temperature_corrected_effective_gaussian_noise_operators(ham, eta, T)
            q = KG.get_temperature_corrected_gaussian_noise_operators(ham, ae, le, T)
            eq("temperature corrected effective gaussian operators", np.asarray(K.get_full_kernel_from_operators(r)["data"]) / ae**2,
               np.asarray(K.get_full_kernel_from_operators(q)["data"]) / ae**2, case)

    fns = {"diag": diag, "axis": axis, "ops": ops, "herm": herm, "hermfull": hermfull, "fft": fft, "cos": cos,
           "moments": taylor_moments, "linear": linear, "temp": temp}
    for i, c in enumerate(cs):
        case = {"kind": c["kind"], "shape": c["shape"], "variant": c["w"]}
        if c["kind"] == "iso":
            chk.guard("iso", case, lambda i=i, c=c, case=case: iso(i, c, case))
        else:
            chk.guard(c["kind"], case, lambda c=c, case=case: fns[c["kind"]](c, case))
        chk.traces += 1
    chk.assumptions += ["random samples are compared by their first and second moments (4000 samples from a fixed seed, eight standard errors)"]
