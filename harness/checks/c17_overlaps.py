"""C17: overlaps of states, their transforms, probabilities (spec/Overlaps.tla)."""
from __future__ import annotations

import numpy as np
from bases import delta_for, make_leaf, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.overlap import calculation as C
    from surface_potential_analysis.overlap import interpolation as I
    from surface_potential_analysis.overlap import overlap as O
    from surface_potential_analysis.probability_vector import probability_vector as P

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Overlaps", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 48 if chk.thorough else 36, "MaxG": 36 if chk.thorough else 24},
                   init="InitO", invariants=("Normed", "Summed", "Packed", "Injective", "EmitO"), workers=8)
    chk.sample(cs[0])
    one = TupleBasis(FundamentalBasis(1), FundamentalBasis(1))

    def stack(ls, s, length=None):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a) if s else 0, a, len(ls), length) for a, b in enumerate(ls)))

    def lists(i, c, case):
        h = stable_hash(chk.seed, i)
        b = stack(c["p"], h)
        m = c["q"][0]["n"]
        psi = np.array([r12(v) for v in c["psi"]])
        want = np.array([[r12(r) for r in row] for row in c["o"]])
        st = {"basis": TupleBasis(FundamentalBasis(m), b), "data": psi.reshape(-1).copy()}
        shift = tuple(c["x"])
        shape = tuple(b.shape)
        fns = [lambda: C.calculate_state_vector_list_overlap(st, shift=shift)]
        if not any(shift):
            fns.append(lambda: C.calculate_state_vector_list_overlap(st))
        if len(shape) == 1:
            flat = {"basis": TupleBasis(FundamentalBasis(m), b[0]), "data": st["data"]}
            fns += [lambda: C.calculate_state_vector_list_overlap(st, shift=shift[0]), lambda: C.calculate_state_vector_list_overlap(flat, shift=shift[0])]
        for fn in fns:
            r = fn()
            rb = r["basis"][0]
            eq("overlap of states", np.asarray(r["data"]).reshape(b.n, m, m), want, case)
            ex("overlap of states: basis", same_basis(rb, b if hasattr(rb, "__iter__") else b[0]) and tuple(r["basis"][1].shape) == (m, m), case, "")
        r = fns[0]()
        for j in range(m * m):
            for idx in (j, (j // m, j % m)):
                s = O.get_single_overlap(r, idx)
                eq("overlap of a pair", s["data"], want.reshape(b.n, m * m)[:, j], case)
                ex("overlap of a pair: basis", same_basis(s["basis"][0], b) and s["basis"][1].n == 1, case, "")
        sq = np.abs(psi) ** 2
        pr = P.from_state_vector_list(st)
        eq("probabilities", pr["data"], sq.reshape(-1), case)
        ex("probabilities: basis", same_basis(pr["basis"][1], b) and pr["basis"][0].n == m and np.isrealobj(pr["data"]), case, "")
        pr = P.from_state_vector({"basis": b, "data": psi[0]})
        eq("probabilities", pr["data"], sq[0], case)
        ex("probabilities: basis", same_basis(pr["basis"], b), case, "")
        total = P.sum_probability(pr, tuple(range(b.ndim)))
        eq("total probability", np.sum(total["data"]), np.linalg.norm(psi[0]) ** 2, case)
        ex("arguments untouched", np.array_equal(st["data"], psi.reshape(-1)), case, "")

    def single(b, data):
        return {"basis": TupleBasis(b, one), "data": data.copy()}

    def transform(i, c, case):
        nd = len(c["p"])
        sh = [a["n"] for a in c["p"]]
        ds = [delta_for(a, nd) for a in range(nd)]
        if nd == 3:
            ds[2] = np.array([0, 0, 3.0])
        m = np.array(c["x"], float)
        b = TupleBasis(*(B.FundamentalPositionBasis(ds[a], sh[a]) for a in range(nd)))
        o = r12(c["o"])
        want = r12([c["t"]])[0]
        fr = m * np.array(sh) / 12
        k = 2 * np.pi * np.linalg.inv(np.array(ds)) @ fr
        ov = single(b, o)
        f = I.get_overlap_momentum_interpolator_k_fractions(ov)
        eq("transform at fractions", f(tuple(np.array([v]) for v in fr)), [want], case)
        eq("transform at fractions", f(tuple(np.array([v, 0]) for v in fr)), [want, o.sum()], case)
        f = I.get_overlap_momentum_interpolator(ov)
        for s in ((), (1,), (2, 1)):
            eq("transform at wavevectors", f(np.tile(k.reshape(nd, *(1 for _ in s)), (1, *s))), np.full(s, want), case)
        if nd == 3:
            for n in (None, *range(1, len(c["some"]) + 1)):
                w = c["flat"] if n is None else c["some"][n - 1]
                if not w:
                    continue
                f = I.get_overlap_momentum_interpolator_flat(ov, n) if n else I.get_overlap_momentum_interpolator_flat(ov)
                want2 = r12([w])[0]
                eq("transform in the plane", f(k[:2]), want2, case)
                eq("transform in the plane", f(np.array([k[:2], k[:2]]).T), [want2, want2], case)
            # rotating a wavevector through all angles
            q = np.array([[0.0, 0.7], [1.3, 0.2]])
            h = stable_hash(chk.seed, i) % 5
            co = np.array([1, 2 - 1j, 0.5j, -1, h]) if h else np.array([0, 1, 0, 0, 2.0])

            def harmonics(kv):
                r, t = np.hypot(kv[0], kv[1]), np.arctan2(kv[1], kv[0])
                return sum(a * r**abs(d) * np.exp(1j * d * t) for a, d in zip(co, range(-2, 3)))
            w = sum(abs(a) ** 2 * q ** (2 * abs(d)) for a, d in zip(co, range(-2, 3)))
            eq("average over angles", I.get_angle_averaged_diagonal_overlap_function(harmonics, q), w, case)
            eq("average over angles", I.get_angle_averaged_diagonal_overlap_function(harmonics, q, theta_samples=6 + h), w, case)
        ex("arguments untouched", np.array_equal(ov["data"], o), case, "")

    def packets(i, c, case):
        h = stable_hash(chk.seed, i)
        p = TupleBasis(*(B.FundamentalTransformedBasis(b["n"]) for b in c["p"]))
        q = stack(c["q"], h, True)
        nd = len(c["q"])
        data = np.array([r12(x) for x in c["data"]]).reshape(2, p.n, q.n)
        nl = p.n
        ls = [a["nf"] * b["nf"] for a, b in zip(c["p"], c["q"])]
        ux = np.array([r12(x) for x in c["ux"]]) / np.sqrt(c["s"] * nl * np.prod(ls))
        fb = TupleBasis(*(B.FundamentalPositionBasis(b.delta_x * a.fundamental_n, a.fundamental_n * b.fundamental_n) for a, b in zip(p, q)))
        ws = [{"basis": TupleBasis(p, q), "data": data[b].reshape(-1).copy()} for b in range(2)]
        for a, b in ((0, 1), (1, 0), (0, 0)):
            r = C.calculate_wavepacket_overlap(ws[a], ws[b])
            eq("overlap of wavepackets", r["data"], ux[a].conj() * ux[b], case)
            ex("overlap of wavepackets: basis", same_basis(r["basis"][0], fb) and r["basis"][1].n == 1, case, "")
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), p), q), "data": data.reshape(-1).copy()}
        shift = tuple((h >> a) % 5 - 2 for a in range(nd))
        for s, bb in ((None, None), (shift, None), (shift, fb)):
            kw = ({} if s is None else {"shift": s}) | ({} if bb is None else {"basis": bb})
            r = C.calculate_wavepacket_list_overlap(wl, **kw)
            u = ux.reshape(2, *ls)
            moved = np.roll(u, s or (0,) * nd, tuple(range(1, nd + 1))).reshape(2, -1)
            eq("overlap of bands", np.asarray(r["data"]).reshape(-1, 2, 2), np.einsum("ix,jx->xij", ux.conj(), moved), case)
            ex("overlap of bands: basis", same_basis(r["basis"][0], fb) and tuple(r["basis"][1].shape) == (2, 2), case, "")

    names = {}

    def name(i, c, case):
        k, x = c["u"], c["x"]
        n = O.get_overlap_cache_filename(k[0], k[1], (x[0], x[1]), (x[2], x[3]))
        ex("stored overlaps", (n is not None) == c["named"], case, lambda: str(n))
        if n is not None:
            ex("names of stored overlaps differ", names.setdefault(n, c["key"]) == c["key"], case, lambda: f"{n} also names {names[n]}")
            if not any(x):
                ex("names of stored overlaps: default offsets", O.get_overlap_cache_filename(k[0], k[1]) == n, case, "")

    kinds = {"list": lists, "transform": transform, "packets": packets, "name": name}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {x: c[x] for x in ("kind", "p", "q", "x", "u")}
        chk.guard(k, case, lambda: kinds[k](i, c, case))
        chk.traces += 1
