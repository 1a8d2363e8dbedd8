"""C12: Bloch wavefunctions, unfurling and resampling (spec/Wavepackets.tla)."""
from __future__ import annotations

import numpy as np
from bases import delta_for, make_leaf, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis
    from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.operator.conversion import convert_diagonal_operator_to_basis
    from surface_potential_analysis.stacked_basis.conversion import (
        stacked_basis_as_fundamental_momentum_basis,
        stacked_basis_as_fundamental_position_basis,
    )
    from surface_potential_analysis.state_vector import util as SU
    from surface_potential_analysis.wavepacket import conversion as WC
    from surface_potential_analysis.wavepacket import eigenstate_conversion as WE
    from surface_potential_analysis.wavepacket import get_eigenstate as G
    from surface_potential_analysis.wavepacket import wavepacket as W

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Wavepackets", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 48 if chk.thorough else 36},
                   invariants=("Bijective", "Bloch", "Unitary", "Resample", "Windowed", "Ordered", "Emit"), workers=8)
    chk.sample(cs[0])

    def lists(ls, s=0):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a) if s else 0, a, len(ls)) for a, b in enumerate(ls)))

    def klists(ls):
        """The list basis of the samples: no lattice vectors."""
        return TupleBasis(*(B.FundamentalTransformedBasis(b["n"]) if b["cls"] == "low" and b["n"] == b["nf"] and b["sp"] == "k"
                            else make_leaf(b, 0, a, len(ls)) for a, b in enumerate(ls)))

    def states(ls, s=0):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a) if s else 0, a, len(ls), True) for a, b in enumerate(ls)))

    def setup(c, i):
        s = stable_hash(chk.seed, i)
        return klists(c["p"]), states(c["q"], s)

    def unfurled_basis(p, q):
        return TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * a.fundamental_n, a.fundamental_n * b.fundamental_n)
                            for a, b in zip(p, q)))

    def full(state, b):
        """Coefficients at every momentum of the full grid."""
        return convert_vector(np.asarray(state["data"]).reshape(-1, state["basis"].n), state["basis"], b)[0]

    def packets(c, p, q):
        d = np.array([r12(x, None) for x in c["data"]]).reshape(2, p.n, q.n)
        e = np.array([r12(x) for x in c["eig"]])
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), p), q), "data": d.reshape(-1).copy(), "eigenvalue": e.reshape(-1).copy()}
        ws = [{"basis": TupleBasis(p, q), "data": d[b].reshape(-1).copy(), "eigenvalue": e[b].copy()} for b in range(2)]
        return d, e, wl, ws

    def bloch(i, c, case):
        p, q = setup(c, i)
        d, e, wl, ws = packets(c, p, q)
        nl = int(np.prod([b["nf"] for b in c["p"]]))
        fb = unfurled_basis(p, q)
        unf = np.array([r12(x, None, c["s"] * nl) for x in c["unf"]])
        bl = np.array([[r12(x, None, c["s"]) for x in y] for y in c["bloch"]])
        ex("unfurled basis", same_basis(W.get_fundamental_unfurled_basis(ws[0]["basis"]), fb), case, "")
        for b, w in enumerate(ws):
            r = WE.unfurl_wavepacket(w)
            eq("unfurled wavepacket", r["data"], unf[b], case)
            ex("unfurled wavepacket: basis", same_basis(r["basis"], fb), case, "")
            every = G.get_all_wavepacket_states(w)
            ex("all states of a wavepacket: one for each sample", len(every) == nl, case, lambda: str(len(every)))
            for l in range(nl):
                eq("all states of a wavepacket", full(every[l], fb), bl[b, l], case)
                forms = [l, tuple(int(x) for x in np.unravel_index(l, [x["nf"] for x in c["p"]]))]
                for f in forms:
                    eq("state of a sample", full(G.get_wavepacket_state_vector(w, f), fb), bl[b, l], {**case, "idx": f})
            if p.n == nl:
                every = G.get_all_eigenstates(w)
                ex("all eigenstates of a wavepacket: one for each sample", len(every) == nl, case, "")
                for l in range(nl):
                    eq("all eigenstates of a wavepacket", full(every[l], fb), bl[b, l], case)
                    eq("all eigenstates of a wavepacket: eigenvalue", every[l]["eigenvalue"], e[b, l], case)
            for l in range(p.n):
                for f in (l, tuple(int(x) for x in np.unravel_index(l, p.shape))):
                    r = G.get_bloch_state_vector(w, f)
                    eq("periodic part of a sample", r["data"], d[b, l], {**case, "idx": f})
                    ex("periodic part of a sample: basis", same_basis(r["basis"], q), case, "")
        r = WE.unfurl_wavepacket_list(wl)
        eq("unfurled wavepackets", np.asarray(r["data"]).reshape(2, -1), unf, case)
        ex("unfurled wavepackets: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(2), fb)), case, "")
        r = G.get_bloch_states(wl)
        eq("bloch states of every band and sample", np.asarray(r["data"]).reshape(-1), bl.reshape(-1), case)
        r = G.get_fundamental_wavepacket(wl)
        fk = stacked_basis_as_fundamental_momentum_basis(q)
        ex("fundamental wavepacket: basis", same_basis(r["basis"][1], fk) and r["basis"][0][1].n == nl, case, "")
        # one by one, and together again
        it = W.wavepacket_list_into_iter(wl)
        ex("wavepackets one by one", len(it) == 2 and all(np.array_equal(x["data"], w["data"]) for x, w in zip(it, ws)), case, "")
        ex("wavepackets one by one: basis", all(same_basis(x["basis"], TupleBasis(p, q)) for x in it), case, "")
        r = W.as_wavepacket_list(it)
        eq("wavepackets together", r["data"], d.reshape(-1), case)
        ex("wavepackets together: basis", same_basis(r["basis"], wl["basis"]), case, "")
        for b in range(2):
            r = W.get_wavepacket(wl, b)
            eq("wavepacket of a band", r["data"], d[b].reshape(-1), case)
            ex("wavepacket of a band: basis", same_basis(r["basis"], TupleBasis(p, q)), case, "")
            r = W.get_wavepacket_at_band(wl, b)
            eq("wavepacket of a band", r["data"], d[b].reshape(-1), case)
            eq("wavepacket of a band: eigenvalues", r["eigenvalue"], e[b], case)
        for sl in (slice(1), slice(2), slice(1, 2), slice(None, None, -1)):
            r = W.get_wavepackets(wl, sl)
            k = len(d[sl])
            eq("some wavepackets", r["data"], d[sl].reshape(-1), {**case, "slice": str(sl)})
            ex("some wavepackets: basis", r["basis"].shape == (k * p.n, q.n) and r["basis"][0].shape == (k, p.n) and same_basis(r["basis"][0][1], p), case, "")
            r = W.get_wavepackets_with_eigenvalues(wl, sl)
            eq("some wavepackets", r["data"], d[sl].reshape(-1), {**case, "slice": str(sl)})
            eq("some wavepackets: eigenvalues", r["eigenvalue"], e[sl].reshape(-1), {**case, "slice": str(sl)})
            ex("some wavepackets: basis", r["basis"][0].shape == (k, p.n), case, "")
        r = W.get_average_eigenvalues(wl)
        eq("average over the samples", r["data"], e.mean(1), case)
        ex("average over the samples: basis", r["basis"].shape == (2, 2), case, "")
        ex("arguments untouched", np.array_equal(wl["data"], d.ravel()), case, "")

    def fullcase(i, c, case):
        bloch(i, c, case)
        p, q = setup(c, i)
        d, e, wl, ws = packets(c, p, q)
        nl = p.n
        fb = unfurled_basis(p, q)
        shape = tuple(p.shape)
        bl = np.array([[r12(x, None, c["s"]) for x in y] for y in c["bloch"]])
        # the samples, their bases and momenta
        util = np.array([np.unravel_index(l, shape) for l in range(nl)]).T
        signed = np.array([[x if 2 * x < n else x - n for x in row] for row, n in zip(util, shape)])
        sb = W.get_fundamental_sample_basis(ws[0]["basis"])
        wb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * a.n, a.n) for a, b in zip(p, q)))
        ex("sample basis", same_basis(sb, wb), case, "")
        dks = 2 * np.pi * np.linalg.inv(np.array([b.delta_x * n for b, n in zip(q, shape)])).T
        eq("sample frequencies", W.get_wavepacket_fundamental_sample_frequencies(ws[0]["basis"]), dks.T @ signed, case)
        for offs in (None, tuple(signed[:, -1])):
            r = W.get_fundamental_unfurled_sample_basis_momentum(ws[0]["basis"], offs)
            l = 0 if offs is None else nl - 1
            # the states of sample l, in this basis, are its periodic part at fundamental momenta
            fk = stacked_basis_as_fundamental_momentum_basis(q)
            u = convert_vector(d[0, l], q, fk)
            eq("basis of a sample", convert_vector(u, r, fb), bl[0, l], {**case, "offsets": offs})
        # states at each sample
        for l in range(nl):
            for f in (l, tuple(int(x) for x in util[:, l])):
                r = G.get_states_at_bloch_idx(wl, f)
                got = convert_vector(np.asarray(r["data"]).reshape(2, -1), r["basis"][1], fb)
                eq("states of a sample", got, bl[:, l], {**case, "idx": f})
                ex("states of a sample: basis", r["basis"][0].n == 2, case, "")
        r = G.get_bloch_states(wl)
        ex("bloch states: basis", same_basis(r["basis"][1], fb) and r["basis"][0].n == 2 * nl, case, "")
        # the bloch states as a basis
        bb = G.get_bloch_basis(wl)
        flat = bl.reshape(2 * nl, -1)
        s = stable_hash(chk.seed, i)
        coef = np.array([(s * 3 + 5 * k) % 7 - 3 + 1j * ((s + 3 * k * k) % 5 - 2) for k in range(2 * nl)])
        ex("bloch basis: size", bb.n == 2 * nl and bb.fundamental_n == fb.n, case, "")
        eq("bloch basis into momenta", convert_vector(coef, bb, fb), coef @ flat, case)
        two = np.stack([coef, 1j * coef + 1])
        eq("bloch basis into momenta, along an axis", convert_vector(two, bb, fb), two @ flat, case)
        eq("bloch basis into momenta, along the first axis", convert_vector(two.T.copy(), bb, fb, 0), (two @ flat).T, case)
        vec = np.array([(2 * k * k + s) % 9 - 4 + 1j * ((s + 3 * k) % 5 - 2) for k in range(fb.n)])
        eq("momenta into the bloch basis", convert_vector(vec, fb, bb), flat.conj() @ vec, case)
        for l in range(nl):
            for f in (l, tuple(int(x) for x in util[:, l])):
                r = bb.vectors_at_bloch_k(f)
                eq("bloch basis: states of a sample", np.asarray(r["data"]).reshape(2, -1), d[:, l], {**case, "idx": f})
                eq("bloch basis of a sample", convert_vector(coef[:2], bb.basis_at_bloch_k(f), q), coef[:2] @ d[:, l]
                   if q.n == q.fundamental_n else convert_vector(coef[:2] @ d[:, l], q, q), {**case, "idx": f})
        h = G.get_bloch_hamiltonian(wl)
        eq("bloch hamiltonian", h["data"], e.reshape(-1), case)
        ex("bloch hamiltonian: basis", h["basis"][0].n == 2 and same_basis(h["basis"][1], TupleBasis(p, p)), case, "")
        h = G.get_full_bloch_hamiltonian(wl)
        r = convert_diagonal_operator_to_basis(h, TupleBasis(fb, fb))
        eq("hamiltonian of the bloch states", np.asarray(r["data"]).reshape(fb.n, -1),
           np.einsum("k,ki,kj->ij", e.reshape(-1), flat, flat.conj()), case)
        # localized states: the averaged occupation of every momentum, at fractions of the cell
        unf = np.array([r12(x, None, c["s"] * nl) for x in c["unf"]])
        prob = (np.abs(unf) ** 2).mean(0)
        if prob.sum() > 1e-9:
            big = tuple(fb.shape)
            nk = np.array([np.unravel_index(k, big) for k in range(fb.n)]).T
            nk = np.array([[x if 2 * x < n else x - n for x in row] for row, n in zip(nk, big)])
            fr = tuple(np.array([0.0, 0.25 + 0.125 * a]) for a in range(len(shape)))
            r = SU.get_most_localized_state_vectors_from_probability(wl, fr)
            for j in range(2):
                ph = sum(f[j] * n / m for f, n, m in zip(fr, nk, shape))
                want = np.sqrt(prob) * np.exp(-2j * np.pi * ph)
                eq("localized states", np.asarray(r["data"]).reshape(2, -1)[j], want / np.linalg.norm(want), case)
            ex("localized states: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(2), fb)), case, "")

    def conv(i, c, case):
        p, q = setup(c, i)
        s = stable_hash(chk.seed, i)
        u = p if c["u"] == c["p"] else klists(c["u"])
        v = q if c["v"] == c["q"] else states(c["v"], s // 7)
        d, e, wl, ws = packets(c, p, q)
        to = np.array([r12(x, None, c["s"]) for x in c["to"]])
        toe = np.array([r12(x, None, c["se"]) for x in c["toe"]])
        for b, w in enumerate(ws):
            r = WC.convert_wavepacket_to_basis(w, list_basis=u, basis=v)
            eq("converted wavepacket", r["data"], to[b], case)
            ex("converted wavepacket: basis", same_basis(r["basis"], TupleBasis(u, v)), case, "")
        r = WC.convert_wavepacket_with_eigenvalues_to_basis(wl, list_basis=u, basis=v)
        eq("converted wavepackets", np.asarray(r["data"]).reshape(2, -1), to, case)
        eq("converted wavepackets: eigenvalues", np.asarray(r["eigenvalue"]).reshape(2, -1), toe, case)
        ex("converted wavepackets: basis", same_basis(r["basis"], TupleBasis(TupleBasis(FundamentalBasis(2), u), v)), case, "")
        if c["u"] == c["p"]:
            r = WC.convert_wavepacket_to_basis(ws[0], basis=v)
            eq("converted wavepacket, same samples", r["data"], to[0], case)
            r = WC.convert_wavepacket_with_eigenvalues_to_basis(wl, basis=v)
            eq("converted wavepackets, same samples", np.asarray(r["data"]).reshape(2, -1), to, case)
            eq("converted wavepackets, same samples: eigenvalues", np.asarray(r["eigenvalue"]).reshape(2, -1), toe, case)
            ex("converted wavepackets, same samples: basis", same_basis(r["basis"], TupleBasis(TupleBasis(FundamentalBasis(2), p), v)), case, "")
        if c["v"] == c["q"]:
            r = WC.convert_wavepacket_to_basis(ws[1], list_basis=u)
            eq("converted wavepacket, same states", r["data"], to[1], case)
            r = WC.convert_wavepacket_with_eigenvalues_to_basis(wl, list_basis=u)
            eq("converted wavepackets, same states", np.asarray(r["data"]).reshape(2, -1), to, case)
            eq("converted wavepackets, same states: eigenvalues", np.asarray(r["eigenvalue"]).reshape(2, -1), toe, case)
            ex("converted wavepackets, same states: basis", same_basis(r["basis"], TupleBasis(TupleBasis(FundamentalBasis(2), u), q)), case, "")
        if all(b["cls"] == "low" and b["n"] == b["nf"] for b in c["v"]):
            sp = {b["sp"] for b in c["v"]}
            if sp == {"k"}:
                r = WC.convert_wavepacket_to_fundamental_momentum_basis(ws[0], list_basis=u)
                eq("wavepacket at fundamental momenta", r["data"], to[0], case)
                if c["u"] == c["p"]:
                    z = WC.convert_wavepacket_to_fundamental_momentum_basis(ws[0])
                    eq("wavepacket at fundamental momenta", z["data"], to[0], case)
                    ex("wavepacket at fundamental momenta: samples", same_basis(z["basis"][0], p), case, "")
                ex("wavepacket at fundamental momenta: basis", same_basis(r["basis"][1], stacked_basis_as_fundamental_momentum_basis(q)), case, "")
            elif sp == {"x"} and c["u"] == c["p"]:
                r = WC.convert_wavepacket_to_position_basis(ws[0])
                eq("wavepacket at positions", r["data"], to[0], case)
                ex("wavepacket at positions: basis", same_basis(r["basis"][1], stacked_basis_as_fundamental_position_basis(q)), case, "")
        ex("arguments untouched", np.array_equal(wl["data"], d.ravel()) and np.array_equal(wl["eigenvalue"], e.ravel()), case, "")

    def fractions(i, c, case):
        p = klists(c["p"])
        want = (np.array(c["num"]) / np.array(c["den"])).T
        eq("sample fractions", W.get_wavepacket_sample_fractions(p), want, case)

    def generate(i, c, case):
        p, q = klists(c["p"]), states(c["q"])
        n, st, off = c["bands"]
        num, den = np.array(c["num"]), np.array([b["nf"] for b in c["p"]])
        energy = np.array(c["energy"], float)
        want = np.array(c["state"])
        seen = []

        def hamiltonian(f):
            l = next(k for k in range(len(num)) if np.allclose(num[k] / den, f))
            seen.append(l)
            return {"basis": TupleBasis(q, q), "data": np.diag(energy[l]).astype(complex).reshape(-1)}

        bands = [EvenlySpacedBasis(n, st, off)] + ([FundamentalBasis(n)] if st == 1 and off == 0 else [])
        fb = ExplicitBlockFractionBasis((num / den).T)
        for band in bands:
            for nm, fn, lb in (("wavepacket", W.generate_wavepacket, p), ("uneven wavepacket", W.generate_uneven_wavepacket, fb)):
                r = fn(hamiltonian, lb, band)
                x = np.asarray(r["data"]).reshape(n, len(num), q.n)
                en = np.asarray(r["eigenvalue"]).reshape(n, -1)
                eq(f"generated {nm}: energies", en, np.array([[energy[l][want[b][l]] for l in range(len(num))] for b in range(n)]), case)
                eq(f"generated {nm}: states", np.abs(x), np.array([[np.eye(q.n)[want[b][l]] for l in range(len(num))] for b in range(n)]), case)
                ex(f"generated {nm}: basis", r["basis"][0][0].n == n and r["basis"][0][1].n == lb.n and same_basis(r["basis"][1], q), case, "")
        ex("the hamiltonian of every sample is used", set(seen) == set(range(len(num))), case, "")

    def shape(i, c, case):
        p = klists(c["p"])
        q = states([{"cls": "low", "sp": "x", "n": 2, "nf": 2, "step": 1, "off": 0}] * len(c["p"]))
        src = np.array(c["src"])
        d = np.arange(p.n * q.n).reshape(p.n, q.n) * (1 + 2j)
        r = WC.convert_wavepacket_to_shape({"basis": TupleBasis(p, q), "data": d.reshape(-1).copy()}, tuple(b["n"] for b in c["u"]))
        eq("fewer samples", np.asarray(r["data"]).reshape(len(src), q.n), d[src], case)
        ex("fewer samples: one flat vector of data", np.asarray(r["data"]).ndim == 1, case, "")
        ex("fewer samples: basis", same_basis(r["basis"], TupleBasis(klists(c["u"]), q)), case, lambda: repr(r["basis"])[:200])

    def window(i, c, case):
        p, q = setup(c, i)
        d = np.array([(k * k * 3 + k + i) % 11 - 5 + 1j * ((7 * k + i) % 6 - 2) for k in range(p.n * q.n)])
        w = {"basis": TupleBasis(p, q), "data": d}
        fb = stacked_basis_as_fundamental_position_basis(unfurled_basis(p, q))
        kept = np.array(c["kept"])
        for l in (0, p.n - 1):
            st = full(G.get_wavepacket_state_vector(w, l), fb)
            r = G.get_tight_binding_state(w, l, tuple(c["origin"]))
            eq("tight binding state", r["data"], st * kept, {**case, "idx": l})
            ex("tight binding state: basis", same_basis(r["basis"], fb), case, "")
            if tuple(c["origin"]) == (0,) * p.ndim or p.ndim == 1:
                # around the largest value by default, in the cell at the origin
                r = np.asarray(G.get_tight_binding_state(w, l)["data"])
                ex("tight binding state: values of the state", np.all((np.abs(r - st) < 1e-9) | (np.abs(r) < 1e-12)), case, "")
                eq("tight binding state: holds the largest value", np.max(np.abs(r)), np.max(np.abs(st)), case)
                ex("tight binding state: one cell", np.count_nonzero(np.abs(r) > 1e-12) <= q.n, case, "")
        cells = [b["nf"] for b in c["q"]]

        def centred(got, w, l, st, cc):
            """By default the window is around a place where the state is largest."""
            top = np.array(np.unravel_index(np.flatnonzero(np.abs(st) >= np.abs(st).max() * (1 - 1e-9)), fb.shape)).T
            near = {tuple(int((x + n // 2) % n - n // 2) for x, n in zip(t, cells)) for t in top}
            ex("tight binding state: around the largest value", any(np.allclose(got, np.asarray(G.get_tight_binding_state(w, l, o)["data"])) for o in near), cc, lambda: str(near))
        for l in range(p.n):
            centred(np.asarray(G.get_tight_binding_state(w, l)["data"]), w, l, full(G.get_wavepacket_state_vector(w, l), fb), {**case, "idx": l})
        turned = {"basis": w["basis"], "data": -d * np.exp(0.4j)}
        centred(np.asarray(G.get_tight_binding_state(turned)["data"]), turned, 0, full(G.get_wavepacket_state_vector(turned, 0), fb), case)
        other = d[::-1] * 1j
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), p), q), "data": np.concatenate([d, other])}
        for l in {0, p.n // 2, p.n - 1}:
            rs = np.asarray(G.get_tight_binding_states(wl, l)["data"]).reshape(2, -1)
            at_origin = np.asarray(G.get_tight_binding_states(wl, l, tuple(c["origin"]))["data"]).reshape(2, -1)
            for b, dd in enumerate((d, other)):
                wb = {"basis": w["basis"], "data": dd}
                stb = full(G.get_wavepacket_state_vector(wb, l), fb)
                eq("tight binding states", at_origin[b], stb * kept, {**case, "idx": l, "band": b})
                centred(rs[b], wb, l, stb, {**case, "idx": l, "band": b})
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(2), p), q), "data": np.concatenate([d, 2j * d])}
        r = G.get_tight_binding_states(wl, 0, tuple(c["origin"]))
        st = full(G.get_wavepacket_state_vector(w, 0), fb) * kept
        eq("tight binding states", np.asarray(r["data"]).reshape(2, -1), np.stack([st, 2j * st]), case)
        ex("tight binding states: basis", same_basis(r["basis"], TupleBasis(FundamentalBasis(2), fb)), case, "")

    fns = {"bloch": bloch, "full": fullcase, "conv": conv, "fractions": fractions, "generate": generate, "shape": shape, "window": window}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, **{x: c[x] for x in "pquv"}}
        chk.guard(k, case, lambda: fns[k](i, c, case))
        chk.traces += 1
    chk.assumptions += ["samples of the zone are momenta (a transformed list basis), and functions indexing samples directly are given a complete one"]
