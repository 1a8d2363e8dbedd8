"""C03: typed containers transform covariantly (spec/Containers.tla, spec/Dressed.tla, spec/ContainersLarge.tla)."""
from __future__ import annotations

import numpy as np
from bases import Seen, data, has_length, make_leaf, make_stack, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import conversion as KC
    from surface_potential_analysis.operator import conversion as OC
    from surface_potential_analysis.overlap import conversion as OV
    from surface_potential_analysis.potential import conversion as PC
    from surface_potential_analysis.probability_vector import conversion as PV
    from surface_potential_analysis.state_vector import conversion as SC
    from surface_potential_analysis.wavepacket import conversion as WC

    lab = FundamentalBasis(3)
    cs = chk.cases("Containers", {"Seed": chk.seed, "Per": 1 if chk.thorough else 3},
                   invariants=("TraceInvariant", "Covariant", "Pairing", "Emit"), workers=8)
    chk.sample(cs[0])
    for i, c in enumerate(cs):
        k = c["kind"]
        s = stable_hash(chk.seed, i)
        case = {"container": k, "from": c["p"], "to": c["q"], "dual/list from": c["p2"], "dual/list to": c["q2"]}
        ln = has_length(c["p"]) and has_length(c["q"])
        nest = s % 5 == 0
        p = make_stack(c["p"], s, length=ln, nested=nest)
        q = make_stack(c["q"], s // 3, length=ln, nested=nest)
        p2 = p if c["p2"] == c["p"] else make_stack(c["p2"], s // 5)
        q2 = q if c["q2"] == c["q"] else make_stack(c["q2"], s // 7)
        raw = r12(c["raw"], c["rawshape"])
        out = r12(c["out"], c["outshape"], c["scale"])
        flat = raw.reshape(-1) if s % 3 else raw
        keep = np.array(flat)

        def one(fn, basis_in, target, want_basis, name, eig=None, out=out, flat=flat, case=case):
            obj = {"basis": basis_in, "data": flat}
            if eig is not None:
                obj["eigenvalue"] = eig
            r = fn(obj, target)
            chk.expect(f"{name}: basis of the result", same_basis(r["basis"], want_basis), case, repr(r["basis"])[:200])
            chk.eq(f"{name}: data", np.asarray(r["data"]).reshape(-1), out.reshape(-1), case)
            chk.expect(f"{name}: argument untouched", np.array_equal(obj["data"], keep), case, "modified")
            return r

        def body(k=k, c=c, p=p, q=q, p2=p2, q2=q2, case=case, out=out, one=one, nest=nest, ln=ln, flat=flat):
            eig = np.array([1.5, -2.0, 0.25])
            if k == "state":
                one(SC.convert_state_vector_to_basis, p, q, q, k)
            elif k == "dual":
                one(SC.convert_state_dual_vector_to_basis, p, q, q, k)
            elif k == "state_list":
                one(SC.convert_state_vector_list_to_basis, TupleBasis(lab, p), q, TupleBasis(lab, q), k)
            elif k == "probability":
                one(PV.convert_probability_vector_to_basis, p, q, q, k)
            elif k == "probability_list":
                one(PV.convert_probability_vector_list_to_basis, TupleBasis(lab, p), q, TupleBasis(lab, q), k)
            elif k == "potential":
                one(PC.convert_potential_to_basis, p, q, q, k)
            elif k == "isotropic":
                one(KC.convert_isotropic_kernel_to_basis, p, q, q, k)
            elif k == "overlap":
                one(OV.convert_overlap_to_basis, TupleBasis(p, lab), q, TupleBasis(q, lab), k)
            elif k in ("operator", "diagonal_operator"):
                fn = OC.convert_operator_to_basis if k == "operator" else OC.convert_diagonal_operator_to_basis
                one(fn, TupleBasis(p, p2), TupleBasis(q, q2), TupleBasis(q, q2), k)
            elif k in ("operator_list", "diagonal_operator_list", "noise_list", "diagonal_noise_list"):
                fn = {"operator_list": OC.convert_operator_list_to_basis,
                      "diagonal_operator_list": OC.convert_diagonal_operator_list_to_basis,
                      "noise_list": KC.convert_noise_operator_list_to_basis,
                      "diagonal_noise_list": KC.convert_diagonal_noise_operator_list_to_basis}[k]
                r = one(fn, TupleBasis(lab, TupleBasis(p, p2)), TupleBasis(q, q2),
                        TupleBasis(lab, TupleBasis(q, q2)), k, eig if "noise" in k else None)
                if "noise" in k:
                    chk.expect(f"{k}: eigenvalues kept", np.array_equal(r["eigenvalue"], eig), case, "")
            elif k == "wavepacket":
                obj = {"basis": TupleBasis(p2, p), "data": flat}
                r = WC.convert_wavepacket_to_basis(obj, list_basis=q2, basis=q)
                chk.eq("wavepacket: data", r["data"], out.reshape(-1), case)
                chk.expect("wavepacket: basis of the result", same_basis(r["basis"], TupleBasis(q2, q)), case, "")
            elif k == "wavepacket_eig":
                e = r12(c["eig"])
                obj = {"basis": TupleBasis(TupleBasis(lab, p2), p), "data": flat, "eigenvalue": e}
                r = WC.convert_wavepacket_with_eigenvalues_to_basis(obj, list_basis=q2, basis=q)
                chk.eq("wavepacket with eigenvalues: data", np.asarray(r["data"]).reshape(-1), out.reshape(-1), case)
                chk.eq("wavepacket with eigenvalues: eigenvalues", np.asarray(r["eigenvalue"]).reshape(-1),
                       r12(c["eigout"], None, c["eigscale"]), case)
                chk.expect("wavepacket with eigenvalues: basis of the result",
                           same_basis(r["basis"], TupleBasis(TupleBasis(lab, q2), q)), case, "")
            # the fixed-target conversions, when this target is the fundamental one
            sp = {b["sp"] for b in c["q"]}
            full = all(b["n"] == b["nf"] and b["cls"] == "low" for b in c["q"])
            if full and len(sp) == 1 and ln and not nest:
                fns = {
                    ("state", "x"): SC.convert_state_vector_to_position_basis,
                    ("state", "k"): SC.convert_state_vector_to_momentum_basis,
                    ("dual", "x"): SC.convert_state_dual_vector_to_position_basis,
                    ("dual", "k"): SC.convert_state_dual_vector_to_momentum_basis,
                    ("probability", "x"): PV.convert_probability_vector_to_position_basis,
                    ("probability", "k"): PV.convert_probability_vector_to_momentum_basis,
                    ("potential", "x"): PC.convert_potential_to_position_basis,
                    ("overlap", "x"): OV.convert_overlap_to_position_basis,
                    ("overlap", "k"): OV.convert_overlap_to_momentum_basis,
                }
                fn = fns.get((k, *sp))
                if fn is not None:
                    basis = TupleBasis(p, lab) if k == "overlap" else p
                    want = TupleBasis(q, lab) if k == "overlap" else q
                    one(lambda o, _t: fn(o), basis, None, want, f"{k} to fundamental {sp}")
                if k == "wavepacket":
                    obj = {"basis": TupleBasis(p2, p), "data": flat}
                    if c["q2"] == c["p2"] or "k" in sp:
                        if "x" in sp:
                            r = WC.convert_wavepacket_to_position_basis(obj)
                        elif c["q2"] == c["p2"]:
                            r = WC.convert_wavepacket_to_fundamental_momentum_basis(obj)
                        else:
                            r = WC.convert_wavepacket_to_fundamental_momentum_basis(obj, list_basis=q2)
                        chk.eq(f"wavepacket to fundamental {sp}", r["data"], out.reshape(-1), case)

        chk.guard(f"{k}: conversion", case, body)
        chk.traces += 1
    dressed(chk)
    large(chk)


def large(chk):
    """Containers over large bases (spec/ContainersLarge.tla)."""
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import conversion as KC
    from surface_potential_analysis.operator import conversion as OC
    from surface_potential_analysis.overlap import conversion as OV
    from surface_potential_analysis.potential import conversion as PC
    from surface_potential_analysis.probability_vector import conversion as PV
    from surface_potential_analysis.state_vector import conversion as SC
    from surface_potential_analysis.wavepacket import conversion as WC

    fns = {"state": SC.convert_state_vector_to_basis, "dual": SC.convert_state_dual_vector_to_basis,
           "probability": PV.convert_probability_vector_to_basis, "potential": PC.convert_potential_to_basis,
           "isotropic": KC.convert_isotropic_kernel_to_basis,
           "state_list": SC.convert_state_vector_list_to_basis,
           "probability_list": PV.convert_probability_vector_list_to_basis,
           "overlap": OV.convert_overlap_to_basis,
           "operator": OC.convert_operator_to_basis, "diagonal_operator": OC.convert_diagonal_operator_to_basis,
           "operator_list": OC.convert_operator_list_to_basis,
           "diagonal_operator_list": OC.convert_diagonal_operator_list_to_basis,
           "noise_list": KC.convert_noise_operator_list_to_basis,
           "diagonal_noise_list": KC.convert_diagonal_noise_operator_list_to_basis}
    cs = chk.cases("ContainersLarge", {"Seed": chk.seed, "Count": 700 if chk.thorough else 130},
                   init="InitC", next_="NextC", invariants=("Same", "Adjoint", "Distinct", "EmitC"), workers=8)
    for i, c in enumerate(cs):
        k, s = c["kind"], stable_hash(chk.seed, "large", i)
        case = {"container": k, "from": c["p"], "to": c["q"], "list from": c["w1"], "list to": c["w2"]}

        def body(c=c, k=k, s=s, case=case):
            p, q = make_stack(c["p"], s, nested=s % 5 == 0), make_stack(c["q"], s // 3, nested=s % 5 == 0)
            seen, ws = Seen(c["p"], c["axes"]), Seen(c["w1"], c["waxes"])
            nlab = 2 + s % 2 if "operator" in k or "noise" in k else 2 + s % 8
            lab = FundamentalBasis(nlab)
            # a tensor on the columns looked at, one leg at a time
            shape = [nlab if g == "-" else len(ws.at) if g == "w" else len(seen.at) for g in c["legs"]]
            diag = k.startswith("diagonal")
            raw = data(shape[:-1] if diag else shape, s)
            t = raw
            if diag:
                t = np.zeros(shape, complex)
                t[..., np.arange(shape[-1]), np.arange(shape[-1])] = raw
            given = raw
            for a, g in enumerate(c["legs"]):
                if g == "-":
                    continue
                z = ws if g == "w" else seen
                t = np.moveaxis(z.image(np.moveaxis(t, a, 0), dual=g == "d"), 0, a)
                if a < given.ndim:
                    given = np.moveaxis(z.array(np.moveaxis(given, a, 0)), 0, a)
            flat = given.reshape(-1) if s % 2 else given
            obj = {"basis": p, "data": flat}
            target = q
            w1, w2 = make_leaf(c["w1"][0], s // 11), make_leaf(c["w2"][0], s // 13)
            if k.startswith("wavepacket"):
                obj["basis"], want = TupleBasis(TupleBasis(w1), p), TupleBasis(TupleBasis(w2), q)
                if k == "wavepacket":
                    r = WC.convert_wavepacket_to_basis(obj, list_basis=TupleBasis(w2), basis=q)
                else:
                    e = data((nlab, len(ws.at)), s + 1)
                    obj = {"basis": TupleBasis(TupleBasis(lab, TupleBasis(w1)), p), "data": flat,
                           "eigenvalue": ws.array(e.T).T.reshape(-1)}
                    want = TupleBasis(TupleBasis(lab, TupleBasis(w2)), q)
                    r = WC.convert_wavepacket_with_eigenvalues_to_basis(obj, list_basis=TupleBasis(w2), basis=q)
                    chk.eq(f"large {k}: eigenvalues", np.ravel(r["eigenvalue"]), ws.image(e.T).T.ravel(), case)
            else:
                want = q
                if k in ("state_list", "probability_list"):
                    obj["basis"], want = TupleBasis(lab, p), TupleBasis(lab, q)
                elif k == "overlap":
                    obj["basis"], want = TupleBasis(p, lab), TupleBasis(q, lab)
                elif k.endswith("list"):
                    obj["basis"], target = TupleBasis(lab, TupleBasis(p, p)), TupleBasis(q, q)
                    want = TupleBasis(lab, target)
                    if "noise" in k:
                        obj["eigenvalue"] = data((nlab,), s, "real")
                elif "operator" in k:
                    obj["basis"], want = TupleBasis(p, p), TupleBasis(q, q)
                    target = want
                r = fns[k](obj, target)
                if "noise" in k:
                    chk.eq(f"large {k}: eigenvalues kept", r["eigenvalue"], data((nlab,), s, "real"), case)
            chk.expect(f"large {k}: basis of the result", same_basis(r["basis"], want), case, repr(r["basis"])[:200])
            chk.eq(f"large {k}: data", np.ravel(r["data"]), t.ravel(), case)

        chk.guard(f"large {k}: conversion", case, body)
        chk.traces += 1


def dressed(chk):
    """Containers with legs in explicit bases (spec/Dressed.tla, spec/ContainersLarge.tla)."""
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.explicit_basis import ExplicitBasis, ExplicitStackedBasisWithLength
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.kernel import conversion as KC
    from surface_potential_analysis.operator import conversion as OC
    from surface_potential_analysis.overlap import conversion as OV
    from surface_potential_analysis.potential import conversion as PC
    from surface_potential_analysis.probability_vector import conversion as PV
    from surface_potential_analysis.state_vector import conversion as SC
    from surface_potential_analysis.wavepacket import conversion as WC

    one = {"state": SC.convert_state_vector_to_basis, "dual": SC.convert_state_dual_vector_to_basis,
           "probability": PV.convert_probability_vector_to_basis, "potential": PC.convert_potential_to_basis,
           "isotropic": KC.convert_isotropic_kernel_to_basis}
    many = {"state_list": SC.convert_state_vector_list_to_basis,
            "probability_list": PV.convert_probability_vector_list_to_basis,
            "wavepacket": lambda o, b: WC.convert_wavepacket_to_basis(o, basis=b)}
    two = {"operator": OC.convert_operator_to_basis, "diagonal_operator": OC.convert_diagonal_operator_to_basis}
    twos = {"operator_list": OC.convert_operator_list_to_basis,
            "diagonal_operator_list": OC.convert_diagonal_operator_list_to_basis,
            "noise_list": KC.convert_noise_operator_list_to_basis,
            "diagonal_noise_list": KC.convert_diagonal_noise_operator_list_to_basis}
    lab = FundamentalBasis(2)
    cs = chk.cases("Dressed", {"Seed": chk.seed, "Per": 2 if chk.thorough else 13},
                   invariants=("Pairing", "Isometric", "Emit"), workers=8)
    chk.sample(cs[0])
    for i, c in enumerate(cs):
        k = c["kind"]
        s = stable_hash(chk.seed, i)
        case = {"dressed": k, "from": c["p"], "to": c["q"], "explicit": c["mode"], "v": c["vp"]}
        p, q = make_stack(c["p"], s, length=True), make_stack(c["q"], s // 3, length=True)
        cls = ExplicitStackedBasisWithLength if s % 2 or k == "wavepacket" else ExplicitBasis

        def dress(v, b, cls=cls):
            v = r12(np.asarray(v).reshape(-1, 4), (len(v), len(v[0])))
            return cls({"basis": TupleBasis(FundamentalBasis(len(v)), b), "data": v.reshape(-1)})

        src = p if c["mode"] == "to" else dress(c["vp"], p)
        dst = q if c["mode"] == "from" else src if c["mode"] == "flip" else dress(c["vq"], q)
        raw = r12(c["raw"]).reshape(-1)
        keep = raw.copy()
        out = r12(c["out"], c["outshape"], c["scale"]).reshape(-1)

        def body(k=k, case=case, src=src, dst=dst, raw=raw, keep=keep, out=out):
            obj = {"basis": src, "data": raw}
            if k in one:
                r, want = one[k](obj, dst), dst
            elif k in many:
                r, want = many[k]({"basis": TupleBasis(lab, src), "data": raw}, dst), TupleBasis(lab, dst)
            elif k == "overlap":
                r, want = OV.convert_overlap_to_basis({"basis": TupleBasis(src, lab), "data": raw}, dst), TupleBasis(dst, lab)
            elif k in two:
                want = TupleBasis(dst, dst)
                r = two[k]({"basis": TupleBasis(src, src), "data": raw}, want)
            else:
                t = TupleBasis(dst, dst)
                want = TupleBasis(lab, t)
                r = twos[k]({"basis": TupleBasis(lab, TupleBasis(src, src)), "data": raw,
                             "eigenvalue": np.array([2.0, -1.0])}, t)
                if "noise" in k:
                    chk.eq(f"dressed {k}: eigenvalues kept", r["eigenvalue"], np.array([2.0, -1.0]), case)
            chk.eq(f"dressed {k}: data", np.asarray(r["data"]).reshape(-1), out, case)
            chk.expect(f"dressed {k}: basis of the result",
                       r["basis"].n == want.n and r["basis"].fundamental_n == want.fundamental_n, case, "")
            chk.expect(f"dressed {k}: argument untouched", np.array_equal(raw, keep), case, "modified")

        chk.guard(f"dressed {k}: conversion", case, body)
        chk.traces += 1
