"""C18: potentials: files, functions, grids, cutoffs, sites (spec/Potentials.tla)."""
from __future__ import annotations

import json
import tempfile
from pathlib import Path

import numpy as np
from bases import delta_for, make_leaf, r12, same_basis

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.potential import _comparison_points as S
    from surface_potential_analysis.potential import conversion as C
    from surface_potential_analysis.potential import point_potential as PP
    from surface_potential_analysis.potential import potential as P
    from surface_potential_analysis.potential.plot import get_minimum_path
    from surface_potential_analysis.potential.plot_point_potential import get_point_potential_xy_locations

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Potentials", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 36 if chk.thorough else 24},
                   init="InitP", invariants=("OnGrid", "NoForce", "Ends", "Lowest", "EmitP"), workers=8)
    chk.sample(cs[0])

    def stack(ls, s):
        return TupleBasis(*(make_leaf(b, stable_hash(s, a), a, len(ls), True) for a, b in enumerate(ls)))

    def function(i, c, case):
        b = stack(c["p"], stable_hash(chk.seed, i))
        nd = b.ndim
        data = r12(c["data"])
        pot = {"basis": b, "data": data.copy()}
        fb = TupleBasis(*(B.FundamentalTransformedPositionBasis(l.delta_x, l.fundamental_n) for l in b))
        xb = TupleBasis(*(B.FundamentalPositionBasis(l.delta_x, l.fundamental_n) for l in b))
        vk = r12(c["vk"]) / np.sqrt(c["sk"])
        r = C.convert_potential_to_basis(pot, fb)
        eq("converted potential", r["data"], vk, case)
        ex("converted potential: basis", same_basis(r["basis"], fb), case, "")
        r = C.convert_potential_to_position_basis(pot)
        eq("potential at positions", r["data"], r12(c["vx"]) / np.sqrt(c["sx"]), case)
        ex("potential at positions: basis", same_basis(r["basis"], xb), case, "")
        f = C.get_continuous_potential(pot)
        at = r12([c["at"]])[0] / np.sqrt(c["sk"] * c["nk"])
        dx = np.array([l.delta_x for l in b])
        pos = np.array(c["x"], float) / 12 @ dx
        zero = vk.sum() / np.sqrt(c["nk"])
        eq("function of position", f(pos), at, case)
        eq("function of position", f(pos[:, np.newaxis]), [at], case)
        eq("function of position", f(tuple(pos)), at, case)
        eq("function of position", f(np.array([pos, pos * 0]).T.reshape(nd, 2)), [at, zero], case)
        eq("function of position", f(np.array([[pos, pos * 0, pos + dx[0]], [pos * 0, pos, pos - dx[-1]]]).transpose(2, 0, 1)), [[at, zero, at], [zero, at, at]], case)
        ds = np.array([r12(d) for d in c["deriv"]]) / np.sqrt(c["sk"])
        recip = 2 * np.pi * np.linalg.inv(dx).T   # row a: reciprocal vector of lattice vector a
        for axis in range(nd):
            want = sum(recip[a, axis] * ds[a] for a in range(nd))
            fns = [lambda: C.get_potential_derivative(pot, axis=axis)]
            if axis == 0:
                fns.append(lambda: C.get_potential_derivative(pot))
            for fn in fns:
                r = fn()
                eq("derivative", r["data"], want, {**case, "axis": axis})
                ex("derivative: basis", same_basis(r["basis"], fb), case, "")
        ex("arguments untouched", np.array_equal(pot["data"], data) and pot["basis"] is b, case, "")

    def uneven_basis(sh, h, z):
        d = np.array([delta_for(a, 2) for a in range(2)]) * (1 + h % 3)
        return TupleBasis(B.FundamentalPositionBasis(d[0], sh[0]), B.FundamentalPositionBasis(d[1], sh[1]), P.UnevenPotential3dZBasis(np.array(z, float))), d

    def even(i, c, case):
        h = stable_hash(chk.seed, i)
        b, d = uneven_basis(c["p"], h, c["u"])
        data = np.array(c["data"], float)
        pot = {"basis": b, "data": data.reshape(-1).copy()}
        want = np.real(r12(np.array(c["even"]).reshape(-1, 4))) / c["den"]
        for pt in (pot, {"basis": b, "data": data.copy()}, {"basis": b, "data": data.reshape(-1).astype(np.complex128)} if h % 2 else pot):
            if np.iscomplexobj(pt["data"]):
                continue
            r = P.interpolate_uneven_potential(pt, tuple(c["q"]))
            eq("even grid", r["data"], want, case, tol=1e-8)
            rb = r["basis"]
            ex("even grid: basis", tuple(rb.shape) == tuple(c["q"]) and np.allclose(rb[0].delta_x, [*d[0], 0]) and np.allclose(rb[1].delta_x, [*d[1], 0])
               and np.allclose(rb[2].delta_x, [0, 0, c["u"][-1] - c["u"][0]]), case, str([x.delta_x for x in rb]))
        r = P.mock_even_potential(pot)
        eq("same points on an even grid", r["data"], data.reshape(-1), case)
        ex("same points on an even grid: basis", tuple(r["basis"].shape) == data.shape and np.allclose(r["basis"][0].delta_x, [*d[0], 0])
           and np.allclose(r["basis"][1].delta_x, [*d[1], 0]) and np.allclose(r["basis"][2].delta_x, [0, 0, 1]), case, "")
        ex("arguments untouched", np.array_equal(pot["data"], data.reshape(-1)), case, "")
        # stored and read back
        with tempfile.TemporaryDirectory() as t:
            p = Path(t) / "a.npy"
            np.save(p, pot)
            r = P.load_uneven_potential(p)
            eq("stored uneven potential", r["data"], pot["data"], case)
            ex("stored uneven potential: basis", np.array_equal(r["basis"][2].z_points, b[2].z_points) and tuple(r["basis"].shape) == data.shape and np.allclose(r["basis"][1].delta_x, d[1]), case, "")
            p = Path(t) / "a.json"
            p.write_text(json.dumps({"points": data.tolist(), "delta_x0": list(d[0]), "delta_x1": list(d[1]), "z_points": c["u"]}))
            r = P.load_uneven_potential_json(p)
            eq("uneven potential from a file", np.ravel(r["data"]), pot["data"], case)
            ex("uneven potential from a file: basis", np.array_equal(r["basis"][2].z_points, b[2].z_points) and tuple(r["basis"].shape) == data.shape
               and np.allclose(r["basis"][0].delta_x, d[0]) and np.allclose(r["basis"][1].delta_x, d[1]), case, "")
            eq("even grid from a file", P.interpolate_uneven_potential(r, tuple(c["q"]))["data"], want, case, tol=1e-8)
            eq("same points on an even grid", P.mock_even_potential(r)["data"], data.reshape(-1), case)
            d3 = np.array([[*d[0], 0], [*d[1], 0.5], [0, 0, 2.0]])
            p.write_text(json.dumps({"points": data.tolist(), "delta_x0": list(d3[0]), "delta_x1": list(d3[1]), "delta_x2": list(d3[2])}))
            r = P.load_potential_grid_json(p)
            eq("potential from a file", np.ravel(r["data"]), data.reshape(-1), case)
            ex("potential from a file: basis", tuple(r["basis"].shape) == data.shape and all(np.allclose(r["basis"][a].delta_x, d3[a]) for a in range(3)), case, "")
            r2 = C.convert_potential_to_position_basis(r)
            eq("potential from a file, at positions", r2["data"], data.reshape(-1), case)
            eq("potential from a file, as a function", C.get_continuous_potential(r)(np.zeros(3)), data[0, 0, 0], case)
            p = Path(t) / "b.npy"
            np.save(p, r)
            r3 = P.load_potential(p)
            eq("stored potential", r3["data"], r["data"], case)
            ex("stored potential: basis", same_basis(r3["basis"], r["basis"]), case, "")

    def cut(i, c, case):
        cc, n, o = (float(v) for v in c["p"])
        n = int(n)
        x = np.array(c["x"], float)
        unit = (1.0, 1e-18)[i % 2]
        b = TupleBasis(B.FundamentalPositionBasis(np.array([1.0]), len(x)))
        keep = (cc * np.sign(np.expm1(x)) * np.abs(np.expm1(x)) ** (1 / n) - o) * unit
        lost = (cc * np.sign(x) * np.abs(x) ** (1 / n) - o) * unit
        pot = {"basis": b, "data": keep.copy()}
        kw = {"cutoff": cc * unit, "offset": o * unit}
        tol = 1e-9 * unit * (1 + np.max(np.abs(keep / unit)))
        for k in (kw, {**kw, "n": n}):
            if n > 1 and "n" not in k:
                continue
            r = P.truncate_potential(pot, **k)
            eq("cut potential", r["data"] / unit, lost / unit, case)
            ex("cut potential: basis", r["basis"] is b or same_basis(r["basis"], b), case, "")
            r = P.undo_truncate_potential({"basis": b, "data": lost.copy()}, **k)
            eq("potential before the cut", r["data"] / unit, keep / unit, case, tol=tol / unit)
            ex("potential before the cut: basis", same_basis(r["basis"], b), case, "")
        if n == 1 and np.all(x >= 0):
            d = {"basis": b, "data": 2e-17 * np.expm1(x) - 2e-18}
            r = P.truncate_potential(d)
            eq("cut potential: usual scales", r["data"] / 1e-18, (2e-17 * x - 2e-18) / 1e-18, case)
            eq("potential before the cut: usual scales", P.undo_truncate_potential(r)["data"] / 1e-18, d["data"] / 1e-18, case)
        ex("arguments untouched", np.array_equal(pot["data"], keep), case, "")

    def norm(i, c, case):
        b = TupleBasis(*(B.FundamentalPositionBasis(delta_for(a, len(c["p"])), n) for a, n in enumerate(c["p"])))
        data = np.array(c["data"], float)
        pot = {"basis": b, "data": data.copy()}
        r = P.normalize_potential(pot)
        eq("relative to the lowest", r["data"], c["norm"], case)
        ex("relative to the lowest: basis", same_basis(r["basis"], b), case, "")
        ex("arguments untouched", np.array_equal(pot["data"], data), case, "")

    def sites(i, c, case):
        off = tuple(c["x"])
        for name, fn, names in (("s111", S.get_111_comparison_points_x2, ("top", "bridge", "fcc", "hcp")), ("s100", S.get_100_comparison_points_x2, ("hollow", "bridge", "top"))):
            r = fn(tuple(c["p"]), off)
            ex("sites", {k.split()[0].lower(): tuple(int(y) for y in v) for k, v in r.items()} == {k: tuple(c[name][k]) for k in names}, case, str(r))
            if not any(off):
                ex("sites", fn(tuple(c["p"])) == r, case, "")

    def path(i, c, case):
        nd, axis = len(c["p"]), c["x"] - 1
        b = TupleBasis(*(B.FundamentalPositionBasis(delta_for(a, nd), n) for a, n in enumerate(c["p"])))
        data = np.array(c["data"], float)
        u = np.array(c["u"]).reshape(nd - 1, -1)
        for pot in ({"basis": b, "data": data.copy()}, {"basis": b, "data": data.astype(np.complex128)}):
            for ax in (axis, axis - nd):
                r = get_minimum_path(pot, u.copy(), ax)
                ex("lowest path", np.array_equal(r, c["path"]), {**case, "axis": ax}, str(r))
            if axis == 0:
                ex("lowest path", np.array_equal(get_minimum_path(pot, u), c["path"]), case, "")
        # the same potential in another basis (energies made distinct so that rounding cannot choose)
        sh = tuple(c["p"])
        d2 = data.reshape(sh) + 1e-3 * np.arange(sh[axis]).reshape([-1 if a == axis else 1 for a in range(nd)])
        kb = TupleBasis(*(B.FundamentalTransformedPositionBasis(l.delta_x, l.n) for l in b))
        other = C.convert_potential_to_basis({"basis": b, "data": d2.reshape(-1)}, kb)
        ex("lowest path: any basis", np.array_equal(get_minimum_path(other, u, axis), c["path"]), case, "")

    def points(i, c, case):
        order = np.argsort([stable_hash(i, a) for a in range(8)])
        xs = (np.array(c["p"] * 2, float) * 0.5 - 0.25)[order]
        ys = (np.array(c["u"] * 2, float) * 3 + 1)[order]
        zs = np.array([0.0] * 4 + [1.0] * 4)[order]
        e = np.arange(8.0)
        pot = {"x_points": xs, "y_points": ys, "z_points": zs, "points": e}
        want = sorted((x * 0.5 - 0.25, y * 3 + 1) for x, y in c["known"])
        with tempfile.TemporaryDirectory() as t:
            f = Path(t) / "p.json"
            f.write_text(json.dumps({k: list(v) for k, v in pot.items()}))
            r = PP.load_point_potential_json(f)
            for k in pot:
                eq("points from a file", r[k], pot[k], case)
            for q in (pot, r):
                g = np.asarray(get_point_potential_xy_locations(q))
                ex("known positions", g.shape == (2, c["n"]) and np.allclose(np.array(sorted(map(tuple, g.T))), want), case, str(g))

    kinds = {"fn": function, "even": even, "cut": cut, "norm": norm, "sites": sites, "path": path, "points": points}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, "p": [b["n"] if isinstance(b, dict) else b for b in c["p"]], "q": c["q"], "x": c["x"], "u": c["u"], "i": i}
        if k == "fn":
            case["basis"] = [(b["sp"], b["cls"], b["n"], b["nf"], b["off"]) for b in c["p"]]
        chk.guard(k, case, lambda: kinds[k](i, c, case))
        chk.traces += 1
    chk.assumptions += [
        "heights of an even grid are those of numpy's linspace from the first to the last given height, both included, and the basis has the distance between them as its length: the code does not state more (the spacing of the basis is length / n)",
        "spline interpolation is judged on polynomials of degree 3, for which it is exact",
        "exponents of the cutoff other than 1 apply to potentials above minus the offset",
    ]
