"""C06: wrapping, paths, projections, bragg planes (spec/Geometry.tla)."""
from __future__ import annotations

import numpy as np

from vlib import stable_hash

TAU = 2 * np.pi


def rings(chk, tables, frac):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.util import BasisUtil
    from surface_potential_analysis.stacked_basis.util import (
        wrap_index_around_origin,
        wrap_x_point_around_origin,
    )

    ds = np.arange(-11, 13)
    for n, t in tables.items():
        for nd in (1, 2, 3):
            for axis in range(nd):
                shape = [3, 2, 4][:nd]
                shape[axis] = n
                basis = TupleBasis(*(B.FundamentalBasis(s) for s in shape))
                other = [ds * 0 + 7 for _ in shape]
                idx = [*other]
                idx[axis] = ds
                case = {"n": n, "shape": shape, "axis": axis}
                for oi, o in enumerate(range(-3, 6)):
                    org = [1] * nd
                    org[axis] = o
                    org = tuple(org)
                    r = wrap_index_around_origin(basis, tuple(idx), origin=org)
                    chk.eq("wrapped index", r[axis], t[oi], {**case, "origin": org})
                    for b in range(nd):
                        if b != axis:
                            chk.eq("wrapped index, other axes", r[b], tables[shape[b]][4][7 + 11] + 0 * ds, case)
                    r = wrap_index_around_origin(basis, tuple(idx), origin=org, axes=(axis,))
                    chk.eq("wrapped index, one axis", r[axis], t[oi], {**case, "origin": org})
                    for b in range(nd):
                        if b != axis:
                            chk.eq("axes left alone", r[b], idx[b], case)
                    if 0 <= o < n:
                        flat = BasisUtil(basis).get_flat_index(tuple(min(x, s - 1) for x, s in zip(org, shape)))
                        r = wrap_index_around_origin(basis, tuple(idx), origin=flat)
                        chk.eq("wrapped index, flat origin", r[axis], t[oi], {**case, "origin": int(flat)})
                    one = [int(7)] * nd
                    one[axis] = int(ds[3 * oi % 24])
                    r = wrap_index_around_origin(basis, tuple(one), origin=org)
                    chk.eq("wrapped single index", r[axis], t[oi][3 * oi % 24], {**case, "idx": one})
                r = wrap_index_around_origin(basis, tuple(idx))
                chk.eq("wrapped index, default origin", r[axis], t[3], case)
    lat = [np.array([[3.0]]), np.array([[2.0, 0.0], [1.0, 3.0]]), np.array([[0.0, 2.0], [3.0, 1.0]]),
           np.array([[1.0, 1.0, 0.0], [0.0, 1.0, 1.0], [1.0, 0.0, 2.0]])]
    f = np.array(frac)
    rng = np.arange(60)
    for D in lat:
        nd = len(D)
        basis = TupleBasis(*(B.FundamentalPositionBasis(d, 2 + a) for a, d in enumerate(D)))
        for i in range(7):
            oi = [(i + 2 * a) % 7 for a in range(nd)]
            o = np.array([3 * x - 7 for x in oi]) / 12
            p = np.array([np.roll(rng, 7 * a) - 30 for a in range(nd)])
            want = np.array([f[oi[a]][p[a] + 30] for a in range(nd)])
            case = {"lattice": D.tolist(), "origin": o.tolist()}
            got = wrap_x_point_around_origin(basis, D.T @ (p / 12), D.T @ o)
            g = np.linalg.solve(D.T, got) * 12
            # exactly half way, either end is as close
            half = want == (o * 12 - 6)[:, None]
            bad = np.where(half, np.minimum(abs(g - want), abs(g - want - 12)), abs(g - want))
            chk.expect("wrapped points", np.max(bad) < 1e-6, case, lambda: f"off by {np.max(bad)}")
            if i == 0:
                got = wrap_x_point_around_origin(basis, np.tensordot(D.T, (p[:, :58].reshape(nd, 2, 29) + 0.25) / 12, axes=(1, 0)))
                g = np.linalg.solve(D.T, got.reshape(nd, -1)) * 12
                w = np.mod(p[:, :58] + 0.25 + 6, 12) - 6
                chk.expect("wrapped points, default origin", got.shape == (nd, 2, 29) and np.max(abs(g - w)) < 1e-6, case, "")


def grid(chk, c, v):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.util import BasisUtil
    from surface_potential_analysis.stacked_basis import brillouin_zone as Z
    from surface_potential_analysis.stacked_basis import util as U
    from surface_potential_analysis.util.util import calculate_cumulative_distances_along_path

    eq, ex = chk.eq, chk.expect
    D = np.array(c["D"], dtype=float)
    n = tuple(c["n"])
    nd = len(n)
    basis = TupleBasis(*((B.FundamentalPositionBasis if s == "x" else B.FundamentalTransformedPositionBasis)(d, m)
                         for d, m, s in zip(D, n, c["sp"])))
    case = {"D": c["D"], "n": n}
    cof = np.array(c["cof"], dtype=float)
    sc = TAU / c["det"]
    K = lambda d: np.asarray(d) @ cof * sc  # noqa: E731
    for bands in (1, 2):
        b = np.array(c["bragg"][bands - 1])
        eq("bragg point indices", np.array(Z.get_all_brag_point_index(basis, n_bands=bands)), b.T, {**case, "bands": bands})
        eq("bragg points", Z.get_all_brag_point(basis, n_bands=bands), K(b).T, {**case, "bands": bands})
        bb = BasisUtil(Z.get_bragg_point_basis(basis, n_bands=bands))
        eq("bragg point basis", bb.fundamental_stacked_k_points, K(b).T, {**case, "bands": bands})
    eq("default bands", np.array(Z.get_all_brag_point_index(basis)), np.array(c["bragg"][0]).T, case)
    eq("default bands", Z.get_all_brag_point(basis), K(c["bragg"][0]).T, case)
    for g, g2, ks in c["beyond"]:
        d = np.array([k for k, _ in ks])
        want = np.array([x for _, x in ks]) / (2 * np.sqrt(g2)) * abs(sc)
        eq("distance beyond a bragg plane", Z.get_bragg_plane_distance(K(g), K(d).T), want, {**case, "bragg": g})
        if len(ks):
            eq("distance of a point beyond a bragg plane", Z.get_bragg_plane_distance(K(g), K(d[0])), want[0], {**case, "bragg": g})
        eq("folding in a bragg plane", np.array(Z.fold_point_in_bragg_plane(tuple(g), tuple(d.T))), (d - np.array(g)).T,
           {**case, "bragg": g})
    pts = np.array([d for d, _ in c["folds"]])

    def folded(name, fn, shape3=False):
        got = fn(basis, tuple(pts.T.copy()))
        ok = len(got) == nd and all(np.shape(x) == (len(pts),) for x in got)
        ex(name, ok, case, str([np.shape(x) for x in got]))
        if ok:
            g = np.array(got).T
            for (d, allowed), r in zip(c["folds"], g):
                ex(name, [int(x) for x in r] in allowed, {**case, "point": d}, f"folded to {r.tolist()}, specified {allowed}")
        m = len(pts) // 2
        arr = tuple(x[: 2 * m].reshape(2, m) for x in pts.T.copy())
        keep = tuple(a.copy() for a in arr)
        got = fn(basis, arr)
        ex(f"{name} (array)", all(np.array_equal(x.reshape(-1), y[: 2 * m]) for x, y in zip(got, g.T))
           and all(x.shape == (2, m) for x in got), case, "differs from the flat call")
        ex("argument untouched", all(np.array_equal(a, b) for a, b in zip(arr, keep)), case, "modified")
        for j in {v % len(pts), (v // 7) % len(pts), 0}:
            d, allowed = c["folds"][j]
            r = fn(basis, tuple(int(x) for x in d))
            ex(f"{name} (single)", [int(x) for x in r] in allowed, {**case, "point": d}, f"{r} not in {allowed}")

    folded("decremented zone", Z.decrement_brillouin_zone)
    if nd == 3:
        folded("decremented zone 3d", Z.decrement_brillouin_zone_3d)
    # paths
    path = np.array(c["path"]).T
    N = c["N"]
    eq("path steps", U.calculate_distances_along_path(basis, path), np.array(c["diff"]).T, case)
    eq("wrapped path steps", U.calculate_distances_along_path(basis, path, wrap_distances=True), np.array(c["wdiff"]).T, case)
    cum = lambda s, k: np.insert(np.cumsum(np.sqrt(np.array(s, dtype=float)) * k), 0, 0)  # noqa: E731
    eq("distance along a path", U.calculate_cumulative_x_distances_along_path(basis, path), cum(c["x2"], 1 / N), case)
    eq("wrapped distance along a path", U.calculate_cumulative_x_distances_along_path(basis, path, wrap_distances=True),
       cum(c["wx2"], 1 / N), case)
    eq("k distance along a path", U.calculate_cumulative_k_distances_along_path(basis, path), cum(c["k2"], abs(sc)), case)
    eq("wrapped k distance along a path", U.calculate_cumulative_k_distances_along_path(basis, path, wrap_distances=True),
       cum(c["wk2"], abs(sc)), case)
    u = BasisUtil(basis)
    coords = u.x_points_stacked.reshape(nd, *n)
    eq("distance along a path of coordinates", calculate_cumulative_distances_along_path(path, coords), cum(c["x2"], 1 / N), case)
    # projections
    X, KK = u.fundamental_x_points_stacked, u.fundamental_stacked_k_points
    for proj, points, f1, f2, f3, name in (
        (c["xproj"], X, U.project_x_points_along_axes, U.get_fundamental_stacked_x_points_projected_along_axes,
         U.get_x_coordinates_in_axes, "x"),
        (c["kproj"], KK, U.project_k_points_along_axes, U.get_fundamental_stacked_k_points_projected_along_axes,
         U.get_k_coordinates_in_axes, "k")):
        for axes, vecs in proj:
            ax = tuple(a - 1 for a in axes)
            E = np.array([np.array(b) / np.sqrt(s) for b, s in vecs])
            k = {**case, "axes": ax}
            eq(f"{name} projection", f1(points, basis, ax), E @ points, k)
            probe = np.array([[1.0, -2.0], [0.5, 3.0], [2.0, 0.25]])[:nd]
            eq(f"{name} projection of points", f1(probe, basis, ax), E @ probe, k)
            eq(f"{name} grid projection", f2(basis, ax), E @ points, k)
            idx = tuple((v + a) % n[a] for a in range(nd) if a not in ax)
            full = (E @ points).reshape(len(ax), *n)
            # the result runs over the axes in the order asked for
            sl = full[(slice(None), *(slice(None) if a in ax else idx[[b for b in range(nd) if b not in ax].index(a)]
                                      for a in range(nd)))]
            order = sorted(ax)
            want = np.transpose(sl, (0, *(1 + order.index(a) for a in ax)))
            if want.shape[1:] == tuple(n[a] for a in ax):
                eq(f"{name} coordinates in axes", f3(basis, ax, idx), want, k)
                if all(i == 0 for i in idx) or v % 4 == 0:
                    z = full[(slice(None), *(slice(None) if a in ax else 0 for a in range(nd)))]
                    eq(f"{name} coordinates in axes, default index", f3(basis, ax, None),
                       np.transpose(z, (0, *(1 + order.index(a) for a in ax))), k)
    # indices
    d = np.zeros(N, dtype=complex)
    top = v % N
    d[:] = 0.5
    d[(top + 1) % N] = 1
    d[top] = -2j
    full = np.unravel_index(top, n)
    for keep in range(2**nd):
        ax = tuple(a for a in range(nd) if keep >> a & 1)
        ex("index of the maximum", tuple(int(i) for i in U.get_max_idx(basis, d, ax))
           == tuple(int(full[a]) for a in range(nd) if a not in ax), {**case, "axes": ax, "at": top}, "")
    if nd > 1:
        i = tuple(range(5, 5 + nd))
        ex("mirrored index", tuple(U.get_x01_mirrored_index(i)) == (i[1], i[0], *i[2:]), case, "")
        m = U.get_x01_mirrored_index(tuple(path))
        ex("mirrored indices", np.array_equal(m[0], path[1]) and np.array_equal(m[1], path[0]), case, "")


def run(chk):
    cs = chk.cases("Geometry", {"Seed": chk.seed, "Big": chk.thorough}, init="GInit", next_="GNext",
                   invariants=("WrapNearest", "FoldShrinks", "FirstZoneStays", "WrapShorter", "Orthogonal", "GEmit"), workers=8)
    tables = {c["n"]: np.array(c["table"]) for c in cs if c["kind"] == "ring"}
    frac = next(c["frac"] for c in cs if c["kind"] == "ring")
    chk.sample({"n": 3, "table": tables[3].tolist()})
    chk.guard("wrapping", {}, lambda: rings(chk, tables, frac))
    chk.traces += len(tables)
    for i, c in enumerate(cs):
        if c["kind"] == "grid":
            chk.guard("geometry", {k: c[k] for k in ("D", "n")}, lambda: grid(chk, c, stable_hash(chk.seed, i)))
            chk.traces += 1
