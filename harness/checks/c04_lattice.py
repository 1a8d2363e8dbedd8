"""C04: grids, reciprocal lattices, index order, sampling coordinates
(spec/Lattice.tla, spec/TimeGrid.tla)."""
from __future__ import annotations

import numpy as np

from vlib import stable_hash

TAU = 2 * np.pi


def axes_for(c, v):
    from surface_potential_analysis.basis import basis as B

    out = []
    for a, (n, nf, sp) in enumerate(zip(c["n"], c["nf"], c["sp"])):
        d = np.array(c["D"][a], dtype=float)
        if sp == "x":
            out.append(B.FundamentalPositionBasis(d, n) if n == nf and (v + a) % 3 else
                       B.TruncatedPositionBasis(d, n, nf))
        else:
            out.append(B.FundamentalTransformedPositionBasis(d, n) if n == nf and (v + a) % 3 else
                       B.TransformedPositionBasis(d, n, nf))
    return out


def ints(x):
    return np.asarray(x, dtype=int)


def lattice(chk, c, v):
    from surface_potential_analysis.basis.basis import (
        FundamentalBasis,
        FundamentalPositionBasis,
        FundamentalTransformedBasis,
        FundamentalTransformedPositionBasis,
    )
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.util import BasisUtil
    from surface_potential_analysis.stacked_basis import build as SB
    from surface_potential_analysis.stacked_basis import conversion as ST
    from surface_potential_analysis.basis import conversion as BC
    from surface_potential_analysis.stacked_basis.util import get_single_point_basis

    case = {k: c[k] for k in ("D", "n", "nf", "sp")}
    axes = axes_for(c, v)
    basis = TupleBasis(*axes)
    u = BasisUtil(basis)
    nd = len(axes)
    D = np.array(c["D"], dtype=float)
    kscale = TAU / c["det"]
    n, nf = tuple(c["n"]), tuple(c["nf"])

    eq, ex = chk.eq, chk.expect
    ex("shape", tuple(u.shape) == n and tuple(basis.shape) == n, case, str(u.shape))
    ex("fundamental shape", tuple(u.fundamental_shape) == nf, case, str(u.fundamental_shape))
    ex("sizes", (u.n, u.fundamental_n, basis.n, basis.fundamental_n)
       == (np.prod(n), np.prod(nf), np.prod(n), np.prod(nf)), case, "")
    ex("number of axes", u.ndim == nd and basis.ndim == nd, case, str(u.ndim))
    eq("lattice vectors", u.delta_x_stacked, D, case)
    eq("fundamental lattice vectors", u.fundamental_delta_x_stacked, D, case)
    eq("grid spacing", u.dx_stacked, D / np.array(n)[:, None], case)
    eq("fundamental grid spacing", u.fundamental_dx_stacked, D / np.array(nf)[:, None], case)
    eq("volume", u.volume, c["det"], case)
    dk = np.array(c["cof"], dtype=float) * kscale
    eq("reciprocal vectors", u.dk_stacked, dk, case)
    eq("fundamental reciprocal vectors", u.fundamental_dk_stacked, dk, case)
    eq("reciprocal volume", u.reciprocal_volume, TAU**nd / c["det"], case)
    eq("reciprocal grid extent", u.delta_k_stacked, dk * np.array(n)[:, None], case)
    eq("fundamental reciprocal grid extent", u.fundamental_delta_k_stacked, dk * np.array(nf)[:, None], case)
    T = lambda x: ints(x).reshape(-1, nd).T  # noqa: E731
    eq("stacked position indices", np.array(u.stacked_nx_points), T(c["nx"]), case)
    eq("stacked momentum indices", np.array(u.stacked_nk_points), T(c["nk"]), case)
    eq("fundamental stacked position indices", np.array(u.fundamental_stacked_nx_points), T(c["fnx"]), case)
    eq("fundamental stacked momentum indices", np.array(u.fundamental_stacked_nk_points), T(c["fnk"]), case)
    eq("positions", u.x_points_stacked, T(c["x"]) / c["xden"], case)
    eq("fundamental positions", u.fundamental_x_points_stacked, T(c["fx"]) / c["fxden"], case)
    eq("wavevectors", u.k_points, T(c["k"]) * kscale, case)
    eq("fundamental wavevectors", u.fundamental_stacked_k_points, T(c["fk"]) * kscale, case)
    N = int(np.prod(n))
    for f in {0, N - 1, v % N, (v // 7) % N}:
        st = u.get_stacked_index(f)
        ex("stacked index", tuple(int(i) for i in st) == tuple(c["nx"][f]), {**case, "flat": f}, str(st))
        ex("flat index", int(u.get_flat_index(tuple(c["nx"][f]))) == f, {**case, "stacked": c["nx"][f]}, "")
        eq("position of an index", u.get_x_points_at_index(f), np.array(c["x"][f]) / c["xden"], {**case, "flat": f})
        eq("wavevector of a flat index", u.get_k_points_at_index(tuple(c["nk"][f])), np.array(c["k"][f]) * kscale,
           {**case, "nk": c["nk"][f]})
    allf = np.arange(N)
    eq("stacked indices of an array", np.array(u.get_stacked_index(allf)), T(c["nx"]), case)
    eq("flat indices of an array", u.get_flat_index(tuple(T(c["nx"]))), allf, case)
    for d, w, pk, px in zip(c["probe"], c["wrapped"], c["probek"], c["probex"]):
        d = d[:nd]
        ex("flat index wraps", int(u.get_flat_index(tuple(d), mode="wrap")) == w, {**case, "idx": d}, "")
        eq("wavevector of any index", u.get_k_points_at_index(tuple(d)), np.array(pk) * kscale, {**case, "idx": d})
        eq("position of any index", u.get_x_points_at_index(tuple(d)), np.array(px) / c["xden"], {**case, "idx": d})
    bad = tuple(n)
    try:
        u.get_flat_index(bad)
        ex("out of range index refused", False, {**case, "idx": bad}, "accepted")
    except (ValueError, IndexError):
        chk.ok("out of range index refused")
    # single axes
    for a in range(nd):
        ua = BasisUtil(axes[a])
        from_low = lambda m: np.array([i if i < (m + 1) // 2 else i - m for i in range(m)])  # noqa: E731
        eq("axis momentum indices", ua.nk_points, from_low(n[a]), case)
        eq("axis fundamental momentum indices", ua.fundamental_nk_points, from_low(nf[a]), case)
        eq("axis position indices", ua.nx_points, np.arange(n[a]), case)
        eq("axis fundamental position indices", ua.fundamental_nx_points, np.arange(nf[a]), case)
        eq("axis spacing", ua.dx, D[a] / n[a], case)
        eq("axis fundamental spacing", ua.fundamental_dx, D[a] / nf[a], case)
        eq("axis positions", ua.x_points, np.outer(D[a] / n[a], np.arange(n[a])), case)
        eq("axis fundamental positions", ua.fundamental_x_points, np.outer(D[a] / nf[a], np.arange(nf[a])), case)
    # derived bases keep the lattice and the fundamental grid
    def check(tag, got, cls, shape, with_d):
        got = list(got)
        ex(tag, len(got) == nd and all(
            isinstance(g, cls) and g.n == s and g.fundamental_n == s
            and (not with_d or np.allclose(g.delta_x, D[a])) for a, (g, s) in enumerate(zip(got, shape))), case,
            repr(got)[:200])

    check("as fundamental position basis", ST.stacked_basis_as_fundamental_position_basis(basis),
          FundamentalPositionBasis, nf, True)
    check("as fundamental momentum basis", ST.stacked_basis_as_fundamental_momentum_basis(basis),
          FundamentalTransformedPositionBasis, nf, True)
    check("as fundamental basis", ST.stacked_basis_as_fundamental_basis(basis), FundamentalBasis, nf, False)
    check("as fundamental transformed basis", ST.stacked_basis_as_fundamental_transformed_basis(basis),
          FundamentalTransformedBasis, nf, False)
    other = tuple(s + 1 + a for a, s in enumerate(n))
    check("as fundamental basis with shape", ST.stacked_basis_as_fundamental_with_shape(basis, other),
          FundamentalPositionBasis, other, True)
    check("from shape", SB.fundamental_stacked_basis_from_shape(other), FundamentalBasis, other, False)
    check("transformed from shape", SB.fundamental_transformed_stacked_basis_from_shape(other),
          FundamentalTransformedBasis, other, False)
    plain = SB.position_basis_from_shape(other)
    eq("position basis from shape: default vectors", [x.delta_x for x in plain], np.eye(nd), case)
    ex("position basis from shape: default kind", [type(x) for x in plain] == [FundamentalPositionBasis] * nd and tuple(plain.shape) == other, case, "")
    check("position basis from shape", SB.position_basis_from_shape(other, D), FundamentalPositionBasis, other, True)
    check("single point basis", get_single_point_basis(basis), FundamentalPositionBasis, (1,) * nd, True)
    check("axes", [BC.basis_as_fundamental_position_basis(x) for x in axes], FundamentalPositionBasis, nf, True)
    check("axes to momentum", [BC.basis_as_fundamental_momentum_basis(x) for x in axes],
          FundamentalTransformedPositionBasis, nf, True)
    check("axes to transformed", [BC.basis_as_fundamental_transformed_basis(x) for x in axes],
          FundamentalTransformedBasis, nf, False)
    check("axes to fundamental", [BC.basis_as_fundamental_basis(x) for x in axes], FundamentalBasis, nf, False)
    check("axes to a single point", [BC.basis_as_single_point_basis(x) for x in axes], FundamentalPositionBasis,
          (1,) * nd, True)
    if nd == 3:
        check("momentum basis 3d", SB.momentum_basis_3d_from_resolution(other, D),
              FundamentalTransformedPositionBasis, other, True)
        plain = SB.momentum_basis_3d_from_resolution(other)
        eq("momentum basis 3d: default vectors", [x.delta_x for x in plain], np.eye(3), case)
        plain = SB.position_basis_3d_from_shape(other)
        eq("position basis 3d: default vectors", [x.delta_x for x in plain], np.eye(3), case)
        ex("position basis 3d: default kind", [type(x) for x in plain] == [FundamentalPositionBasis] * 3 and tuple(plain.shape) == other, case, "")
        check("position basis 3d", SB.position_basis_3d_from_shape(other, D), FundamentalPositionBasis, other, True)
        check("position basis 3d from parent", SB.position_basis_3d_from_parent(basis, other),
              FundamentalPositionBasis, other, True)
    # slicing a stacked basis keeps the axes
    ex("axes by index", all(basis[a] is axes[a] for a in range(nd)) and list(basis[:nd - 1]) == axes[:nd - 1], case, "")
    # the functions of a basis, on the fundamental grid
    if N <= 12 and all(s == "k" for s in c["sp"]) or (N <= 9 and n == nf):
        from surface_potential_analysis.basis.basis_like import convert_vector

        full = ST.stacked_basis_as_fundamental_position_basis(basis)
        eq("basis functions", BasisUtil(basis).vectors, convert_vector(np.eye(N, dtype=complex), basis, full, 1), case)


def times(chk, c):
    from surface_potential_analysis.basis.basis import FundamentalPositionBasis
    from surface_potential_analysis.basis.block_fraction_basis import (
        EvenlySpacedBlockFractionBasis,
        ExplicitBlockFractionBasis,
        FundamentalBlockFractionBasis,
    )
    from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import (
        EvenlySpacedTimeBasis,
        ExplicitTimeBasis,
        FundamentalTimeBasis,
    )
    from surface_potential_analysis.basis.util import get_twice_average_nx

    n, st, off = c["n"], c["step"], c["off"]
    nf = n * st
    case = {"n": n, "step": st, "offset": off}
    dt = 0.7
    b = EvenlySpacedTimeBasis(n, st, off, dt * nf)
    t = np.array(c["t"])
    chk.expect("time basis sizes", b.n == n and b.fundamental_n == nf and b.step == st and b.offset == off, case, "")
    chk.eq("times", b.times, t * dt, case)
    chk.eq("time indices", b.nt_points, t, case)
    chk.eq("fundamental time step", b.fundamental_dt, dt, case)
    chk.eq("time step", b.dt, dt * st, case)
    chk.eq("duration", b.delta_t, dt * nf, case)
    chk.eq("fundamental times", b.fundamental_times, dt * np.arange(nf), case)
    if st == 1 and off == 0:
        f = FundamentalTimeBasis(n, dt * n)
        chk.eq("times of a fundamental basis", f.times, dt * np.arange(n), case)
        chk.eq("fundamental times of a fundamental basis", f.fundamental_times, dt * np.arange(n), case)
        e = ExplicitTimeBasis(t * 1.5)
        chk.eq("explicit times", e.times, t * 1.5, case)
        chk.expect("explicit time basis sizes", e.n == n and e.fundamental_n == n, case, "")
        m = MomentumBasis(t * 1.5)
        chk.eq("explicit momenta", m.k_points, t * 1.5, case)
        g = FundamentalBlockFractionBasis(n)
        chk.eq("fundamental bloch fractions", np.real(np.ravel(g.bloch_fractions)), -0.5 + np.arange(n) / n, case)
        x = ExplicitBlockFractionBasis(np.array([t * 0.1, t * 0.2]))
        chk.expect("explicit bloch fractions", x.n == n and x.ndim == 2
                   and np.allclose(x.bloch_fractions, [t * 0.1, t * 0.2]), case, "")
    f = EvenlySpacedBlockFractionBasis(n, st, off)
    chk.eq("bloch fractions", np.real(np.ravel(f.bloch_fractions)), -0.5 + np.array(c["g"]) / nf, case)
    if c["mids"]:
        basis = TupleBasis(FundamentalPositionBasis(np.array([1.0]), nf))
        r = get_twice_average_nx(basis)
        chk.eq("midpoints of pairs", r[0], np.array(c["mids"]), {"ring": nf})
        if nf <= 4:
            b2 = TupleBasis(FundamentalPositionBasis(np.array([1.0, 0.0]), nf),
                            FundamentalPositionBasis(np.array([0.0, 1.0]), 3))
            r = get_twice_average_nx(b2)
            m = np.array(c["mids"])
            i0 = np.repeat(np.arange(nf), 3)
            chk.eq("midpoints of pairs, first of two axes", r[0], m[np.ix_(i0, i0)], {"rings": [nf, 3]})


def run(chk):
    cs = chk.cases("Lattice", {"Seed": chk.seed, "Big": chk.thorough},
                   invariants=("Dual", "FlatStacked", "PlaneWave", "FFTOrder", "Emit"), workers=8)
    chk.sample(cs[0])
    for i, c in enumerate(cs):
        chk.guard("lattice conventions", {k: c[k] for k in ("D", "n", "nf", "sp")},
                  lambda: lattice(chk, c, stable_hash(chk.seed, i)))
        chk.traces += 1
    cs = chk.cases("TimeGrid", {"MaxN": 9 if chk.thorough else 6}, invariants=("Distinct", "MidHalfway", "Emit"))
    chk.sample(cs[0])
    for c in cs:
        chk.guard("time and fraction grids", {k: c[k] for k in ("n", "step", "off")}, lambda: times(chk, c))
        chk.traces += 1
