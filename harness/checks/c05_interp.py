"""C05: Fourier padding and interpolation (spec/Interp.tla, spec/Spline.tla)."""
from __future__ import annotations

import numpy as np
from bases import apply, data

from vlib import stable_hash


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.state_vector.conversion import (
        convert_state_vector_to_position_basis,
        interpolate_state_vector_momentum,
    )
    from surface_potential_analysis.util import interpolation as I

    eq = chk.eq
    mx = 9 if chk.thorough else 6
    cs = chk.cases("Interp", {"MaxN": mx, "Seed": chk.seed, "Per": 41 if chk.thorough else 127},
                   invariants=("PadKeepsFrequency", "PassesThrough", "Constant", "RealAgrees", "RealPasses", "Emit"),
                   workers=8)
    chk.sample({k: cs[0].get(k) for k in ("kind", "n", "s", "shape", "pad")})
    pad, cplx, real = {}, {}, {}
    for c in cs:
        if c["kind"] != "1d":
            continue
        n, s, ell = c["n"], c["s"], c["L"]
        p = np.zeros((s, n))
        for j, i in enumerate(c["pad"]):
            if i >= 0:
                p[j, i] = 1
        pad[n, s] = p
        w = lambda e: np.exp(2j * np.pi * np.asarray(e, dtype=float) / ell)  # noqa: E731
        cplx[n, s] = np.array([[w(x).sum() for x in row] for row in c["cplx"]]) / n
        real[n, s] = np.array([[sum(k * w(e) for e, k in x) for x in row] for row in c["real"]]) / n

    def one(c):
        n, s = c["n"], c["s"]
        case = {"n": n, "s": s}
        for tail in ((), (3,), (2, 3)):
            for axis in range(len(tail) + 1):
                shape = (*tail[:axis], n, *tail[axis:])
                for ax in {axis, axis - len(shape)}:
                    k = {**case, "shape": shape, "axis": ax}
                    x = data(shape, s + axis)
                    keep = x.copy()
                    eq("pad", I.pad_ft_points(x, (s,), (ax,)), apply(pad[n, s], x, axis), k)
                    eq("complex interpolation", I.interpolate_points_fftn(x, (s,), axes=(ax,)),
                       apply(cplx[n, s], x, axis), k)
                    h = np.zeros((len(c["half"]), n))
                    for j, i in enumerate(c["half"]):
                        if i >= 0:
                            h[j, i] = 1
                    eq("pad one-sided", I.pad_ft_points_real_axis(x, s, ax), apply(h, x, axis), k)
                    chk.expect("argument untouched", np.array_equal(x, keep), k, "modified")
                    r = data(shape, s + axis, "real")
                    r2 = r + np.roll(np.flip(r, axis), 1, axis)  # symmetric: real transform
                    for y in (r, r2, np.ones(shape) * 2.0):
                        keep = y.copy()
                        want = np.real(apply(real[n, s], y, axis))
                        got = I.interpolate_points_rfft(y, s, axis=ax)
                        eq("real interpolation", got, want, k)
                        chk.expect("real interpolation is real", np.isrealobj(got), k, str(got.dtype))
                        eq("real interpolation (n axes)", I.interpolate_points_rfftn(y, (s,), axes=(ax,)), want, k)
                        chk.expect("argument untouched", np.array_equal(y, keep), k, "modified")
            if not tail:
                i = data((n,), s, "int")
                eq("pad integers", I.pad_ft_points(i, (s,), (0,)), pad[n, s] @ i, case)
                eq("complex interpolation of a list", I.interpolate_points_fftn(list(i), (s,)), cplx[n, s] @ i, case)
                eq("real interpolation of a list", I.interpolate_points_rfft(list(i), s),
                   np.real(real[n, s] @ i), case)
        # a state keeps its wavefunction when its momentum basis is interpolated
        if s >= n:
            b = [B.FundamentalPositionBasis(np.array([2.0, 0.5]), n), B.FundamentalPositionBasis(np.array([0.0, 3.0]), 2)]
            for order in (0, 1):
                axes = b if order == 0 else b[::-1]
                x = data((axes[0].n, axes[1].n), s)
                for target in (((s,), (order,)), ((s, 4), (order, 1 - order)), ((4, s), (1 - order, order))):
                    sh = dict(zip(target[1], target[0]))
                    r = interpolate_state_vector_momentum({"basis": TupleBasis(*axes), "data": x.reshape(-1)}, *target)
                    k = {**case, "order": order, "target": target}
                    want = x
                    for a in range(2):
                        m = sh.get(a, axes[a].n)
                        want = apply(cplx[axes[a].n, m], want, a)
                        chk.expect("interpolated basis", r["basis"][a].n == axes[a].n
                                   and r["basis"][a].fundamental_n == m
                                   and np.allclose(r["basis"][a].delta_x, axes[a].delta_x), k, "")
                    eq("interpolated state keeps its wavefunction",
                       convert_state_vector_to_position_basis(r)["data"], want.reshape(-1), k)

    def many(c):
        shape, axes, new = tuple(c["shape"]), [a - 1 for a in c["axes"]], c["new"]
        case = {"shape": shape, "axes": axes, "new": new}
        h = stable_hash(shape, axes, new)
        ax = [a - 3 if (h >> i) % 2 else a for i, a in enumerate(axes)]
        x = data(shape, h % 50)
        y = data(shape, h % 50, "real")
        wp = wc = x
        wr = y
        for i, (a, s) in enumerate(zip(axes, new)):
            wp = apply(pad[shape[a], s], wp, a)
            wc = apply(cplx[shape[a], s], wc, a)
            wr = apply((real if i == len(axes) - 1 else cplx)[shape[a], s], wr, a)
        eq("pad several axes", I.pad_ft_points(x, new, ax), wp, case)
        eq("pad several axes (arrays)", I.pad_ft_points(x, tuple(new), np.array(ax)), wp, case)
        eq("complex interpolation of several axes", I.interpolate_points_fftn(x, new, ax), wc, case)
        got = I.interpolate_points_rfftn(y, tuple(new), tuple(ax))
        eq("real interpolation of several axes", got, np.real(wr), case)
        chk.expect("real interpolation is real", np.isrealobj(got), case, str(got.dtype))
        if axes == list(range(3 - len(axes), 3)):
            eq("complex interpolation of the last axes", I.interpolate_points_fftn(x, new), wc, case)
            eq("real interpolation of the last axes", I.interpolate_points_rfftn(y, new), np.real(wr), case)

    for c in cs:
        key = {k: c[k] for k in ("n", "s", "shape", "axes", "new") if k in c}
        chk.guard("interpolation", key, lambda: one(c) if c["kind"] == "1d" else many(c))
        chk.traces += 1

    def spline(c):
        old = np.array(c["old"], dtype=float)
        d = np.array(c["data"], dtype=float)
        new = np.array(c["new"], dtype=float) / c["den"]
        for shape in ((6,), (2, 3), (3, 2)):
            for axis in range(len(shape) + 1):
                x = np.moveaxis(d.reshape(*shape, -1), -1, axis)
                w = np.moveaxis(new.reshape(*shape, -1), -1, axis)
                for ax in (axis, axis - x.ndim):
                    k = {"old": c["old"], "n": c["m"], "degree": c["deg"], "shape": x.shape, "axis": ax}
                    for y in (x, np.ascontiguousarray(x)):
                        keep = y.copy()
                        eq("spline", I.interpolate_points_along_axis_spline(y, old, c["m"], ax), w, k, tol=1e-8)
                        chk.expect("argument untouched", np.array_equal(y, keep), k, "modified")
                if axis == x.ndim - 1:
                    eq("spline, last axis by default", I.interpolate_points_along_axis_spline(x, old, c["m"]), w, k, tol=1e-8)
        eq("spline of a line", I.interpolate_points_along_axis_spline(d[1], old, c["m"]), new[1], {"old": c["old"]}, tol=1e-8)

    cs = chk.cases("Spline", {"Seed": chk.seed}, invariants=("Ends", "Emit"))
    for c in cs:
        chk.guard("spline", {k: c[k] for k in ("old", "m", "deg")}, lambda: spline(c))
        chk.traces += 1
