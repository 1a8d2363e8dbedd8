"""C07: selecting, slicing, summing, averaging (spec/Select.tla)."""
from __future__ import annotations

import numpy as np
from bases import data as tensor

from vlib import gauss, stable_hash


def run(chk):
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.operator import operator as O
    from surface_potential_analysis.operator import operator_list as OL
    from surface_potential_analysis.overlap.overlap import get_single_overlap
    from surface_potential_analysis.probability_vector import probability_vector as P
    from surface_potential_analysis.state_vector import state_vector_list as S
    from surface_potential_analysis.state_vector.eigenstate_list import get_eigenvalues_list
    from surface_potential_analysis.util import util as U

    eq, ex = chk.eq, chk.expect
    flat = lambda x: np.asarray(x).reshape(-1)  # noqa: E731
    B = lambda s: TupleBasis(*(FundamentalBasis(int(n)) for n in s))  # noqa: E731
    leaf = FundamentalBasis(2)

    def shape_of(b):
        return tuple(int(x.n) for x in b)

    def take(c, h):
        shape, axes, idx = tuple(c["shape"]), tuple(a - 1 for a in c["axes"]), tuple(c["idx"])
        case = {"shape": shape, "axes": axes, "idx": idx}
        out = tuple(c["out"])
        x = tensor(shape, h % 97)
        keep = x.copy()
        want = x.reshape(-1)[c["src"]].reshape(out)
        if axes:
            eq("data in axes", U.get_data_in_axes(x, axes, idx), want, case)
            eq("position in sorted", U.get_position_in_sorted(axes), c["rank"], case)
        else:
            eq("data at an index", x[U.slice_ignoring_axes(idx, ())], want, case)
        ax = [a for a in range(len(shape))]
        sl = U.slice_ignoring_axes(idx, axes)
        ex("slice ignoring axes", len(sl) == len(shape) and all(
            sl[a] == slice(None) if a in axes else sl[a] == idx[[b for b in ax if b not in axes].index(a)] for a in ax),
           case, str(sl))
        eq("slice ignoring axes of a list", x[U.slice_ignoring_axes(list(idx), axes[::-1])], x[sl], case)
        ex("argument untouched", np.array_equal(x, keep), case, "modified")
        if axes:
            y = tensor((*shape, 3), h % 89)
            w = y.reshape(-1, 3)[c["src"]].reshape(-1)
            b = TupleBasis(B(shape), FundamentalBasis(3))
            for name, fn, dt in (("states", S.get_state_along_axis, y), ("probabilities", P.get_probability_along_axis, y.real)):
                r = fn({"basis": b, "data": dt.reshape(-1)}, axes, idx)
                eq(f"{name} along axes", flat(r["data"]), w if name == "states" else w.real, case)
                ex(f"{name} along axes: basis", shape_of(r["basis"][0]) == out and r["basis"][1].n == 3, case,
                   str(r["basis"]))
                if not any(idx):
                    r = fn({"basis": b, "data": dt.reshape(-1)}, axes)
                    eq(f"{name} along axes, default index", flat(r["data"]), w if name == "states" else w.real, case)
                    if axes == (0,):
                        r = fn({"basis": b, "data": dt.reshape(-1)})
                        eq(f"{name} along the first axis", flat(r["data"]), w if name == "states" else w.real, case)

    def reduce(c, h):
        shape, axes = tuple(c["shape"]), tuple(a - 1 for a in c["axes"])
        case = {"shape": shape, "axes": axes}
        out = tuple(c["out"])
        x = gauss(c["data"])
        m = len(c["groups"][0]) if c["groups"] else 1
        sums = gauss(c["sums"]).reshape(-1)
        avg = sums / m
        mags = np.array(c["mags"], dtype=float)
        p = np.abs(x) ** 2
        b = B(shape)
        every = len(axes) == len(shape)
        forms = [axes, axes[::-1], *([None] if every else [])]
        for a in forms:
            k = {**case, "given": a}
            r = P.sum_probability({"basis": b, "data": p}, a)
            eq("summed probability", r["data"], mags, k)
            ex("summed probability: basis", shape_of(r["basis"]) == out, k, str(r["basis"]))
            p2 = np.stack([p, 2 * p])
            r = P.sum_probabilities({"basis": TupleBasis(leaf, b), "data": p2.reshape(-1)}, a)
            eq("summed probabilities", r["data"], np.stack([mags, 2 * mags]).reshape(-1), k)
            ex("summed probabilities: basis", r["basis"][0].n == 2 and shape_of(r["basis"][1]) == out, k, str(r["basis"]))
            if axes:
                r = O.average_eigenvalues({"basis": TupleBasis(b, b), "data": x}, a)
                eq("averaged eigenvalues", flat(r["data"]), avg, k)
                ex("averaged eigenvalues: basis", shape_of(r["basis"][0]) == out and shape_of(r["basis"][1]) == out, k, "")
                x2 = np.stack([x, 1j * x])
                r = O.average_eigenvalues_list({"basis": TupleBasis(leaf, TupleBasis(b, b)), "data": x2.reshape(-1)}, a)
                eq("averaged eigenvalue lists", flat(r["data"]), np.stack([avg, 1j * avg]).reshape(-1), k)
                ex("averaged eigenvalue lists: basis", r["basis"][0].n == 2 and shape_of(r["basis"][1][0]) == out
                   and shape_of(r["basis"][1][1]) == out, k, "")
                y = np.stack([x, 1j * x], axis=-1)
                r = S.average_state_vector({"basis": TupleBasis(b, leaf), "data": y.reshape(-1)}, a)
                eq("averaged states", flat(r["data"]), np.stack([avg, 1j * avg], -1).reshape(-1), k)
                ex("averaged states: basis", shape_of(r["basis"][0]) == out and r["basis"][1].n == 2, k, "")
                if a is not None:
                    q = np.stack([p, 2 * p], -1)
                    r = P.average_probabilities({"basis": TupleBasis(b, leaf), "data": q.reshape(-1)}, a)
                    eq("averaged probabilities", flat(r["data"]), np.stack([mags / m, 2 * mags / m], -1).reshape(-1), k)
                    ex("averaged probabilities: basis", shape_of(r["basis"][0]) == out and r["basis"][1].n == 2, k, "")
                else:
                    q = np.stack([p, 2 * p], -1)
                    r = P.average_probabilities({"basis": TupleBasis(b, leaf), "data": q.reshape(-1)})
                    eq("probabilities averaged over the list", flat(r["data"]), [mags[0] / m, 2 * mags[0] / m], k)
                    ex("probabilities averaged over the list: basis", r["basis"].n == 2, k, "")
                    r = S.average_state_vector({"basis": TupleBasis(b, leaf), "data": y.reshape(-1)})
                    eq("states averaged over the list", flat(r["data"]), [avg[0], 1j * avg[0]], k)
            if a is not None:
                r = O.sum_diagonal_operator_over_axes({"basis": TupleBasis(b, b), "data": x}, a)
                eq("summed diagonal operator", flat(r["data"]), sums, k)
                ex("summed diagonal operator: basis", shape_of(r["basis"][0]) == out and shape_of(r["basis"][1]) == out, k, "")
        if axes:
            wmag, wsum = np.array(c["wmags"]) / c["wtot"], gauss(c["wsums"]).reshape(-1) / c["wtot"]
            w = np.zeros(shape)
            for f in range(x.size):
                w.reshape(-1)[f] = 1 + sum(np.unravel_index(f, shape)[a] for a in axes)
            y = np.stack([x, 1j * x], -1)
            full = np.repeat(w[..., None], 2, -1)
            k = {**case, "weights": True}
            r = O.average_eigenvalues({"basis": TupleBasis(b, b), "data": x}, axes, weights=w)
            eq("weighted eigenvalues", flat(r["data"]), wsum, k)
            r = S.average_state_vector({"basis": TupleBasis(b, leaf), "data": y.reshape(-1)}, axes, weights=full)
            eq("weighted states", flat(r["data"]), np.stack([wsum, 1j * wsum], -1).reshape(-1), k)
            q = np.stack([p, 2 * p], -1)
            r = P.average_probabilities({"basis": TupleBasis(b, leaf), "data": q.reshape(-1)}, axes, weights=full)
            eq("weighted probabilities", flat(r["data"]), np.stack([wmag, 2 * wmag], -1).reshape(-1), k)
            x2 = np.stack([x, 1j * x])
            r = O.average_eigenvalues_list({"basis": TupleBasis(leaf, TupleBasis(b, b)), "data": x2.reshape(-1)}, axes,
                                           weights=np.stack([w, w]))
            eq("weighted eigenvalue lists", flat(r["data"]), np.stack([wsum, 1j * wsum]).reshape(-1), k)
            if len(axes) == 1:
                # one weight per element of the axis
                w1 = 1.0 + np.arange(shape[axes[0]])
                r = O.average_eigenvalues({"basis": TupleBasis(b, b), "data": x}, axes, weights=w1)
                eq("eigenvalues with a weight per element", flat(r["data"]), wsum, k)
                r = S.average_state_vector({"basis": TupleBasis(b, leaf), "data": y.reshape(-1)}, axes, weights=w1)
                eq("states with a weight per element", flat(r["data"]), np.stack([wsum, 1j * wsum], -1).reshape(-1), k)
                r = P.average_probabilities({"basis": TupleBasis(b, leaf), "data": q.reshape(-1)}, axes, weights=w1)
                eq("probabilities with a weight per element", flat(r["data"]), np.stack([wmag, 2 * wmag], -1).reshape(-1), k)
                r = O.average_eigenvalues_list({"basis": TupleBasis(leaf, TupleBasis(b, b)), "data": x2.reshape(-1)}, axes, weights=w1)
                eq("eigenvalue lists with a weight per element", flat(r["data"]), np.stack([wsum, 1j * wsum]).reshape(-1), k)

    def slices(c, h):
        shape, a = tuple(c["shape"]), c["axes"][0] - 1
        lo, st = c["idx"]
        case = {"shape": shape, "axis": a, "start": lo, "step": st}
        x = tensor(shape, h % 97)
        want = x.reshape(-1)[np.array(c["src"], dtype=int)].reshape(c["out"])
        for ax in (a, a - len(shape)):
            eq("slice along axis", x[U.slice_along_axis(slice(lo, None, st), ax)], want, {**case, "given": ax})
        if a == len(shape) - 1:
            eq("slice along the last axis", x[U.slice_along_axis(slice(lo, None, st))], want, case)
        if lo < shape[a] and st == 1:
            for ax in (a, a - len(shape)):
                eq("element along axis", x[U.slice_along_axis(lo, ax)], np.take(want, 0, axis=a), {**case, "given": ax})

    def row(c, h):
        shape, idx, k = tuple(c["shape"]), tuple(c["idx"]), c["row"]
        case = {"shape": shape, "idx": idx}
        n = int(np.prod(shape))
        y = tensor((n, 3), h % 89)
        b3 = FundamentalBasis(3)
        lst = {"basis": TupleBasis(B(shape), b3), "data": y.reshape(-1)}
        forms = [k, k - n, idx]
        for f in forms:
            r = S.get_state_vector(lst, f)
            eq("state of a list", r["data"], y[k], {**case, "given": f})
            ex("state of a list: basis", r["basis"] is b3 or r["basis"] == b3, case, "")
        r = S.get_state_dual_vector(lst, k)
        eq("dual state of a list", r["data"], np.conj(y[k]), case)
        pl = {"basis": lst["basis"], "data": y.real.reshape(-1)}
        for f in [k, *([idx] if c["inside"] else []), *([None] if k == 0 else [])]:
            eq("probability of a list", P.get_probability(pl, f)["data"], y[k].real, {**case, "given": f})
        it = list(S.state_vector_list_into_iter(lst))
        ex("states of a list", len(it) == n, case, str(len(it)))
        eq("states of a list", np.array([i["data"] for i in it]), y, case)
        back = S.as_state_vector_list(iter(it))
        eq("list of states", flat(back["data"]), y.reshape(-1), case)
        ex("list of states: basis", back["basis"].shape == (n, 3) and back["basis"][1] == b3, case, "")
        e = tensor((n,), 5)
        r = get_eigenvalues_list({**lst, "eigenvalue": e})
        eq("eigenvalues of a list", r["data"], e, case)
        ex("eigenvalues of a list: basis", r["basis"].shape == (n, n), case, "")
        eq("eigenvalue of a list", O.get_eigenvalue(r, k), e[k], case)
        # operator lists
        z = tensor((n, 2, 3), h % 83)
        ob = TupleBasis(leaf, b3)
        ol = {"basis": TupleBasis(B(shape), ob), "data": z.reshape(-1)}
        r = OL.select_operator(ol, k)
        eq("operator of a list", flat(r["data"]), z[k].reshape(-1), case)
        ex("operator of a list: basis", r["basis"].shape == (2, 3), case, "")
        it = list(OL.operator_list_into_iter({**ol, "basis": TupleBasis(FundamentalBasis(n), ob)})) if True else []
        return it, z, ob

    def row_ops(c, h):
        shape, k = tuple(c["shape"]), c["row"]
        case = {"shape": shape, "idx": c["idx"]}
        n = int(np.prod(shape))
        b3 = FundamentalBasis(3)
        dl = {"basis": TupleBasis(B(shape), TupleBasis(b3, b3)), "data": tensor((n * 3,), h % 79)}
        want = dl["data"].reshape(n, 3)[k]
        for fn in (OL.select_diagonal_operator, OL.as_diagonal_operator):
            r = fn(dl, k)
            eq("diagonal operator of a list", flat(r["data"]), want, case)
            ex("diagonal operator of a list: basis", r["basis"].shape == (3, 3), case, "")
        # an overlap selects one pair of states
        o = tensor((3, n, n), h % 71)
        ov = {"basis": TupleBasis(b3, TupleBasis(B(shape), B(shape))), "data": o.reshape(-1)}
        for i, j in ((k, 0), (n - 1, k)):
            want = o[:, i, j]
            for f in (i * n + j, (i, j)):
                r = get_single_overlap(ov, f)
                eq("overlap of a pair", flat(r["data"]), want, {**case, "pair": f})
                ex("overlap of a pair: basis", r["basis"][0].n == 3 and r["basis"].n == 3, case, "")

    cs = chk.cases("Select", {"Seed": chk.seed},
                   invariants=("TakeInjective", "Partition", "TotalKept", "TakeAll", "Emit"), workers=8)
    chk.sample(cs[0])
    for i, c in enumerate(cs):
        h = stable_hash(chk.seed, i)
        case = {k: c[k] for k in ("kind", "shape", "axes", "idx") if k in c}
        chk.guard(f"{c['kind']}", case, lambda: {"take": take, "reduce": reduce, "slice": slices, "row": row}[c["kind"]](c, h))
        if c["kind"] == "row":
            chk.guard("row of an operator list", case, lambda: row_ops(c, h))
        chk.traces += 1

    def iters():
        for n in (1, 2, 4):
            for shape in ((2, 2), (2, 3), (3, 2)):
                ob = TupleBasis(FundamentalBasis(shape[0]), FundamentalBasis(shape[1]))
                z = tensor((n, *shape), n)
                ol = {"basis": TupleBasis(FundamentalBasis(n), ob), "data": z.reshape(-1)}
                case = {"n": n, "shape": shape}
                if True:
                    r = OL.operator_list_from_iter(iter([{"basis": ob, "data": x.reshape(-1)} for x in z]))
                    eq("operator list from operators", flat(r["data"]), z.reshape(-1), case)
                    ex("operator list from operators: basis", r["basis"].shape == (n, ob.n) and r["basis"][1] == ob, case, "")
                    it = list(OL.operator_list_into_iter(ol))
                    eq("operators of a list", np.array([flat(x["data"]) for x in it]), z.reshape(n, -1), case)
                    ex("operators of a list: basis", all(x["basis"] == ob for x in it), case, "")
        # measured data
        walk = np.array([0, 1, 2, 3, 4, 4, 3, 4, 5, 6, 5, 4, 3, 2, 1, 0, -1, -2, -3, -4, -5])
        for scale in (1.0, 2.5):
            z = scale * np.exp(0.5j * np.pi * walk)
            for shape in ((21,), (3, 7)):
                d = z.reshape(shape)
                k = {"scale": scale, "shape": shape}
                eq("measured real part", U.get_measured_data(d, "real"), scale * np.cos(walk * np.pi / 2).reshape(shape), k)
                eq("measured imaginary part", U.get_measured_data(d, "imag"), scale * np.sin(walk * np.pi / 2).reshape(shape), k)
                eq("measured modulus", U.get_measured_data(d, "abs"), np.full(shape, scale), k)
            eq("measured phase", U.get_measured_data(z, "angle"), walk * np.pi / 2, {"scale": scale})

    chk.guard("lists of operators", {}, iters)
