"""C02: conversion of coefficient arrays between bases (spec/BasisConv, spec/BasisLarge,
spec/ExplicitConv, spec/BasisPipe)."""
from __future__ import annotations

import numpy as np
from bases import (
    Seen,
    apply,
    data,
    make_leaf,
    make_stack,
    phase_matrix,
    term_matrix,
)

from vlib import stable_hash


def brief(ls):
    return [f"{b['cls']}:{b['sp']} n={b['n']}/{b['nf']} step={b['step']} off={b['off']}" for b in ls]


def pair(chk, tag, m, p, q, case, seed, also=None):
    """Everything one ordered pair (p -> q) of bases has to satisfy."""
    from surface_potential_analysis.basis.basis_like import (
        convert_dual_vector,
        convert_matrix,
        convert_vector,
    )

    nj, ni = m.shape
    chk.expect(f"{tag}: sizes", p.n == ni and q.n == nj, case, f"{p.n}->{q.n}, specified {ni}->{nj}")
    chk.expect(f"{tag}: fundamental sizes", p.fundamental_n == q.fundamental_n, case, "")
    k = seed % 6
    kind = ("complex", "real", "int")[seed % 3]
    v = data((ni,), seed, kind)
    w = v.copy()
    chk.eq(f"{tag}: vector ({kind})", convert_vector(v, p, q), m @ v, case)
    chk.expect(f"{tag}: argument untouched", np.array_equal(v, w) and v.dtype == w.dtype, case, "input was modified")
    # along any axis of a larger array
    shape = [2, 3, 2]
    ax = k % 3
    shape[ax] = ni
    x = data(tuple(shape), seed + 1, ("complex", "real")[(seed // 3) % 2])
    given = ax if seed % 2 else ax - 3
    chk.eq(f"{tag}: along an axis", convert_vector(x, p, q, axis=given), apply(m, x, ax), {**case, "axis": given})
    if k < 3:
        chk.eq(f"{tag}: dual vector", convert_dual_vector(x, p, q, axis=given), apply(m.conj(), x, ax),
               {**case, "axis": given})
    if also is not None:
        m2, p2, q2 = also
        a = data((ni, m2.shape[1]), seed + 2)
        chk.eq(f"{tag}: matrix", convert_matrix(a, p, q, p2, q2), m @ a @ m2.conj().T, case)
        b = data((m2.shape[1], 2, ni), seed + 3)
        chk.eq(f"{tag}: matrix along given axes", convert_matrix(b, p, q, p2, q2, axes=(2, 0)),
               apply(m2.conj(), apply(m, b, 2), 0), case)


def protocol(chk, tag, m, p, target, case, seed):
    """A basis itself converts to and from the whole grid in positions and in momenta."""
    if len({b["sp"] for b in target}) != 1 or any(b["n"] != b["nf"] or b["cls"] != "low" for b in target):
        return
    word = "fundamental" if target[0]["sp"] == "x" else "transformed"
    into, back = getattr(p, f"__into_{word}__"), getattr(p, f"__from_{word}__")
    nj, ni = m.shape
    ax = seed % 2
    x = data((ni, 3) if ax == 0 else (2, ni), seed + 5, ("complex", "real")[(seed // 5) % 2])
    y = data((nj, 3) if ax == 0 else (2, nj), seed + 6, ("complex", "real")[(seed // 7) % 2])
    given = ax if seed % 3 else ax - 2
    x0, y0 = x.copy(), y.copy()
    chk.eq(f"{tag}: into {word}", into(x, given), apply(m, x, ax), {**case, "axis": given})
    chk.eq(f"{tag}: from {word}", back(y, given), apply(m.conj().T, y, ax), {**case, "axis": given})
    chk.expect(f"{tag}: argument untouched", np.array_equal(x, x0) and np.array_equal(y, y0), case, "input was modified")


def large(chk, c, s):
    """A conversion between large grids, seen through some of its columns."""
    from surface_potential_analysis.basis.basis_like import (
        convert_dual_vector,
        convert_matrix,
        convert_vector,
    )

    case = {"from": brief(c["b1"]), "to": brief(c["b2"])}
    one = len(c["b1"]) == 1 and s % 3 > 0
    p = make_leaf(c["b1"][0], s) if one else make_stack(c["b1"], s, nested=s % 5 == 0)
    q = make_leaf(c["b2"][0], s // 7) if one else make_stack(c["b2"], s // 3, nested=s % 5 == 0)
    seen = Seen(c["b1"], c["axes"])
    v = data((len(seen.at),), s, "complex" if s % 2 else "real")
    x, want, dual = seen.array(v), seen.image(v), seen.image(v, dual=True)
    chk.expect("large: sizes", p.n == x.size and q.n == want.size and p.fundamental_n == q.fundamental_n, case, f"{p.n} {q.n}")
    chk.eq("large: vector", convert_vector(x, p, q), want, case)
    k = np.array([1, -2j, 0.5])
    chk.eq("large: along an axis", convert_vector(np.multiply.outer(k, x), p, q, axis=1), np.multiply.outer(k, want), case)
    chk.eq("large: dual vector", convert_dual_vector(np.multiply.outer(x, k), p, q, axis=0), np.multiply.outer(dual, k), case)
    # the other direction is the adjoint: the rows looked at
    y = data((want.size,), s + 1)
    chk.eq("large: the other direction", convert_vector(y, q, p)[seen.at], seen.back(y), case)
    if x.size <= 400 and want.size <= 400:
        chk.eq("large: matrix", convert_matrix(np.outer(x, np.conj(x)), p, q, p, q), np.outer(want, np.conj(want)), case)
        chk.eq("large: matrix, one side", convert_matrix(np.outer(x, np.conj(x)), p, q, p, p), np.outer(want, np.conj(x)), case)
    t = c["b2"]
    if len({b["sp"] for b in t}) == 1 and all(b["n"] == b["nf"] and b["cls"] == "low" for b in t):
        word = "fundamental" if t[0]["sp"] == "x" else "transformed"
        chk.eq(f"large: into {word}", getattr(p, f"__into_{word}__")(np.multiply.outer(k, x)), np.multiply.outer(k, want), case)
        chk.eq(f"large: from {word}", getattr(p, f"__from_{word}__")(y)[seen.at], seen.back(y), case)


def run(chk):
    from surface_potential_analysis.basis.explicit_basis import (
        ExplicitBasis,
        ExplicitStackedBasisWithLength,
    )
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.basis import FundamentalBasis

    inv = ("ThroughComplete", "Adjoint", "RoundTrip", "Orthonormal", "Emit")
    prev = None
    for kind in ("leaf", "stack", "flat"):
        nf = ({1, 2, 3, 4, 5, 6} if chk.thorough else {1, 2, 3, 4, 6}) if kind == "leaf" else {1}
        cs = chk.cases("BasisConv", {"NF": nf, "MaxOff": 7 if chk.thorough else 3,
                                     "Kind": kind, "Seed": chk.seed}, invariants=inv, workers=8)
        chk.sample(cs[len(cs) // 2])
        for i, c in enumerate(cs):
            case = {"from": brief(c["b1"]), "to": brief(c["b2"])}
            m = phase_matrix(c["m"], c["L"], c["scale"])
            for rep in range(2 if kind == "leaf" else 1):
                s = stable_hash(chk.seed, kind, i, rep)
                if kind == "leaf":
                    p, q = make_leaf(c["b1"][0], s), make_leaf(c["b2"][0], s // 7)
                elif kind == "stack":
                    p = make_stack(c["b1"], s, nested=s % 5 == 0)
                    q = make_stack(c["b2"], s // 3, nested=s % 5 == 0)
                else:
                    p, q = make_stack(c["b1"], s), make_leaf(c["b2"][0], s // 7)
                also = (m, p, q) if i % 2 or prev is None else prev
                chk.guard(f"{kind}: conversion", case,
                          lambda: (pair(chk, kind, m, p, q, case, s, also), protocol(chk, kind, m, p, c["b2"], case, s)))
                prev = (m, p, q)
                if c["b1"] == c["b2"] or kind == "flat":
                    # the very same basis object / the opposite direction
                    if kind == "flat":
                        chk.guard(f"{kind}: conversion", case,
                                  lambda: pair(chk, "flat back", m.conj().T, q, p, case, s))
                    else:
                        chk.guard(f"{kind}: conversion", case,
                                  lambda: pair(chk, "same object", np.eye(p.n), p, p, case, s, (np.eye(p.n), p, p)))
                chk.traces += 1
    cs = chk.cases("BasisLarge", {"Seed": chk.seed, "Count": 1200 if chk.thorough else 240},
                   invariants=("Same", "Adjoint", "Distinct", "Character", "Emit"), workers=8)
    for i, c in enumerate(cs):
        chk.guard("large: conversion", {"from": brief(c["b1"]), "to": brief(c["b2"])},
                  lambda: large(chk, c, stable_hash(chk.seed, "large", i)))
        chk.traces += 1
    cs = chk.cases("ExplicitConv", {"Seed": chk.seed}, invariants=("AdjointLaw", "GramInt", "Emit"))
    for i, c in enumerate(cs):
        s = stable_hash(chk.seed, i)
        case = {"explicit over": brief(c["base"]), "rows": len(c["v"]), "kind": c["kind"], "other": brief(c["other"])}
        v = np.asarray(c["v"], dtype=float)
        v = v[..., 0] + 1j * v[..., 1]

        def body(c=c, s=s, v=v, case=case):
            stacked = len(c["base"]) > 1 or s % 2
            base = make_stack(c["base"], s, length=s % 3 == 0) if stacked else make_leaf(c["base"][0], s)
            other = make_stack(c["other"], s // 3) if stacked and (len(c["base"]) > 1 or s % 5) else make_leaf(c["other"][0], s)
            vec = {"basis": TupleBasis(FundamentalBasis(len(v)), base), "data": v.reshape(-1) if s % 2 else v}
            cls = ExplicitStackedBasisWithLength if stacked and s % 4 == 0 else ExplicitBasis
            x = cls.from_state_vectors(vec) if s % 2 else cls(vec)
            chk.expect("explicit: sizes", x.n == len(v) and x.fundamental_n == base.fundamental_n, case, "")
            f = term_matrix(c["fromx"], c["L"], c["scale"])
            t = term_matrix(c["intox"], c["L"], c["scale"])
            pair(chk, "explicit to basis", f, x, other, case, s, (f, x, other))
            pair(chk, "basis to explicit", t, other, x, case, s, (t, other, x))
            protocol(chk, "explicit", f, x, c["other"], case, s)
            # the states of a basis span it as they are
            whole = cls.from_basis(base)
            chk.expect("explicit of a basis: sizes", whole.n == base.n and whole.fundamental_n == base.fundamental_n, case, "")
            u = np.eye(base.n)
            pair(chk, "explicit of a basis", u, base, whole, case, s, (u, base, whole))
            pair(chk, "explicit of a basis, back", u, whole, base, case, s, (f, x, other))
            pair(chk, "explicit to explicit", v.conj(), whole, x, case, s, (t, other, x))
            raw = np.asarray(x.fundamental_raw_vectors)
            chk.expect("explicit: states on the whole grid", raw.shape == (x.n, x.fundamental_n), case, str(raw.shape))
            chk.expect("explicit: its own states", x.vectors is vec and x.vectors_basis[1] is base, case, "")

        chk.guard("explicit: conversion", case, body)
        chk.traces += 1
    cs = chk.cases("BasisPipe", {"Seed": chk.seed, "Depth": 4 if chk.thorough else 3},
                   invariants=("NormNeverGrows", "LosslessInsideSpan", "Emit"), workers=8)
    from surface_potential_analysis.basis.basis_like import convert_vector

    chk.sample(cs[len(cs) // 3])
    for i, c in enumerate(cs):
        s = stable_hash(chk.seed, i)

        def body(c=c, s=s):
            bs = [make_leaf(st["b"], s // (a + 1)) for a, st in enumerate(c["hist"])]
            v = None
            for a, st in enumerate(c["hist"]):
                n = st["b"]["nf"]
                w = np.exp(2j * np.pi * np.arange(n) / n)
                want = np.array(st["v"], dtype=float) @ w / np.sqrt(float(n)) ** st["h"]
                v = want.copy() if a == 0 else convert_vector(v, bs[a - 1], bs[a])
                if not chk.eq("pipeline of conversions", v, want,
                              {"pipeline": brief([t["b"] for t in c["hist"][: a + 1]])}):
                    return

        chk.guard("pipeline of conversions", {"pipeline": brief([t["b"] for t in c["hist"]])}, body)
        chk.traces += 1
