"""Builds real bases from the basis records of spec/Bases.tla."""
from __future__ import annotations

import numpy as np

from vlib import stable_hash


def phase_matrix(m, L, scale):
    e = np.asarray(m, dtype=float)
    out = np.exp(2j * np.pi * np.where(e < 0, 0, e) / L) / np.sqrt(scale)
    return np.where(e < 0, 0, out)


def term_matrix(m, L, scale):
    return np.array([[sum((complex(re, im) * np.exp(2j * np.pi * e / L) for e, re, im in t), 0j)
                      for t in row] for row in m]).reshape(len(m), -1) / np.sqrt(scale)


def delta_for(axis, ndim):
    """A non-orthogonal lattice vector for one axis."""
    d = np.zeros(ndim)
    d[axis] = 2.0 + axis
    if axis > 0:
        d[0] = 0.5 * axis
    return d


def make_leaf(b, variant=0, axis=0, ndim=1, length=None, delta=None):
    """variant selects among the classes that realise the same abstract basis;
    length forces a class that has a lattice vector."""
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis import evenly_spaced_basis as E
    from surface_potential_analysis.basis.block_fraction_basis import (
        EvenlySpacedBlockFractionBasis,
    )
    from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
    from surface_potential_analysis.basis.time_basis_like import (
        EvenlySpacedTimeBasis,
        ExplicitTimeBasis,
    )

    n, nf, sp = b["n"], b["nf"], b["sp"]
    d = delta_for(axis, ndim) if delta is None else np.array(delta, float)
    opts = []
    if b["cls"] == "low":
        if sp == "x":
            opts = [lambda: B.TruncatedPositionBasis(d, n, nf)]
            if n == nf:
                opts.insert(0, lambda: B.FundamentalPositionBasis(d, n))
            if not length:
                opts.append(lambda: B.TruncatedBasis(n, nf))
                if n == nf:
                    opts += [lambda: B.FundamentalBasis(n), lambda: ExplicitTimeBasis(np.arange(n) * 1.0),
                             lambda: MomentumBasis(np.arange(n) * 1.0)]
        else:
            opts = [lambda: B.TransformedPositionBasis(d, n, nf)]
            if n == nf:
                opts.insert(0, lambda: B.FundamentalTransformedPositionBasis(d, n))
            if not length:
                opts.append(lambda: B.TransformedBasis(n, nf))
                if n == nf:
                    opts.append(lambda: B.FundamentalTransformedBasis(n))
    else:
        st, off = b["step"], b["off"]
        if sp == "x":
            if length:
                opts = []
            else:
                opts = [lambda: E.EvenlySpacedBasis(n, st, off),
                        lambda: EvenlySpacedBlockFractionBasis(n, st, off),
                        lambda: EvenlySpacedTimeBasis(n, st, off, 1.0)]
        else:
            opts = [lambda: E.EvenlySpacedTransformedPositionBasis(d, n=n, step=st, offset=off)]
            if not length:
                opts.append(lambda: E.EvenlySpacedTransformedBasis(n, st, off))
    if not opts:
        return None
    return opts[variant % len(opts)]()


def make_stack(ls, variant=0, length=None, nested=False):
    from surface_potential_analysis.basis.stacked_basis import TupleBasis

    leaves = [make_leaf(b, stable_hash(variant, a, b["n"]) if variant else 0, a, len(ls), length)
              for a, b in enumerate(ls)]
    if any(x is None for x in leaves):
        return None
    if nested and len(leaves) > 2:
        return TupleBasis(TupleBasis(*leaves[:2]), *leaves[2:])
    if nested and len(leaves) == 2:
        return TupleBasis(leaves[0], TupleBasis(leaves[1]))
    return TupleBasis(*leaves)


class Seen:
    """A conversion between large stacks, known through some of its columns
    (spec/BasisLarge.tla): holds of arrays that vanish elsewhere."""

    def __init__(self, p, axes):
        self.shape = tuple(b["n"] for b in p)
        self.cols = [np.array(x["cols"]) for x in axes]
        self.mats = [phase_matrix(x["m"], x["nf"], x["nf"] if x["differ"] else 1).T for x in axes]
        self.n = int(np.prod(self.shape))
        self.m = int(np.prod([m.shape[0] for m in self.mats]))
        self.at = np.ravel_multi_index(np.ix_(*self.cols), self.shape).ravel()

    def array(self, x):
        """x on the columns, zero elsewhere; along the first axis"""
        out = np.zeros((self.n, *x.shape[1:]), x.dtype)
        out[self.at] = x
        return out

    def image(self, x, dual=False):
        """of an array given on the columns, along the first axis"""
        t = x.reshape(*[len(c) for c in self.cols], *x.shape[1:])
        for a, m in enumerate(self.mats):
            t = apply(m.conj() if dual else m, t, a)
        return t.reshape(self.m, *x.shape[1:])

    def back(self, y):
        """rows of the adjoint, at the columns; along the first axis"""
        t = y.reshape(*[m.shape[0] for m in self.mats], *y.shape[1:])
        for a, m in enumerate(self.mats):
            t = apply(m.conj().T, t, a)
        return t.reshape(len(self.at), *y.shape[1:])


def has_length(ls):
    return all(not (b["cls"] == "even" and b["sp"] == "x") for b in ls)


def data(shape, seed, kind="complex"):
    """Deterministic small-integer test data."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n)
    re = (7 * i * i + 3 * i * seed + 5 * seed + 1) % 9 - 4.0
    im = (5 * i * i + 11 * i + 2 * seed * i + seed) % 7 - 3.0
    if kind == "complex":
        return (re + 1j * im).reshape(shape)
    if kind == "int":
        return re.astype(int).reshape(shape)
    return re.reshape(shape)


def apply(m, x, axis):
    return np.moveaxis(np.tensordot(m, x, axes=([1], [axis])), 0, axis)


W12 = np.exp(2j * np.pi * np.arange(4) / 12)


def r12(x, shape=None, scale=1):
    """Elements of Z[exp(i pi / 6)] (spec/R12.tla) as a complex array."""
    a = np.asarray(x, dtype=float)
    if a.size == 0:
        a = a.reshape(-1, 4)
    out = a @ W12 / np.sqrt(float(scale))
    return out if shape is None else out.reshape(tuple(shape))


def same_basis(got, want):
    """Is got the abstract basis want: same sizes, index sets and lattice."""
    try:
        if got.n != want.n or got.fundamental_n != want.fundamental_n:
            return False
        if hasattr(want, "delta_x") and not np.allclose(got.delta_x, want.delta_x):
            return False
        if hasattr(want, "__iter__"):
            g, w = list(got), list(want)
            return len(g) == len(w) and all(same_basis(a, b) for a, b in zip(g, w))
    except AttributeError:
        return False
    from surface_potential_analysis.basis.basis_like import convert_vector

    e = np.eye(want.fundamental_n, dtype=complex)
    from surface_potential_analysis.basis.basis import FundamentalBasis

    f = FundamentalBasis(want.fundamental_n)
    return bool(np.allclose(convert_vector(e, f, got, 0), convert_vector(e, f, want, 0)))
