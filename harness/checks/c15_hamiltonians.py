"""C15: Hamiltonians of a particle in a lattice potential (spec/Hamiltonians.tla)."""
from __future__ import annotations

import importlib.util
import math
import sys
import types

import numpy as np
from bases import make_leaf, r12, same_basis
from scipy.constants import hbar

from vlib import stable_hash


def generator_stand_in():
    """The compiled extension hamiltonian_generator is not part of the repository: matrix
    elements of a potential given its Fourier transform over the surface, as the package's
    own (python) version of the first one defines them."""
    def elements(ft, vectors, shape):
        ft, v = np.asarray(ft), np.asarray(vectors)
        lows = [np.fft.fftfreq(n, 1 / n).astype(int) for n in shape[:2]]
        ks = [(a, b) for a in lows[0] for b in lows[1]]
        out = np.zeros((len(ks), v.shape[0], len(ks), v.shape[0]), complex)
        for i, k in enumerate(ks):
            for j, l in enumerate(ks):
                out[i, :, j] = (v.conj() * ft[(l[0] - k[0]) % ft.shape[0], (l[1] - k[1]) % ft.shape[1]]) @ v.T
        return out.reshape(len(ks) * v.shape[0], -1).tolist()

    def sho(z, omega, mass, n):
        s = math.sqrt(mass * omega / hbar)
        h = np.polynomial.hermite.Hermite.basis(n)
        t = np.asarray(z) * s
        return h(t) * np.exp(-t * t / 2) * math.sqrt(s / (2**n * math.factorial(n) * math.sqrt(math.pi)))

    def oscillators(ft, resolution, dz, mass, omega, offset):
        z = offset + dz * np.arange(np.asarray(ft).shape[2])
        v = np.array([sho(z, omega, mass, n) for n in range(resolution[2])])
        return elements(ft, v * math.sqrt(dz), resolution)
    m = types.ModuleType("hamiltonian_generator")
    m.calculate_off_diagonal_energies = oscillators
    m.calculate_off_diagonal_energies2 = elements
    return m, sho


def run(chk):
    gen, sho = generator_stand_in()
    if importlib.util.find_spec("hamiltonian_generator") is None:
        sys.modules["hamiltonian_generator"] = gen
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.util import BasisUtil
    from surface_potential_analysis.hamiltonian_builder import explicit_z_basis as Z
    from surface_potential_analysis.hamiltonian_builder import momentum_basis as M
    from surface_potential_analysis.hamiltonian_builder import sho_subtracted_basis as O
    from surface_potential_analysis.stacked_basis import potential_basis as PB
    from surface_potential_analysis.stacked_basis import sho_basis as SB

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Hamiltonians", {"Seed": chk.seed, "Per": 1 if chk.thorough else 2, "MaxN": 24 if chk.thorough else 12},
                   invariants=("Shifted", "Herm_", "Emit"), workers=8)
    chk.sample(cs[0])

    def unit_mass(det):
        """The mass for which energies are those of the specification."""
        return (2 * np.pi * hbar) ** 2 / (2 * 16 * det**2)

    def total(i, c, case):
        h = stable_hash(chk.seed, i)
        nd = len(c["p"])
        b = TupleBasis(*(make_leaf(a, stable_hash(h, k), k, nd, True, c["D"][k]) for k, a in enumerate(c["p"])))
        m = unit_mass(c["det"])
        scale = (1, 4)[h % 2]
        fr = np.array(c["f"]) / 4
        vec = r12(c["c"]).reshape(-1)
        pot = {"basis": b, "data": vec.copy()}
        en = np.array(c["energy"], float)
        kin = r12(c["kin"], (b.n, b.n), c["sk"] ** 2)
        vmat = r12(c["pot"], (b.n, b.n), c["sx"] ** 3)
        bb = TupleBasis(b, b)

        def at(fn):
            return [fn(fr)] + ([fn(None)] if not fr.any() else [])
        for r in at(lambda f: M.hamiltonian_from_mass(b, m / scale, f)):
            eq("kinetic energy of each momentum", r["data"], en * scale, case)
            mb = TupleBasis(*(B.FundamentalTransformedPositionBasis(a.delta_x, a.fundamental_n) for a in b))
            ex("kinetic energy of each momentum: basis", same_basis(r["basis"], TupleBasis(mb, mb)), case, "")
        for r in at(lambda f: M.hamiltonian_from_mass_in_basis(b, m / scale, f)):
            eq("kinetic energy in a basis", np.asarray(r["data"]).reshape(b.n, b.n), kin * scale, case)
            ex("kinetic energy in a basis: basis", same_basis(r["basis"], bb), case, "")
        r = M.hamiltonian_from_potential(pot)
        eq("potential energy in a basis", np.asarray(r["data"]).reshape(b.n, b.n), vmat, case)
        ex("potential energy in a basis: basis", same_basis(r["basis"], bb), case, "")
        for r in at(lambda f: M.total_surface_hamiltonian(pot, m / scale, f)):
            eq("total energy in a basis", np.asarray(r["data"]).reshape(b.n, b.n), kin * scale + vmat, case)
            ex("total energy in a basis: basis", same_basis(r["basis"], bb), case, "")
        ex("arguments untouched", np.array_equal(pot["data"], vec) and np.array_equal(fr, np.array(c["f"]) / 4), case, "")

    def grid_hamiltonian(c, v, sh):
        """The full Hamiltonian at grid points."""
        n = int(np.prod(sh))
        ft = np.eye(1)
        for s in sh:
            ft = np.kron(ft, np.exp(-2j * np.pi * np.outer(np.arange(s), np.arange(s)) / s) / np.sqrt(s))
        return ft.conj().T @ np.diag(np.array(c["energy"], float)) @ ft + np.diag(v.reshape(n))

    def waves(n, nf):
        k = np.fft.fftfreq(n, 1 / n)
        return np.exp(2j * np.pi * np.outer(k, np.arange(nf)) / nf) / np.sqrt(nf)

    def layers(i, c, case):
        h = stable_hash(chk.seed, i)
        sh = tuple(a["n"] for a in c["p"])
        d = np.array(c["D"], float)
        m = unit_mass(c["det"])
        fr = np.array(c["f"]) / 4
        v = np.array(c["v"], float)
        b = TupleBasis(*(B.FundamentalPositionBasis(d[a], sh[a]) for a in range(3)))
        pot = {"basis": b, "data": v.astype(complex) if h % 2 else v.copy()}
        lz = d[2][2]
        nx, ny, nz = c["x"]
        low = PB.select_minimum_potential_3d({"basis": b, "data": v})
        v3 = v.reshape(sh)
        at = np.argwhere(v3 == v3.min())
        ex("layer of the minimum", any(np.array_equal(low["data"], v3[a, e]) for a, e, _ in at), case, lambda: str(low["data"]))
        ex("layer of the minimum: basis", same_basis(low["basis"], TupleBasis(B.FundamentalPositionBasis(np.array([lz]), sh[2]))), case, "")
        for g in range(3):
            deep = v3.copy()
            at = tuple((h // (3 + 5 * a + g)) % n for a, n in enumerate(sh))
            deep[at] = v3.min() - 5
            low = PB.select_minimum_potential_3d({"basis": b, "data": deep.ravel() if g else deep})
            eq("layer of a single minimum", low["data"], deep[at[0], at[1]], {**case, "at": at})
        # states of one layer
        col = (v3[0, 0] + np.arange(sh[2]) * (h % 3) / 2).astype(complex if h % 2 else float)
        zb = TupleBasis(B.FundamentalPositionBasis(np.array([lz]), sh[2]))
        cfg = {"potential": {"basis": zb, "data": col.copy()}, "mass": m, "n": nz}
        kz = np.fft.fftfreq(sh[2], 1 / sh[2])
        e0 = (2 * np.pi * hbar) ** 2 / (2 * m) / lz**2

        def zham(f):
            w = waves(sh[2], sh[2])
            return w.T @ np.diag(e0 * (kz + f) ** 2) @ w.conj() + np.diag(col)
        for f, st in ((fr[2], PB.get_potential_basis_config_eigenstates(cfg, bloch_fraction=fr[2])), (0, PB.get_potential_basis_config_eigenstates(cfg))):
            u = np.asarray(st["data"]).reshape(nz, sh[2])
            hz = zham(f)
            sc = max(1, np.abs(hz).max())
            eq("states of a layer: energies", np.asarray(st["eigenvalue"]).reshape(-1) / sc, np.linalg.eigvalsh(hz)[:nz] / sc, case)
            eq("states of a layer", (hz @ u.T) / sc, u.T * np.asarray(st["eigenvalue"]).reshape(-1) / sc, case)
            eq("states of a layer: orthonormal", u.conj() @ u.T, np.eye(nz), case)
            ex("states of a layer: basis", st["basis"].shape == (nz, sh[2]) and same_basis(st["basis"][1], zb), case, "")
        pb = PB.get_potential_basis_config_basis(cfg)
        u = convert_vector(np.eye(nz), pb, zb)
        hz = zham(0)
        sc = max(1, np.abs(hz).max())
        ex("basis of a layer: size", pb.n == nz and pb.fundamental_n == sh[2] and np.allclose(pb.delta_x_stacked, [[lz]]), case, "")
        eq("basis of a layer", (u.conj() @ hz @ u.T) / sc, np.diag(np.linalg.eigvalsh(hz)[:nz]) / sc, case)
        res = (nx, ny, nz)
        small = 2 * (nx - 1) > sh[0] or 2 * (ny - 1) > sh[1]
        planes = np.kron(waves(nx, sh[0]), waves(ny, sh[1]))
        full = grid_hamiltonian(c, v, sh)

        def refused(clause, fn, errors):
            try:
                fn()
            except errors:
                ex(clause, True, case, "")
                return
            ex(clause, False, case, "accepted")
        if small:
            refused("too few points for the plane waves: explicit states", lambda: Z.total_surface_hamiltonian(pot, fr, res, cfg), Z.PotentialSizeError)
        else:
            for fn in (Z.total_surface_hamiltonian, Z.total_surface_hamiltonian_as_fundamental):
                r = fn(pot, fr, res, cfg)
                rb = r["basis"][0]
                u = np.asarray(BasisUtil(rb[2]).vectors).reshape(nz, sh[2])
                hz = zham(fr[2])
                eq("surface Hamiltonian: states of the layers", (u.conj() @ hz @ u.T) / sc, np.diag(np.linalg.eigvalsh(hz)[:nz]) / sc, case)
                w = np.kron(planes, u)
                want = w.conj() @ full @ w.T
                s2 = max(1, np.abs(want).max())
                eq("surface Hamiltonian of plane waves and layers", np.asarray(r["data"]).reshape(want.shape) / s2, want / s2, case)
                kb = [B.TransformedPositionBasis(d[a], res[a], sh[a] if fn is Z.total_surface_hamiltonian else res[a]) for a in (0, 1)]
                ex("surface Hamiltonian: basis", same_basis(rb[0], kb[0]) and same_basis(rb[1], kb[1]) and rb.shape == res
                   and r["basis"][1].shape == res, case, "")
        # oscillators along z
        om = hbar / (m * lz**2) * 4
        org = np.array([0, 0, -lz * (h % 4) / 4])
        scfg = {"mass": m, "sho_omega": om, "x_origin": org}
        if small:
            refused("too few points for the plane waves: oscillators", lambda: O.total_surface_hamiltonian(pot, scfg, fr, res), AssertionError)
        else:
            r = O.total_surface_hamiltonian(pot, scfg, fr, res)
            z = org[2] + np.arange(sh[2]) * lz / sh[2]
            u = np.array([sho(z, om, m, n) for n in range(nz)]) * np.sqrt(abs(lz) / sh[2])
            v2 = v3 - 0.5 * m * om**2 * z**2
            w = np.kron(planes, u)
            g0 = np.linalg.inv(d).T[:2]
            ks = np.array([[a, e] for a in np.fft.fftfreq(nx, 1 / nx) for e in np.fft.fftfreq(ny, 1 / ny)]) + fr[:2]
            exy = (2 * np.pi * hbar) ** 2 / (2 * m) * np.sum((ks @ g0) ** 2, axis=1)
            want = w.conj() @ np.diag(v2.reshape(-1)) @ w.T
            want += np.diag((exy[:, None] + hbar * om * (np.arange(nz) + 0.5)).reshape(-1))
            s2 = max(1, np.abs(want).max())
            eq("surface Hamiltonian of plane waves and oscillators", np.asarray(r["data"]).reshape(want.shape) / s2, want / s2, case)
            ex("surface Hamiltonian of oscillators: basis", r["basis"][0].shape == res and r["basis"][1].shape == res, case, "")
        ex("arguments untouched", np.array_equal(pot["data"], v) and np.array_equal(cfg["potential"]["data"], col), case, "")

    def oscillator(i, c, case):
        h = stable_hash(chk.seed, i)
        n = c["p"][0]["n"]
        d = np.array(c["D"][0], float)
        parent = B.FundamentalPositionBasis(d, n)
        t = np.array(c["num"]) / math.sqrt(c["den2"])
        s = (1.0, 0.5, 2.0)[h % 3]
        m = hbar**2
        om = s * s / hbar
        org = np.array(c["x"], float)
        eq("distances along the axis", SB.calculate_x_distances(parent, org), t, case)
        herm = np.array(c["herm"], float) / np.sqrt(float(c["den2"])) ** np.arange(4)[:, None]
        psi = np.array([herm[k] * np.exp(-t * t / 2) / math.sqrt(2**k * math.factorial(k) * math.sqrt(math.pi)) for k in range(4)])
        for k in range(4):
            eq("oscillator wavefunctions", SB.calculate_sho_wavefunction(t / s, om, m, k), psi[k] * math.sqrt(s), case)
        cfg = {"mass": m, "sho_omega": 1 / hbar, "x_origin": org}
        nn = 1 + h % 4
        dx = np.linalg.norm(d) / n
        for b in (SB.infinate_sho_basis_3d_from_config(parent, cfg, n=nn), SB.infinate_sho_basis_3d_from_config(parent, cfg, nn)):
            ex("infinite oscillator basis: size", b.n == nn and b.fundamental_n == n and np.allclose(b.delta_x, d), case, "")
            eq("infinite oscillator basis", np.asarray(BasisUtil(b).vectors).reshape(nn, n), psi[:nn] * math.sqrt(dx), case)
            eq("infinite oscillator basis at points", convert_vector(np.eye(nn), b, parent), psi[:nn] * math.sqrt(dx), case)
        q = SB.get_sho_potential_basis_config(parent, {**cfg, "sho_omega": om}, nn)
        eq("oscillator potential", q["potential"]["data"], 0.5 * m * om**2 * t**2, case)
        ex("oscillator potential: configuration", q["n"] == nn and q["mass"] == m
           and same_basis(q["potential"]["basis"], TupleBasis(B.FundamentalPositionBasis(np.array([np.linalg.norm(d)]), n))), case, "")
        if nn <= n:
            hm = np.asarray(M.total_surface_hamiltonian({"basis": q["potential"]["basis"], "data": 0.5 * s**4 * t**2 + 0j}, m)["data"]).reshape(n, n)
            b = SB.sho_basis_3d_from_config(parent, {**cfg, "sho_omega": om}, nn)
            u = np.asarray(BasisUtil(b).vectors).reshape(nn, n)
            sc = max(1, np.abs(hm).max())
            eq("oscillator basis by diagonalization", (u.conj() @ hm @ u.T) / sc, np.diag(np.linalg.eigvalsh(hm)[:nn]) / sc, case)
            ex("oscillator basis by diagonalization: size", b.n == nn and b.fundamental_n == n, case, "")

    fns = {"total": total, "layers": layers, "sho": oscillator}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {"kind": k, **{x: c[x] for x in "pDfx"}}
        chk.guard(k, case, lambda: fns[k](i, c, case))
        chk.traces += 1
    chk.assumptions += ["the compiled extension hamiltonian_generator, absent here, is replaced by a stand-in with the meaning of the package's own python version"]
