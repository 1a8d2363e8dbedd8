"""C16: coherent evolution and what stochastic solvers are asked to solve (spec/Evolution.tla)."""
from __future__ import annotations

import contextlib
import importlib.util
import io
import sys
import types

import numpy as np
import scipy.linalg
from bases import make_leaf, r12, same_basis
from scipy.constants import hbar

from vlib import stable_hash

UNIT = 2 * np.pi * hbar / 12      # energy unit times one tick


def evolve(h, psi, n, step, dt):
    u = scipy.linalg.expm(-1j * np.asarray(h) * dt * step)
    out = [np.asarray(psi, complex)]
    for _ in range(n - 1):
        out.append(u @ out[-1])
    return np.array(out[:n])


def unband(diagonals, offsets, n):
    """Diagonal d holds O[c + d, c] at column c."""
    out = np.zeros((n, n), complex)
    for row, d in zip(diagonals, offsets, strict=True):
        for c in range(n):
            out[(c + d) % n, c] += row[c]
    return out


class Solver:
    """Stands in for the compiled sse_solver_py: evolves exactly, without noise, and keeps what it was given."""

    def __init__(self):
        self.calls = []

    def config(self, **kw):
        return types.SimpleNamespace(**kw)

    def dense(self, initial_state, hamiltonian, operators, config):
        self.calls.append((np.array(hamiltonian), [np.array(o) for o in operators], np.array(initial_state), config))
        h = np.array(hamiltonian)
        return np.array([evolve(h, initial_state, config.n, config.step, config.dt) * (1 + t) for t in range(config.n_trajectories)]).reshape(-1).tolist()

    def banded(self, initial_state, diagonals, offsets, op_diagonals, op_offsets, config):
        n = len(initial_state)
        return self.dense(initial_state, unband(diagonals, offsets, n),
                          [unband(a, b, n) for a, b in zip(op_diagonals, op_offsets, strict=True)], config)

    def ssesolve(self, kick):
        """Stands in for qutip.ssesolve."""
        def fn(H, psi0, tlist, sc_ops=(), heterodyne=False, *, e_ops=(), args=None, ntraj=500, options=None, **kw):  # noqa: N803
            import qutip

            h, p = np.array(H.full()), psi0.full().reshape(-1)
            self.calls.append((h, [o.full() for o in sc_ops], p, types.SimpleNamespace(times=np.array(tlist), ntraj=ntraj, options=dict(options or {}))))
            states = []
            for r in range(ntraj):
                row = [scipy.linalg.expm(-1j * h * (t - tlist[0])) @ p for t in tlist]
                states.append([qutip.Qobj(kick(r, v) if a else v) for a, v in enumerate(row)])
            return types.SimpleNamespace(states=states)
        return fn


def run(chk):
    solver = Solver()
    if importlib.util.find_spec("sse_solver_py") is None:
        m = types.ModuleType("sse_solver_py")
        m.SimulationConfig, m.solve_sse, m.solve_sse_banded = solver.config, solver.dense, solver.banded
        m.solve_sse_euler_bra_ket = None
        m.SSEMethod = str
        sys.modules["sse_solver_py"] = m
    import qutip
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.basis_like import convert_vector
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, ExplicitTimeBasis
    from surface_potential_analysis.dynamics import tunnelling_basis as TB
    from surface_potential_analysis.dynamics.schrodinger import solve as C
    from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as S

    S.SimulationConfig, S.solve_sse, S.solve_sse_banded = solver.config, solver.dense, solver.banded
    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Evolution", {"Seed": chk.seed, "Per": 2 if chk.thorough else 6, "MaxN": 18 if chk.thorough else 12},
                   invariants=("Conserved", "Additive", "Stationary", "Banded", "Rated", "Emit"), workers=8)
    chk.sample(cs[0])

    def basis(ls, s):
        return TupleBasis(*(make_leaf(a, stable_hash(s, k), k, len(ls)) for k, a in enumerate(ls)))

    def same_times(a, b):
        return a.n == b.n and np.allclose(a.times, b.times)

    def quiet(fn, *a, **kw):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return fn(*a, **kw)

    def grid(c, tick, step=None, off=None):
        step = c["step"] if step is None else step
        off = c["off"] if off is None else off
        return EvenlySpacedTimeBasis(c["nt"], step, off, tick * c["nt"] * step)

    def unitary(i, c, case):
        h = stable_hash(chk.seed, i)
        b = basis(c["p"], h)
        n = b.n
        tick = (1.0, 3e-15, 2e-9)[h % 3]
        hm = r12(c["h"], (n, n), c["s"] ** 2)
        psi = r12(c["psi"])
        want = np.array([r12(v) for v in c["out"]]).reshape(c["nt"], n) / c["s"]
        ham = {"basis": TupleBasis(b, b), "data": (hm * UNIT / tick).reshape(-1)}
        hd = ham["data"].copy()
        st = {"basis": b, "data": psi.copy()}
        ts = grid(c, tick)
        for t in (ts, ExplicitTimeBasis(np.array(ts.times))):
            r = quiet(C.solve_schrodinger_equation_decomposition, st, t, ham)
            eq("evolution by eigenstates", np.asarray(r["data"]).reshape(c["nt"], n), want, case, tol=1e-8)
            ex("evolution by eigenstates: basis", same_times(r["basis"][0], t) and same_basis(r["basis"][1], b), case, "")
        u = r12(c["u"], (n, n), c["s"])
        fb = FundamentalBasis(n)
        dec = C.get_state_vector_decomposition(st, {"basis": TupleBasis(fb, b), "data": u.conj().reshape(-1), "eigenvalue": np.array(c["energy"], complex)})
        eq("amplitudes of eigenstates", dec["data"], u @ psi, case)
        norm = np.linalg.norm(psi)
        if n <= 6 and c["off"] == 0 and h % 7 == 0 and c["nt"] > 1 and norm > 0:
            t = grid(c, tick, c["step"] * 1000)
            t = EvenlySpacedTimeBasis(c["nt"], 1000, 0, tick * c["nt"] * c["step"])
            r = quiet(C.solve_schrodinger_equation, {"basis": b, "data": psi / norm}, t, ham)
            eq("evolution by integration", np.asarray(r["data"]).reshape(c["nt"], n), want / norm, case, tol=1e-3)
            ex("evolution by integration: basis", same_times(r["basis"][0], t) and same_basis(r["basis"][1], b), case, "")
        if c["off"] == 0 and norm > 0:
            stochastic(i, c, case, b, hm, psi, want, ham, st, tick)
        ex("arguments untouched", np.array_equal(ham["data"], hd) and np.array_equal(st["data"], psi), case, "")

    def stochastic(i, c, case, b, hm, psi, want, ham, st, tick):
        h = stable_hash(chk.seed, i)
        n, nt = b.n, c["nt"]
        ts = grid(c, tick)
        ntraj = 1 + h % 3
        lm = [r12(v, (n, n)) for v in c["ls"]][:h % 4]
        if not all(np.abs(x).max() > 0 for x in lm):
            lm = []
        ls = [{"basis": TupleBasis(b, b), "data": (x * np.sqrt(UNIT / tick)).reshape(-1)} for x in lm]
        ld = [x["data"].copy() for x in ls]
        fac = 2 * np.pi / 12

        def judge(name, call, ratio, noise, r, kicks):
            hh, ll, p0, _ = call
            eq(f"{name}: hamiltonian", hh * ratio / fac, hm * c["step"], case, tol=1e-6)
            if noise:
                ex(f"{name}: number of collapse operators", len(ll) == len(lm), case, str(len(ll)))
                for a, x in zip(ll, lm):
                    eq(f"{name}: collapse operators", a * np.sqrt(ratio / fac), x * np.sqrt(c["step"]), case, tol=1e-6)
            eq(f"{name}: state", p0, psi, case)
            eq(f"{name}: trajectories", np.asarray(r["data"]).reshape(ntraj, nt, n), np.array([want * k for k in kicks]), case, tol=1e-6)
            ex(f"{name}: basis", tuple(r["basis"][0].shape) == (ntraj, nt) and same_times(r["basis"][0][1], ts) and same_basis(r["basis"][1], b), case, "")
        args = {"n_trajectories": ntraj}
        none = not lm and h % 2
        solver.calls.clear()
        r = quiet(S.solve_stochastic_schrodinger_equation_rust, st, ts, ham, None if none else ls, **args, n_realizations=2)
        cf = solver.calls[-1][3]
        ex("dense solver: run", (cf.n, cf.n_trajectories, cf.n_realizations) == (nt, ntraj, 2), case, lambda: str(cf))
        judge("dense solver", solver.calls[-1], cf.dt * cf.step, True, r, 1 + np.arange(ntraj))
        r = quiet(S.solve_stochastic_schrodinger_equation_rust, st, ts, ham, *([] if none else [ls]))
        cf = solver.calls[-1][3]
        ex("dense solver: usual run", (cf.n, cf.n_trajectories, cf.n_realizations) == (nt, 1, 1) and tuple(r["basis"][0].shape) == (1, nt), case, lambda: str(cf))
        if none:
            ex("dense solver: no collapse operators", len(solver.calls[-1][1]) == 0, case, "")
        if lm or np.abs(hm).max() > 0:
            ob = basis(c["p"], h + 17)
            fl = TupleBasis(*(FundamentalBasis(a["nf"]) for a in c["p"]))
            full = [convert_vector(np.eye(n, dtype=complex), x, fl) for x in (b, ob)]
            to = full[1].conj() @ full[0].T
            other = h % 2 == 0 and np.allclose(to.conj().T @ to, np.eye(n))
            s2 = {"basis": ob, "data": to @ psi} if other else st
            l2 = [{"basis": TupleBasis(ob, ob), "data": (to @ o["data"].reshape(n, n) @ to.conj().T).reshape(-1)} for o in ls] if other else ls
            solver.calls.clear()
            r = quiet(S.solve_stochastic_schrodinger_equation_rust_banded, s2, ts, ham, None if none else l2, **args, n_realizations=3, method="Milsten")
            cf = solver.calls[-1][3]
            ex("banded solver: run", (cf.n, cf.n_trajectories, cf.n_realizations, cf.method) == (nt, ntraj, 3, "Milsten"), case, lambda: str(cf))
            judge("banded solver", solver.calls[-1], cf.dt * cf.step, True, r, 1 + np.arange(ntraj))
            exact = solver.calls[-1]
            # a run of a single trajectory, as usual; bands and parts of at most a threshold may be left out, and only those
            r = quiet(S.solve_stochastic_schrodinger_equation_rust_banded, s2, ts, ham, l2)
            cf = solver.calls[-1][3]
            ex("banded solver: usual run", (cf.n, cf.n_trajectories, cf.n_realizations, cf.method) == (nt, 1, 1, "Euler"), case, lambda: str(cf))
            ex("banded solver: usual run, basis", tuple(r["basis"][0].shape) == (1, nt), case, "")
            sizes = np.sort(np.abs(exact[0][np.abs(exact[0]) > 1e-9]).ravel()) if np.any(np.abs(exact[0]) > 1e-9) else np.array([1.0])
            thr = float(sizes[len(sizes) // 2]) * 1.01 * exact[3].dt
            r = quiet(S.solve_stochastic_schrodinger_equation_rust_banded, s2, ts, ham, l2, **args, r_threshold=thr)
            cut = solver.calls[-1]
            ex("banded solver with a threshold: run", (cut[3].n, cut[3].n_trajectories, cut[3].dt) == (nt, ntraj, exact[3].dt) and len(cut[1]) == len(exact[1]), case, lambda: str(cut[3]))
            for a, x in zip([cut[0], *cut[1]], [exact[0], *exact[1]]):
                for part in (np.real, np.imag):
                    kept = np.abs(part(a) - part(x)) <= 1e-7
                    gone = (part(a) == 0) & (np.abs(part(x)) <= thr / exact[3].dt * (1 + 1e-6))
                    ex("banded solver with a threshold: what is above it is kept", bool(np.all(kept | gone)), case, lambda a=a, x=x: f"{a.tolist()} of {x.tolist()}")
                d = np.arange(n)
                for o in range(n):
                    band = np.abs(x[(d + o) % n, d])
                    if np.linalg.norm(band) < 0.99 * thr / exact[3].dt:
                        ex("banded solver with a threshold: bands below it are left out", not np.any(a[(d + o) % n, d]), case, lambda a=a, x=x: f"{a.tolist()} of {x.tolist()}")
        keep = qutip.ssesolve
        try:
            solver.calls.clear()
            qutip.ssesolve = solver.ssesolve(lambda k, v: v * np.exp(1j * k))
            if S.__dict__.get("ssesolve") is not None:
                S.ssesolve = qutip.ssesolve
            r = quiet(S.solve_stochastic_schrodinger_equation, st, ts, ham, None if none else ls, **args)
            hh, ll, p0, cf = solver.calls[-1]
            eq("qutip solver: times", cf.times / tick, c["step"] * np.arange(nt), case)
            ex("qutip solver: trajectories", cf.ntraj == ntraj, case, "")
            first = np.arange(nt) == 0
            judge("qutip solver", solver.calls[-1], tick * c["step"], True, r,
                  [np.where(first, 1, np.exp(1j * k))[:, None] for k in range(ntraj)])
            r = quiet(S.solve_stochastic_schrodinger_equation, st, ts, ham, *([] if none else [ls]))
            ex("qutip solver: usual run", solver.calls[-1][3].ntraj == 1 and tuple(r["basis"][0].shape) == (1, nt) and len(solver.calls[-1][1]) == (0 if none else len(lm)), case, "")
            if n <= 6 and nt > 1 and h % 5 == 0:
                localized(i, c, case, b, st, ham, ls, tick, h)
        finally:
            qutip.ssesolve = keep
        ex("collapse operators untouched", all(np.array_equal(x["data"], y) for x, y in zip(ls, ld)), case, "")

    def localized(i, c, case, b, st, ham, ls, tick, h):
        """Realizations are replaced by the eigenstates of their average."""
        n, nt = b.n, c["nt"]
        ts = grid(c, tick)
        hm = ham["data"].reshape(n, n)
        phases = np.exp(1j * np.arange(n) * (0.0 if h % 3 == 0 else 0.7))
        qutip.ssesolve = solver.ssesolve(lambda k, v: v * phases if k else v)
        psi = st["data"] / np.linalg.norm(st["data"])
        reps = 40
        nr, start = 2 + (h // 5) % 2, len(solver.calls)
        r = quiet(S.solve_stochastic_schrodinger_equation_localized, {"basis": b, "data": psi.copy()}, ts, ham, ls, n_trajectories=reps, **({} if nr == 2 else {"n_realizations": nr}))
        ex("localized solver: realizations of each step", all(x[3].ntraj == nr and len(x[1]) == len(ls) for x in solver.calls[start:]), case, "")
        d = np.asarray(r["data"]).reshape(reps, nt, n)
        ex("localized solver: basis", tuple(r["basis"][0].shape) == (reps, nt) and same_times(r["basis"][0][1], ts) and same_basis(r["basis"][1], b), case, "")
        u = scipy.linalg.expm(-1j * hm * tick * c["step"] / hbar)
        high, mean, var = 0, 0.0, 0.0
        for k in range(reps):
            eq("localized solver: start", d[k, 0], psi, case)
            for t in range(1, nt):
                s1 = u @ d[k, t - 1]
                rho = (np.outer(s1, s1.conj()) + (nr - 1) * np.outer(phases * s1, (phases * s1).conj())) / nr
                v = d[k, t]
                e = np.linalg.eigvalsh(rho)
                eq("localized solver: norm", np.linalg.norm(v), 1, case, tol=1e-6)
                occ = (v.conj() @ rho @ v).real
                eq("localized solver: eigenstate of the average", rho @ v, occ * v, case, tol=1e-6)
                if t == 1:
                    high += occ > 0.5
                    mean += e[-1]
                    var += e[-1] * (1 - e[-1])
                if occ < 1e-9:
                    ex("localized solver: occupied", False, case, str(e))
        one = quiet(S.solve_stochastic_schrodinger_equation_localized, {"basis": b, "data": psi.copy()}, ts, ham)
        ex("localized solver: usual run", tuple(one["basis"][0].shape) == (1, nt) and solver.calls[-1][1] == [], case, "")
        ex("localized solver: occupation", abs(high - mean) <= 7 * np.sqrt(max(var, 0)) + 1e-3 or abs(mean / reps - 0.5) < 1e-3, case, f"{high} {mean}")

    def diagonal(i, c, case):
        h = stable_hash(chk.seed, i)
        b, q = basis(c["p"], h), basis(c["q"], h + 1)
        tick = (1.0, 3e-15, 2e-9)[h % 3]
        psi = r12(c["psi"])
        want = np.array([r12(v) for v in c["out"]]).reshape(c["nt"], b.n) / np.sqrt(c["s"])
        e = np.array(c["energy"], float if h % 2 else complex) * UNIT / tick
        ham = {"basis": TupleBasis(b, b), "data": e.copy()}
        st = {"basis": q, "data": psi.copy()}
        ts = grid(c, tick)
        r = quiet(C.solve_schrodinger_equation_diagonal, st, ts, ham)
        eq("evolution by a diagonal hamiltonian", np.asarray(r["data"]).reshape(c["nt"], b.n), want, case, tol=1e-8)
        ex("evolution by a diagonal hamiltonian: basis", same_times(r["basis"][0], ts) and same_basis(r["basis"][1], b), case, "")
        ex("arguments untouched", np.array_equal(ham["data"], e) and np.array_equal(st["data"], psi), case, "")

    def jumps(i, c, case):
        nb, (s0, s1) = c["nt"], (a["n"] for a in c["p"])
        jump = np.array(c["jump"], float)
        a = np.array(c["a"], float)
        n = len(a)
        to = np.array(c["to"])
        hops = [tuple(x) for x in c["hops"]]
        bb = TB.TunnellingSimulationBandsBasis(np.array([[k / 4, 1 - k / 3] for k in range(nb)]).T.copy(), (np.array([2.0, 0.0]), np.array([1.0, 3.0])))
        b = TB.get_basis_from_shape((s0, s1), nb, bb)
        mat = {"basis": TupleBasis(b, b), "data": a.reshape(-1).copy()}
        mats = lambda ops: [np.asarray(o["data"]).reshape(n, n) for o in ops]  # noqa: E731
        ops = S.get_collapse_operators_from_a_matrix(mat)
        off = a * (1 - np.eye(n))
        ms = mats(ops)
        ex("operators of single jumps: one each", len(ms) == np.count_nonzero(off) and all(np.count_nonzero(x) == 1 for x in ms), case, "")
        eq("operators of single jumps", np.sum(ms, axis=0) if ms else np.zeros((n, n)), off, case)
        ex("operators of single jumps: basis", all(same_basis(o["basis"], mat["basis"]) for o in ops[:1]), case, "")
        ex("operators of single jumps: argument untouched", np.array_equal(mat["data"], a.reshape(-1)), case, "")
        for factor in (1, 2.5):
            ops = S.get_simplified_collapse_operators_from_a_matrix(mat, factor=factor) if factor != 1 else S.get_simplified_collapse_operators_from_a_matrix(mat)
            ms = mats(ops)
            want = []
            for n0 in range(nb):
                for n1 in range(nb):
                    for hop in range(9):
                        if n0 != n1 and factor * jump[n0, n1, hop] >= 1:
                            w = np.zeros((n, n))
                            for cell in range(s0 * s1):
                                w[to[hop, cell] * nb + n1, cell * nb + n0] = np.sqrt(factor * jump[n0, n1, hop])
                            want.append(w)
            ex("operators of jumps between bands: number", len(ms) == len(want), case, f"{len(ms)} {len(want)}")
            order = lambda x: sorted(np.abs(x).reshape(-1, n * n).tolist())  # noqa: E731
            eq("operators of jumps between bands", order(np.array(ms)), order(np.array(want)), case)
        seen = set()

        def fn(n0, n1, origin, d):
            seen.add((n0, n1, tuple(int(v) for v in origin), tuple(int(v) for v in d)))
            return float(jump[n0, n1, hops.index(tuple(int(v) for v in d))])
        if s0 * s1 * nb <= 27:
            ops = S.get_collapse_operators_from_function((s0, s1), bb, fn)
            ms = mats(ops)
            ex("operators of a function: single jumps", all(np.count_nonzero(x) <= 1 for x in ms), case, "")
            eq("operators of a function", np.sum(ms, axis=0) * (1 - np.eye(n)), off, case)

    kinds = {"unitary": unitary, "diagonal": diagonal, "jumps": jumps}
    for i, c in enumerate(cs):
        k = c["kind"]
        case = {x: c[x] for x in ("kind", "p", "q", "nt", "step", "off", "fam")}
        chk.guard(k, case, lambda: kinds[k](i, c, case))
        chk.traces += 1
    chk.assumptions += ["the compiled sse_solver_py and qutip.ssesolve are replaced by exact noiseless evolution of the operators they are given"]
