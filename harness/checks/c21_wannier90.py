"""C21: the exchange of files with Wannier90 (spec/Wannier90.tla)."""
from __future__ import annotations

import builtins
import re
import subprocess
from pathlib import Path

import numpy as np
from bases import make_leaf, r12, same_basis

from vlib import stable_hash


class Stand:
    """Wannier90 as its user guide has it: reads and writes files where it is started."""

    def __init__(self, c, shape, us, fail=False):
        self.c, self.shape, self.us, self.fail = c, shape, us, fail
        self.runs, self.wins, self.mmn, self.amn, self.dirs, self.asked = 0, [], [], [], [], 0

    def run(self, args, *_a, **kw):
        args = args.split() if isinstance(args, str) else list(args)
        if Path(args[0]).name != "wannier90.x":
            raise FileNotFoundError(args[0])
        if self.fail:
            raise FileNotFoundError("wannier90.x")
        self.work(Path(kw["cwd"]), args[1])
        return subprocess.CompletedProcess(args, 0)

    def ask(self, prompt=""):
        self.asked += 1
        self.work(Path(re.search(r"(/\S+)", prompt).group(1)), "spa.win")
        return ""

    def work(self, where, name):
        seed = where / name.removesuffix(".win")
        win = seed.with_suffix(".win").read_text()
        self.runs += 1
        self.dirs.append(where)
        self.wins.append(read_win(win))
        if self.wins[-1]["keys"].get("postproc_setup") == ".true.":
            nb = self.c["nbr"]
            lines = [f"{k + 1:6d}{n[0] + 1:6d}   {n[1][0]:4d}{n[1][1]:4d}{n[1][2]:4d}" for k, r in enumerate(nb) for n in r]
            seed.with_suffix(".nnkp").write_text(
                "File written on 1Jan2020 at 00:00:00 \n\ncalc_only_A  :  F\n\nbegin kpoints\n%6d\nend kpoints\n\nbegin nnkpts\n%4d\n%s\nend nnkpts\n\n"
                "begin exclude_bands\n   0\nend exclude_bands\n" % (len(nb), len(nb[0]), "\n".join(lines)))
            return
        self.mmn.append(read_mmn(seed.with_suffix(".mmn").read_text()))
        a = seed.with_suffix(".amn")
        self.amn.append(read_amn(a.read_text()) if a.exists() else None)
        u = self.us[len(self.mmn) - 1]
        n = int(round(np.sqrt(u.shape[1])))
        out = [" written on 1Jan2020 at 00:00:00 ", f"{u.shape[0]:12d}{n:12d}{n:12d}"]
        for k, b in enumerate(u):
            f = list(self.c["num"][k]) + [0] * (3 - len(self.c["num"][k]))
            out += ["", "".join(f"{v / s:15.10f}" for v, s in zip(f, [*self.shape, 1, 1]))]
            out += [f"{z.real:15.10f}{z.imag:+15.10f}" for z in b]
        (where / "spa_u.mat").write_text("\n".join(out) + "\n")


def read_win(text):
    keys, blocks, at = {}, {}, None
    for ln in text.splitlines():
        t = re.split(r"[!#]", ln)[0].strip()
        if not t:
            continue
        if t.lower().startswith("begin "):
            at = t.split()[1].lower()
            blocks[at] = []
        elif t.lower().startswith("end "):
            at = None
        elif at:
            blocks[at].append(t.split())
        else:
            k, v = re.split(r"\s*[=:]\s*|\s+", t, maxsplit=1)
            keys[k.lower()] = v.strip()
    return {"keys": keys, "blocks": blocks}


def read_mmn(text):
    ls = text.split("\n")[1:]                    # a line of comment
    ls = [x for x in ls if x.strip()]
    nb, nk, nn = map(int, ls[0].split())
    out, ls = [], ls[1:]
    for i in range(0, len(ls), nb * nb + 1):
        out.append((tuple(map(int, ls[i].split())), [complex(*map(float, x.split())) for x in ls[i + 1:i + 1 + nb * nb]]))
    return nb, nk, nn, out


def read_amn(text):
    ls = text.split("\n")[1:]
    ls = [x for x in ls if x.strip()]
    nb, nk, nw = map(int, ls[0].split())
    a = np.full((nk, nb, nw), np.nan, complex)
    for x in ls[1:]:
        m, n, k, re_, im = x.split()
        a[int(k) - 1, int(m) - 1, int(n) - 1] = complex(float(re_), float(im))
    return nb, nk, nw, a, len(ls) - 1


def run(chk):
    from surface_potential_analysis.basis import basis as B
    from surface_potential_analysis.basis.basis import FundamentalBasis
    from surface_potential_analysis.basis.stacked_basis import TupleBasis
    from surface_potential_analysis.wavepacket.localization import _wannier90 as N

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Wannier90", {"Seed": chk.seed, "Per": 1, "MaxN": 36 if chk.thorough else 24},
                   init="InitN", invariants=("Stepped", "Adjoint", "Centred", "Involution", "EmitN"), workers=8)
    chk.sample(cs[0])
    TOL = 2e-9

    def exchange(st, fn):
        keep = subprocess.run, builtins.input
        subprocess.run, builtins.input = st.run, st.ask
        try:
            return fn()
        finally:
            subprocess.run, builtins.input = keep

    def session(i, c, case):
        s = stable_hash(chk.seed, i)
        p = TupleBasis(*(B.FundamentalTransformedBasis(b["n"]) for b in c["p"]))
        q = TupleBasis(*(make_leaf(b, stable_hash(s, a), a, len(c["q"]), True) for a, b in enumerate(c["q"])))
        fb = TupleBasis(*(B.FundamentalTransformedPositionBasis(b.delta_x * a.fundamental_n, a.fundamental_n * b.fundamental_n)
                          for a, b in zip(p, q)))
        nb, nd = c["x"]["nb"], p.ndim
        d = np.array([r12(y) for y in c["data"]]).reshape(nb, p.n, q.n)
        wl = {"basis": TupleBasis(TupleBasis(FundamentalBasis(nb), p), q), "data": d.reshape(-1).copy()}
        ignored = tuple(a for a in range(nd) if c["x"]["ig"][a])
        pb = FundamentalBasis(nb)
        proj = {"basis": TupleBasis(pb, fb)}
        if c["x"]["with"]:
            proj["data"] = np.array([r12(y) for y in c["proj"]]).reshape(-1)
        it = 100 + s % 7
        opt = N.Wannier90Options(projection=proj, num_iter=it, convergence_window=4 + s % 3, convergence_tolerance=1e-7, ignore_axes=ignored)
        us = np.array([r12(y) for y in c["u"]]).reshape(p.n, nb * nb)
        full = [k for k in range(2) if k == 0 or s % 5 == 0]
        for way in full:
            st = Stand(c, [b["n"] for b in c["p"]], [us], fail=way == 1)
            if way == 0 and s % 2:
                r = exchange(st, lambda: N.localize_wavepacket_wannier90(wl, options=opt))
                eq("localized wavepackets", r["data"], np.array([r12(y) for y in c["loc"]]).reshape(-1), case, tol=TOL)
                ex("localized wavepackets: basis", same_basis(r["basis"], TupleBasis(TupleBasis(pb, p), q)), case, "")
            else:
                r = exchange(st, lambda: N.get_localization_operator_wannier90(wl, options=opt))
                eq("operator", r["data"], np.array([r12(y) for y in c["op"]]).reshape(-1), case, tol=TOL)
                ex("operator: basis", same_basis(r["basis"], TupleBasis(p, TupleBasis(pb, FundamentalBasis(nb)))), case, "")
            written(st, c, q, opt, case)
            ex("asked when Wannier90 does not start", st.asked == (2 if way else 0), case, str(st.asked))
        if not c["x"]["with"] and s % 3 == 0:
            st = Stand(c, [b["n"] for b in c["p"]], [us])
            r = exchange(st, lambda: N.get_localization_operator_wannier90({**wl}))
            eq("operator: default", r["data"], np.array([r12(y) for y in c["op"]]).reshape(-1), case, tol=TOL)
            ex("default: starts from the states", st.wins[1]["keys"].get("use_bloch_phases") == ".true.", case, "")
        ex("arguments untouched", np.array_equal(wl["data"], d.reshape(-1)), case, "")
        # the bands one at a time
        if nb > 1 and nd < 3 and not ignored and c["x"]["fam"] == "data":
            one = [us[:, b * nb + b].reshape(-1, 1) for b in range(nb)]
            st = Stand(c, [b["n"] for b in c["p"]], one)
            r = exchange(st, lambda: N.get_localization_operator_wannier90_individual_bands(wl))
            want = np.einsum("bl,bc->lbc", np.array(one)[:, :, 0], np.eye(nb))
            eq("operator of single bands", np.asarray(r["data"]).reshape(p.n, nb, nb), want, case, tol=TOL)
            ex("operator of single bands: basis", same_basis(r["basis"], TupleBasis(p, TupleBasis(FundamentalBasis(nb), FundamentalBasis(nb)))), case, "")
            ex("single bands: runs", st.runs == 2 * nb, case, str(st.runs))
            for b, (n1, nk, nn, blocks) in enumerate(st.mmn):
                ex("single bands: sizes", (n1, nk, nn) == (1, p.n, 6), case, "")
                m = np.array([r12(y) for y in np.array(c["m"]).reshape(p.n * 6, nb * nb, 4)[:, b * nb + b]]).reshape(-1)
                eq("single bands: overlaps", [x[1][0] for x in blocks], m / c["s"], case)

    def written(st, c, q, opt, case):
        nb, nk, nd = c["x"]["nb"], len(c["num"]), len(c["p"])
        ex("two runs", st.runs == 2 and len(st.mmn) == 1, case, f"{st.runs} runs")
        ex("nothing left behind", not any(d.exists() for d in st.dirs), case, str(st.dirs))
        ex("setup run first", [w["keys"].get("postproc_setup") == ".true." for w in st.wins] == [True, False], case, "")
        for w in st.wins:
            k, b = w["keys"], w["blocks"]
            ex("cell", np.allclose(np.array(b["unit_cell_cart"][-3:], float)[:nd, :nd], 1e10 * np.array([a.delta_x for a in q]), rtol=1e-12), case, str(b["unit_cell_cart"]))
            cell = np.array(b["unit_cell_cart"][-3:], float)
            ex("cell: other axes", np.allclose(cell[nd:, :nd], 0) and np.allclose(cell[:nd, nd:], 0) and abs(np.linalg.det(cell[nd:, nd:])) > 0, case, str(cell))
            ex("grid", [int(v) for v in k["mp_grid"].split()] == [a["n"] for a in c["p"]] + [1] * (3 - nd), case, k["mp_grid"])
            f = np.zeros((nk, 3))
            f[:, :nd] = np.array(c["num"], float) / np.array([a["n"] for a in c["p"]])
            eq("samples", np.array(b["kpoints"], float), f, case, tol=1e-12)
            ex("settings", int(k["num_wann"]) == nb and int(k["num_iter"]) == opt.num_iter and float(k["conv_tol"].replace("d", "e")) == opt.convergence_tolerance
               and int(k["conv_window"]) == opt.convergence_window and k["write_u_matrices"] == ".true.", case, str(k))
            ex("starting point", (k.get("use_bloch_phases") == ".true.") == (not c["x"]["with"])
               and (k.get("auto_projections") == ".true.") == bool(c["x"]["with"]), case, str(k))
        n1, n2, nn, blocks = st.mmn[0]
        ex("overlaps: sizes", (n1, n2, nn) == (nb, nk, 6) and len(blocks) == 6 * nk, case, f"{(n1, n2, nn)}")
        got = {b[0]: b[1] for b in blocks}
        for l in range(nk):
            for j, (k2, g) in enumerate(c["nbr"][l]):
                key = (l + 1, k2 + 1, *g)
                if key not in got:
                    ex("overlaps: every neighbour", False, case, f"no block {key}")
                    continue
                eq("overlaps", got[key], r12(c["m"][l][j]) / c["s"], case)
        a = st.amn[0]
        ex("projections: only when given", (a is not None) == bool(c["x"]["with"]), case, "")
        if a is not None and c["x"]["with"]:
            ex("projections: sizes", a[:3] == (nb, nk, nb) and a[4] == nb * nk * nb, case, str(a[:3]))
            eq("projections", a[3].reshape(nk, -1), np.array([r12(y, None, c["s"]) for y in c["a"]]), case)

    def sym(i, c, case):
        shape = tuple(b["n"] for b in c["p"])
        idx = np.arange(int(np.prod(shape)))
        a, b = c["x"]["a"] - 1, c["x"]["b"] - 1
        eq("mirrored samples", N.x0_symmetry_op(idx, shape, a), c["flip"], case)
        eq("exchanged samples", N.x0x1_symmetry_op(idx, shape, (a, b)), c["swap"], case)
        for j in (0, len(idx) - 1):
            eq("mirrored samples", N.x0_symmetry_op(j, shape, a), c["flip"][j], case)
            eq("exchanged samples", N.x0x1_symmetry_op(j, shape, (a, b)), c["swap"][j], case)
        basis = TupleBasis(*(B.FundamentalTransformedBasis(n) for n in shape))
        ops = [lambda v, s, a=a: N.x0_symmetry_op(v, s, a) for a in range(len(shape))]
        if hasattr(N, "_get_fundamental_k_points"):
            eq("first of equivalent samples", N._get_fundamental_k_points(basis, ops), c["first"], case)

    run_ = {"run": session, "sym": sym}
    for i, c in enumerate(cs):
        case = {f: c[f] for f in ("kind", "p", "q", "x")}
        chk.guard(c["kind"], case, lambda: run_[c["kind"]](i, c, case))
        chk.traces += 1
    chk.assumptions += [
        "Wannier90 itself is not run: subprocess.run is replaced by a stand-in that follows the file formats of its user guide, with six neighbours for each sample",
        "the container variant (docker) and the symmetry file (not implemented by the library) are not exercised",
    ]
