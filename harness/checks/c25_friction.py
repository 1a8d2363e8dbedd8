"""C25: rates of electronic friction against spec/Gamma.tla."""
import warnings

import numpy as np


def run(chk):
    from scipy.constants import electron_mass, elementary_charge, epsilon_0, hbar
    from surface_potential_analysis.dynamics import hermitian_gamma_integral as G

    eq, ex = chk.eq, chk.expect
    cs = chk.cases("Gamma", {"Seed": chk.seed, "Per": 1 if chk.thorough else 3}, init="InitG",
                   invariants=("Balance", "Telescopes", "Balanced", "Lifted", "Closed", "Scales", "Emit"), workers=8)
    chk.sample(cs[0])
    alpha = 2 * elementary_charge**2 * electron_mass / (4 * np.pi * epsilon_0 * hbar**2)
    coulomb = elementary_charge**2 / (epsilon_0 * alpha**2)
    half = hbar**2 / (2 * electron_mass)

    def prefactor(kf):
        return 4 * electron_mass * kf**3 / (hbar * 2 * np.pi) ** 3

    def over(r):
        return r[0] / r[1]

    def occ(i, c, case):
        j, m = c["j"], c["m"]
        kf = (1.2e10, 3e9)[i % 2]
        ef = half * kf**2
        # anywhere in the band
        for kt in (ef / 20, ef / 400, 2 * ef):
            unit = kt * np.log(2)
            es = np.array([ef + j * unit])
            if es[0] < 0 or es[0] + m * unit < 0:
                continue
            k = np.sqrt(es / half)
            keep = k.copy()
            cc = {**case, "kT/Ef": kt / ef}
            eq("occupation integrand", G.get_hermitian_gamma_occupation_integrand(k, omega=m * unit, k_f=kf, boltzmann_energy=kt), [over(c["at"])], cc)
            two = np.array([k, k])
            eq("occupation integrand: any shape", G.get_hermitian_gamma_occupation_integrand(two, omega=m * unit, k_f=kf, boltzmann_energy=kt), np.full((2, 1), over(c["at"])), cc)
            ex("wavevectors untouched", np.array_equal(k, keep), cc, "")
        if j != 0:
            return
        # over the whole band
        for kt in (1e-6 * ef, ef / 50, ef / 10, 3 * ef):
            unit = kt * np.log(2)
            got = G.calculate_hermitian_gamma_occupation_integral(m * unit, kf, kt)
            cc = {**case, "kT/Ef": kt / ef}
            if kt < 1e-5 * ef:
                want = over(c["all"]) * (1.0 if m == 0 else np.log(2))
                eq("occupation integral", got * 2 * half * kf / kt, want, cc, tol=1e-4)
                back = G.calculate_hermitian_gamma_occupation_integral(-m * unit, kf, kt)
                eq("detailed balance", got / back, 2.0**m, cc, tol=1e-4)
            lo, hi = max(0.0, -m * unit), ef + (50 + 2 * abs(m)) * kt
            ks = np.sqrt(np.linspace(lo, hi, 40001) / half) if kt < 1e-5 * ef else np.linspace(np.sqrt(lo / half), np.sqrt(hi / half), 40001)
            if kt > 1e-5 * ef:
                f = G.get_hermitian_gamma_occupation_integrand(ks[1:], omega=m * unit, k_f=kf, boltzmann_energy=kt)
                f = np.concatenate([[2 * f[0] - f[1]], f])
                eq("occupation integral: area", got / kf, np.trapz(f, ks) / kf, cc, tol=1e-5)

    def cold(i, c, case):
        kf = (1.2e10, 2.5e8)[i % 2]
        unit = half * (kf / c["p"]) ** 2
        for ratio in (1e-4, 1e-3):
            kt = ratio * half * kf**2 / c["p"] ** 2
            got = G.calculate_hermitian_gamma_occupation_integral(c["w"] * unit, kf, kt)
            # the edges are k T wide: half a step away from them nothing is left of it
            eq("states lifted over the Fermi level", got / kf * c["p"], c["count"], {**case, "kT": kt / unit, "w": c["w"]}, tol=0.05 if case["edge"] else 1e-3)

    def pot(i, c, case):
        r2 = c["p"] / c["q"]
        kf = alpha * np.sqrt(r2)
        a = c["j"]
        coef = complex((i % 5) - 2, (i % 3) - 1) or 2.0
        want = 2 / r2 * sum(t * over(z) for t, z in zip(c["times"], c["pieces"]))
        seen = []

        def overlap(q):
            seen.append(np.max(q))
            return coef * (1 + (q / alpha) ** 2) ** -float(a) * np.ones(np.shape(q))

        unit = prefactor(kf) * coulomb**2
        got = G.calculate_hermitian_gamma_potential_integral(kf, overlap)
        eq("potential integral", got / unit, coef * want, case, tol=1e-7)
        ex("momentum transfers", 0 <= np.min(seen) and np.max(seen) <= kf * (1 + 1e-9), case, f"{np.max(seen)}")
        # real overlaps, and overlaps of either sign
        got = G.calculate_hermitian_gamma_potential_integral(kf, lambda q: np.asarray(-(1 + (q / alpha) ** 2) ** -float(a)))
        eq("potential integral: real overlaps", got / unit, -want, case, tol=1e-7)
        kt, w = 1e-6 * half * kf**2, (i % 7 - 3) * 0.7e-6 * half * kf**2
        o = G.calculate_hermitian_gamma_occupation_integral(w, kf, kt)
        got = G.calculate_real_gamma_integral(omega=w, k_f=kf, boltzmann_energy=kt, overlap=overlap)
        eq("rate", got / (unit * o), coef * want, case, tol=1e-7)
        y = w / kt
        eq("rate: of the temperature", got / unit * 2 * half * kf / kt, coef * want * (1.0 if y == 0 else -y / np.expm1(-y)), case, tol=1e-4)
        # the smallest transfers: V -> -2
        for s in (1e-10, 1e-8, 2e-8, 1e-6, 1e-3):
            got = G.calculate_hermitian_gamma_potential_integral(alpha * s, lambda q: np.ones(np.shape(q)))
            eq("potential integral: small transfers", got / prefactor(alpha * s) / coulomb**2, 8.0, {**case, "k_f/alpha": s}, tol=1e-4)

    kinds = {"occ": occ, "cold": cold, "pot": pot}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for i, c in enumerate(cs):
            case = {x: c[x] for x in ("kind", "j", "m", "p", "q")}
            case["edge"] = c["kind"] == "cold" and (c["j"] == 0 and c["m"] == 0 or c["w"] < 0 and c["w"] > -2)
            chk.guard(c["kind"], case, lambda: kinds[c["kind"]](i, c, case))
            chk.traces += 1
    chk.assumptions += [
        "wavevectors run from zero; both the state left and the state reached are in the band",
        "the momentum transfer at angle phi is k_f sin(phi / 2), as the code states it",
    ]
