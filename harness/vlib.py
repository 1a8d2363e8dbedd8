"""Shared machinery of the checks: run TLC on a specification, collect the
behaviours it prints, compare the real code against them, report, and write
the evidence file."""
from __future__ import annotations

import contextlib
import copy
import fnmatch
import hashlib
import io
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
REPLAYS = EVID / "replays"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class MachineryError(Exception):
    """Something in the check itself is broken (never a verdict on the code)."""


class TLCResult:
    def __init__(self):
        self.cases = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.output = ""
        self.violated = None
        self.rc = 0


def _cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_cfg_value(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_cfg_value(x) for x in v) + ">>"
    raise TypeError(v)


def run_tlc(
    module,
    constants=None,
    *,
    init="Init",
    next_="Next",
    spec=None,
    invariants=("Emit",),
    properties=(),
    constraint=None,
    action_constraint=None,
    postcondition=None,
    view=None,
    files=None,
    workers=None,
    simulate=None,
    depth=None,
    timeout=800,
    heap="4g",
    seed=None,
    allow_violation=False,
    env=None,
):
    """Run TLC on SPEC/module.tla with a generated cfg. Every line printed by
    the specification as `@@<json>` becomes one entry of result.cases."""
    tmp = Path(tempfile.mkdtemp(prefix="tlc_"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, tmp / f.name)
        for name, content in (files or {}).items():
            (tmp / name).write_text(content)
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        for k, v in (constants or {}).items():
            # sequences / negative numbers are not accepted in a cfg: override by definition
            cfg.append(f"CONSTANT {k} = {_cfg_value(v)}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append("CHECK_DEADLOCK FALSE")
        (tmp / "run.cfg").write_text("\n".join(cfg) + "\n")
        if workers is None:
            workers = 1 if simulate else 4
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m",
               f"-Djava.io.tmpdir={tmp}",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", str(tmp / "meta"),
               "-config", str(tmp / "run.cfg")]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 10)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd.append(str(tmp / f"{module}.tla"))
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired as err:
            raise MachineryError(f"TLC timed out on {module}") from err
        r = TLCResult()
        r.rc = p.returncode
        r.output = p.stdout + p.stderr
        rest = []
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                r.cases.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        text = "\n".join(rest)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            r.generated = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", text)
            if m:
                r.generated = r.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|"
                      r"Temporal properties were (violated)|[Pp]ostcondition (\S+)", text)
        if m:
            r.violated = next(g for g in m.groups() if g)
        r.text = text
        if p.returncode != 0 and not (allow_violation and r.violated):
            raise MachineryError(f"TLC failed on {module} (rc={p.returncode}):\n{text[-3000:]}\n{p.stderr[-2000:]}")
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known():
    f = VERIF / "known-findings.json"
    if not f.exists():
        return []
    return json.loads(f.read_text())["findings"]


class Check:
    """One property check: collects TLC statistics and conformance results."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.clauses = {}
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.spec_runs = []
        self.known = [k for k in load_known()
                      if k["property"] == pid and k.get("status") == "known"]

    # -- specification side
    def tlc(self, module, constants=None, **kw):
        r = run_tlc(module, constants, **kw)
        self.states += r.distinct
        self.transitions += max(r.generated - 0, 0)
        self.spec_runs.append({"module": module, "distinct_states": r.distinct,
                               "generated": r.generated, "behaviours": len(r.cases),
                               "depth": r.depth})
        return r

    def cases(self, module, constants=None, **kw):
        r = self.tlc(module, constants, **kw)
        if not r.cases:
            raise MachineryError(f"{module} produced no behaviours (vacuous)")
        return r.cases

    # -- conformance side
    def sample(self, obj):
        if len(self.samples) < 5:
            self.samples.append(obj)

    def ok(self, clause, n=1):
        self.clauses[clause] = self.clauses.get(clause, 0) + n
        self.evals += n

    def fail(self, clause, case, detail):
        """Record that the real code disagrees with the specification."""
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        self.evals += 1
        text = f"{clause} | {json.dumps(case, default=str, sort_keys=True)} | {detail}"
        for k in self.known:
            if k["clause"] == clause and all(
                fnmatch.fnmatchcase(text, pat) for pat in k.get("match", [])
            ):
                self.known_hit.setdefault(k["id"], k)
                return
        if len(self.violations) < 200:
            self.violations.append({"clause": clause, "case": case, "detail": str(detail)})

    def expect(self, clause, cond, case, detail=""):
        if cond:
            self.ok(clause)
        else:
            self.fail(clause, case, detail() if callable(detail) else detail)
        return bool(cond)

    def guard(self, clause, case, fn):
        """Run fn (a replay of one behaviour on the real code). An exception is
        itself a disagreement: the specification has no raising behaviour here."""
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                return fn()
        except MachineryError:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            loc = ""
            for fr in tb[::-1]:
                if "surface_potential_analysis" in fr.filename:
                    loc = f" at {fr.filename.split('surface_potential_analysis/')[-1]}:{fr.name}"
                    break
            self.fail(clause, case, f"raised {type(e).__name__}: {e}{loc}")
            return None

    def eq(self, clause, got, want, case, tol=1e-9):
        """Numerical agreement of an array with the value the spec prescribes."""
        import numpy as np

        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.fail(clause, case, f"shape {g.shape}, specified {w.shape}")
                return False
            if g.size == 0:
                self.ok(clause)
                return True
            if g.dtype == object:
                g = g.astype(complex)
            scale = max(1.0, float(np.max(np.abs(w))))
            d = np.abs(g - w)
            bad = not np.all(np.isfinite(g)) or float(np.max(d)) > tol * scale
        except Exception as e:  # noqa: BLE001
            self.fail(clause, case, f"not comparable: {type(e).__name__}: {e}")
            return False
        if bad:
            idx = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape)
            self.fail(clause, case,
                      f"at {tuple(int(i) for i in idx)}: got {g[idx]!r}, specified {w[idx]!r}")
            return False
        self.ok(clause)
        return True

    # -- end
    def finish(self):
        wall = time.time() - self.t0
        EVID.mkdir(exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "comparisons": self.evals,
            "clauses": dict(sorted(self.clauses.items())),
            "spec_runs": self.spec_runs,
            "samples": self.samples or ["none"],
        }
        (EVID / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }, indent=1, default=str) + "\n")
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']}")
        rep = REPLAYS / f"{self.pid}.json"
        if self.violations:
            REPLAYS.mkdir(exist_ok=True)
            rep.write_text(json.dumps({"property": self.pid, "violations": self.violations[:50]},
                                      indent=1, default=str))
            seen = set()
            for v in self.violations:
                if v["clause"] in seen:
                    continue
                seen.add(v["clause"])
                print(f"  clause {v['clause']}: {v['detail'][:300]}  case={json.dumps(v['case'], default=str)[:300]}")
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        if rep.exists():
            rep.unlink()
        print(f"OK property={self.pid} states={self.states} traces={self.traces} "
              f"comparisons={self.evals} wall={wall:.1f}s")
        return 0


def stable_hash(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:4], "big")


# ---------------------------------------------------------------- exact values
def cyc(terms, n):
    """Sum of c * exp(2 pi i k / n) over the [k, c] pairs of `terms`."""
    s = 0j
    for k, c in terms:
        a = 2 * math.pi * ((k % n) / n)
        s += c * complex(math.cos(a), math.sin(a))
    return s


def gauss(x):
    """Gaussian-integer literals [re, im] (nested lists thereof) -> complex array."""
    import numpy as np

    a = np.asarray(x, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def frozen(x):
    return copy.deepcopy(x)
