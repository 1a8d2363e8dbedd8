"""Author and try planted bugs.  seed.py try ID...   (scratch copy; build products included)
Prints for each: demo on the unchanged tree, stable tests with the patch, demo with the patch,
and which of the property's check (or the given checks) fires."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

V = Path("/verif")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def stable(repo):
    """Which of the stable tests no longer pass in the scratch copy."""
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
    xml = Path(repo) / ".seed_out.xml"
    sh(f". /opt/vp/env.sh; PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={repo}:/opt/vp/plugins /opt/venv/bin/python -m pytest -q "
       f"-p vp_seed_rng -p no:cacheprovider --continue-on-collection-errors -o junit_family=xunit2 --junitxml={xml} tests", repo)
    import xml.etree.ElementTree as ET

    ok = set()
    for t in ET.parse(xml).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in t):
            ok.add(f"{t.get('classname')}::{t.get('name')}")
    bad = [t for t in base if t not in ok]
    return "tests ok" if not bad else f"TESTS FAIL {bad[:3]} of {len(base)}"


def trial(i, checks=None):
    d = V / "seeded" / i
    meta = json.loads((d / "meta.json").read_text())
    scratch = Path(f"/tmp/seed/{i}")
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree("/repo", scratch / "repo", symlinks=True)
    repo = scratch / "repo"
    shutil.copytree(d, scratch / "demo")
    clean = sh(f"bash {scratch}/demo/demo.sh", repo)
    ap = sh(f"git apply {d}/patch.diff", repo)
    bad = sh(f"bash {scratch}/demo/demo.sh", repo)
    tests = stable(repo)
    res = {}
    for c in checks or [meta["property"]]:
        r = sh(f"VERIF_REPO={repo} VERIF_SEED=1 VERIF_TIER=quick python3 run.py {c}", V)
        res[c] = (r.returncode, [x for x in r.stdout.splitlines() if "clause" in x][:2])
    print(i, meta["property"], "clean", clean.returncode, "apply", ap.returncode, ap.stderr[:200], "patched", bad.returncode, "|", tests)
    if clean.returncode:
        print("   CLEAN FAILS:", (clean.stdout + clean.stderr)[-400:])
    for c, (rc, cl) in res.items():
        print("  ", c, "rc", rc, [x[:160] for x in cl])
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(p.name for p in (V / "seeded").iterdir())
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(trial, ids))
