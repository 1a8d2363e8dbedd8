#!/usr/bin/env python3
"""Nothing is compiled: verify the toolchain, and that every specification parses."""
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
tmp = Path(tempfile.mkdtemp(prefix="setup_"))
try:
    for f in (V / "spec").glob("*.tla"):
        shutil.copy(f, tmp)
    bad = []
    for f in sorted(tmp.glob("*.tla")):
        p = subprocess.run(["java", f"-Djava.io.tmpdir={tmp}", "-cp", JARS, "tla2sany.SANY", f.name],
                           cwd=tmp, capture_output=True, text=True)
        if p.returncode != 0:
            bad.append((f.name, p.stdout[-500:]))
    for b in bad:
        print("does not parse:", *b)
    subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy"], check=True)
    (V / "evidence").mkdir(exist_ok=True)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
