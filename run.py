#!/usr/bin/env python3
"""Entry point: run.py <property id>  (exit 0 held, 1 violation, 2 machinery)."""
import importlib
import os
import sys
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent
VENV = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/opt/vp/no-pycache",
    "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/tmp/verif-mpl", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "LANG": "C.UTF-8",
}


def main():
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        for k in ("PYTHONHOME", "PYTHONPATH"):
            env.pop(k, None)
        env.update(ENV)
        env["VERIF_REEXEC"] = "1"
        os.execve(VENV, [VENV, *sys.argv], env)
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.path.insert(0, str(VERIF / "harness"))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import vlib

    mod = next((VERIF / "harness" / "checks").glob(pid.lower() + "_*.py")).stem
    chk = vlib.Check(pid)
    try:
        m = importlib.import_module("checks." + mod)
        m.run(chk)
    except vlib.MachineryError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
        return 2
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        # An exception that escapes from the library itself (for example at
        # import, or in a call with specified arguments) is a disagreement.
        if tb and any("surface_potential_analysis" in f.filename for f in tb):
            chk.fail("library raises", {"trace": traceback.format_exc()[-1500:]},
                     f"{type(e).__name__}: {e}")
        else:
            traceback.print_exc()
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
