#!/usr/bin/env python3
"""check.py <property id> : runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
from pathlib import Path
here = Path(__file__).resolve().parent
sys.path[:0] = [str(here / "lib"), str(here / "checks")]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import build, core

try:
    mod = importlib.import_module(sys.argv[1].lower())
    rc = mod.main()
except (core.ToolError, build.BuildError) as e:
    print("CHECK-ERROR " + str(e)); rc = 2
except Exception:
    traceback.print_exc(); rc = 3
sys.exit(rc)
