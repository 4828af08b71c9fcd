#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and the list of what is not claimed."""
import json, os
from spec import PROPS
NA = []
try:
    from na import NA
except ImportError:
    pass
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, s in sorted(PROPS.items()):
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique="symbolic execution of the LLVM bitcode of the real code, z3 decides every branch and assertion (QF_BV)",
                       level="model_checking",
                       level_note="bounded: " + s["bounds"] + (". Outside: " + s["outside"] if s.get("outside") else "")))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NA), open(f"{here}/MANIFEST.json", "w"), indent=1)
