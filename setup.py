#!/usr/bin/env python3
"""Builds the engine and every harness crate (the checks build what they need themselves; this warms the cache)."""
import concurrent.futures as cf, sys
sys.argv = sys.argv[:1]
import check
from spec import CRATES, PROPS
check.build_engine()
kinds = {(h["crate"], k) for p in PROPS.values() for h in p["quick"] for k in ((h.get("variant") or "bc"), "nwrap" if h.get("variant") == "wrap" else "native")}
with cf.ThreadPoolExecutor(4) as ex:
    rs = list(ex.map(lambda a: (a, check.cargo(*a)), sorted(kinds)))
bad = [(a, r[1]) for a, r in rs if r[0] is None]
for a, m in bad:
    print("ERROR", a, m)
sys.exit(2 if bad else 0)
