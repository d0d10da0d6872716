#!/usr/bin/env python3
"""Shows a replay file (or build/failed-claim.json) with its octet strings readable."""
import json, sys, re
def dec(v):
    if isinstance(v, str) and len(v) > 3 and len(v) % 2 == 0 and re.fullmatch("[0-9a-f]+", v): return repr(bytes.fromhex(v))[:int(sys.argv[2]) if len(sys.argv) > 2 else 1500]
    if isinstance(v, list): return [dec(x) for x in v]
    if isinstance(v, dict): return {k: dec(x) for k, x in v.items() if k != "key" or not isinstance(x, str) or len(x) < 200}
    return v
d = json.load(open(sys.argv[1]))
for k, e in enumerate(d.get("ev") or d.get("request", {}).get("ev", [])): print(k, {a: b for a, b in dec(e).items()})
for f in ("k", "exp", "observed", "expected", "stage"):
    if f in d: print(f, dec(d[f]))
