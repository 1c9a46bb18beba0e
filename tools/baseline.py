#!/usr/bin/env python3
"""records the hashes of the functions under contract on the unchanged tree (proofs/BASELINE.json)"""
import json, subprocess, sys, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# names of the functions and constants of the tree: functions the tree does not have are written out at their calls
names = set()
for d, _, fs in os.walk("/repo/src"):
    for f in fs:
        if f.endswith(".rs"):
            p = os.path.join(d, f)
            names |= {f"{os.path.relpath(p, '/repo')}::{n}" for n in re.findall(r"\b(?:fn|const|static)\s+(?!fn\b)([A-Za-z_]\w*)", open(p).read())}
open(f"{V}/proofs/NAMES", "w").write("\n".join(sorted(names)) + "\n")
ms = open(f"{V}/proofs/ORDER").read().split()
subprocess.run([f"{V}/build/x/release/vextract", "/repo", f"{V}/build/b.rs", f"{V}/build/b.json"] + [f"{V}/proofs/{m}.rs" for m in ms], check=True)
j = json.load(open(f"{V}/build/b.json"))
assert not j["errors"], j["errors"]
out = {}
for f in j["functions"]:
    out.setdefault(f["key"], set()).add(f["hash"])
json.dump({k: sorted(v) for k, v in out.items()}, open(f"{V}/proofs/BASELINE.json", "w"), indent=0, sort_keys=True)
