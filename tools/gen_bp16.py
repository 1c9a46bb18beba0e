#!/usr/bin/env python3
"""proofs/bp16.rs: the search functions of BpTree once more, with the feature bp_u16_lookup on.

The contracts are those of bp.rs, so what is proved above them (navigation, levels, traversals)
rests on the same contracts in both configurations."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{V}/proofs/bp.rs").read()
s = s.replace("use crate::lut::{", "use crate::lut16::{").replace("verus! {\n", "//@@ feature bp_u16_lookup\nverus! {\n", 1)
s = re.sub(r"^(//@@ fn \S+ (\S+).*)$", r"\1 key=\2(bp_u16_lookup)", s, flags=re.M)
open(f"{V}/proofs/bp16.rs", "w").write("// generated by tools/gen_bp16.py from bp.rs\n" + s)
