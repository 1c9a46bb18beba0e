#!/usr/bin/env python3
"""writes MANIFEST.json and proofs/COVERAGE.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "contracts on the extracted source, discharged by Verus (Z3)"
BND = "bounded concrete check (stand-in: no contract discharged yet)"
B = "concrete inputs only: exhaustive short inputs plus seeded structured/random inputs up to a few thousand (thorough: tens of thousands of) elements"
COV = {
 # id: (level, bounded functions, note)
 "C01": ("proof", [], "iterators given to the iterator-generic constructors are assumed to yield a finite sequence in order (nothing is assumed of size_hint)"),
 "C02": ("proof", [], "same assumption on iterator arguments as C01"),
 "C03": ("proof", [], "hashing is verified against a recording hasher"),
 "C04": ("proof", [], "quantified over every closure that is bitwise"),
 "C05": ("proof", [], ""),
 "C06": ("proof", [], "the AVX-512 variants of the block search and the PDEP variant of the word search are under contract too; the intrinsics they use are assumed (and tested) to do what Intel documents, and BlockDescriptor to be laid out as one u16"),
 "C07": ("proof", [], ""),
 "C08": ("proof", [], "includes the AVX-512 iterators bit_set_iter0/1; the intrinsics are assumed as in C06"),
 "C09": ("proof", [], "inputs of at most 2^50 elements; the f64 logarithm used to choose the split is assumed monotone, exact on powers of two and off by at most one"),
 "C10": ("proof", [], "inputs of at most 2^50 elements; same assumption on the f64 logarithm as C09"),
 "C11": ("proof", [], "inputs of at most 2^50 elements; same assumption on the f64 logarithm as C09"),
 "C12": ("proof", [], "inputs of at most 2^32 - 1 elements (the documented limit)"),
 "C13": ("proof", [], "inputs of fewer than 2^39 elements"),
 "C14": ("proof", [], "sequences whose level bit vectors stay within the limits of C05; usize::reverse_bits, Vec::into_boxed_slice and collecting a range into a vector are assumed"),
 "C15": ("proof", [], ""),
 "C16": ("proof", [], ""),
 "C17": ("proof", [], "sequences of at most 2^56 parentheses in at most 2^40 blocks, relative excess at most 2^60 in magnitude; derived Default/Clone of the min-max tree nodes, u8/u16::count_ones/count_zeros and i64::abs are assumed; the f64 logarithm is not involved"),
 "C18": ("proof", [], "limits and assumptions of C17"),
 "C19": ("proof", [], "limits and assumptions of C17, levels of at most 2^60; the standard library's skip, take and map adapters are assumed to mean what their documentation says; Iterator types returned as impl Iterator are stated by their concrete types"),
 "C20": ("proof", [], ""),
 "C22": ("proof", ["the standard library's target-specific code"], "each cfg-selected variant (portable and AVX-512 block search, 8-bit and 16-bit lookup, software and BMI2 bit deposit, the SIMD position iterator) is proved against the same contract, which determines the result; the AVX-512 and BMI2 intrinsics are assumed (and tested) to do what Intel documents. A failed obligation in code shared by the variants is not reported here"),
}
exec(open(f"{V}/tools/levels.py").read()) if os.path.exists(f"{V}/tools/levels.py") else None
checks, cov = [], {}
for p, (lvl, bounded, note) in COV.items():
    pr = lvl == "proof"
    ln = ("Every obligation of the listed functions is discharged for all inputs, on text extracted from /repo on each run." if pr else
          "Bounded: the real crate is compared with a naive oracle on enumerated and seeded inputs; nothing is proved.")
    if note: ln += " " + note + "."
    if bounded and pr: ln += " Bounded (concrete inputs) only: " + "; ".join(bounded) + "."
    ln += " Trusted: Verus/Z3, the extractor's listed rewrites, assumed contracts of library functions named in the evidence."
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "technique": PROOF if pr else BND, "level": lvl, "level_note": ln})
    cov[p] = {"bounded": bounded, "bound": B, "assumptions": []}
na = [
 {"property": "C21", "reason": "serialisation is code generated by serde's derive macros; there is no function in /repo to put under contract, and serde's generated visitor code and formats are outside Verus's dialect"},
]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks are used in /repo. check.py rebuilds extractor, harness and proof from /repo's working tree on each run; see DESIGN.md."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
json.dump(cov, open(f"{V}/proofs/COVERAGE.json", "w"), indent=1)
