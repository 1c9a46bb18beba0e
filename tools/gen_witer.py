#!/usr/bin/env python3
"""writes proofs/witer.rs: the contracts of the wavelet matrix iterators, one copy per instance of the macro"""
import os
from gen_elemiter import inst, CALLS, ref
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "src/wavelet/mod.rs"
out = """use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::pow2::*;
use crate::wmath::*;
use crate::wavelet::*;
use crate::wquant::*;
verus! {
""" + CALLS
for pre, sort, num in (("Wavelet", False, False), ("WaveletNum", False, True), ("WaveletSorted", True, False), ("WaveletSortedNum", True, True)):
    own, bor = pre + "Iter", pre + "RefIter"
    st = pre.lower() + "structs"
    get = {(False, False): "get_value", (False, True): "get_u64", (True, False): "get_sorted", (True, True): "get_sorted_u64"}[(sort, num)]
    item = "u64" if num else "BitVec"
    val = "(r->0 as int)" if num else "bval(r->0@)"
    ok = "" if num else "r->0.wf() && r->0@.len() == VV.k() && "
    def post(v, i):
        q = f"is_kth({v}@, 0, {v}.n(), {i}, {val})" if sort else f"{val} == {v}@[{i}]"
        return "r is Some && " + ok.replace("VV", v) + q
    sp = "" if pre == "Wavelet" else ", special"
    out += f"//@@ contains {W} impl_vector_iterator!( WaveletMatrix, {own}, {bor}, {get}_unchecked, {get}, {item}{sp} );\n"
    kv = f"type=WaveletMatrix own={own} bor={bor} get_unchecked={get}_unchecked get={get} return_type={item}"
    out += f"//@@ macro src/util/general_iter.rs impl_vector_iterator 1 {st} {kv}\n"
    ex = " V.k() <= 64 &&" if num else ""
    for n, l in ((own, False), (bor, True)):
        out += inst(n.lower(), n, l, "WaveletMatrix", item, get + "_unchecked", get, post, structs=st, length="vec.n()", extra=ex)
    P = "ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.n(),"
    PO = "ensures r is Some <==> self.k() <= 64, r is Some ==> r->0.wf() && r->0.vec == self && r->0.lo() == 0 && r->0.hi() == self.n(),"
    if pre == "Wavelet":
        out += f"//@@ macro src/util/general_iter.rs impl_vector_iterator 2 wmk {kv}\n//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 winto type=WaveletMatrix own={own} bor={bor} element_type={item}\n"
        fs = [("macro:wmk WaveletMatrix::iter", "", P), ("macro:winto <WaveletMatrix as IntoIterator>::into_iter as=into_iter_own", f"//@ ret\n{own}\n", P)]
    else:
        s = {"WaveletNum": "_u64", "WaveletSorted": "_sorted", "WaveletSortedNum": "_sorted_u64"}[pre]
        fs = [(f"{W} WaveletMatrix::{x}{s}", "", PO if num else P) for x in ("iter", "into_iter")]
    out += "impl WaveletMatrix {\n"
    for h, r, e in fs:
        out += f"//@@ fn {h}\n//@ props C20\n{r}//@ spec\n    requires self.wf(),\n    {e}\n//@@ end\n"
    if pre == "Wavelet":
        out += ref("winto", "WaveletMatrix", bor, "ensures r.wf(), *r.vec == *self, r.lo() == 0, r.hi() == self.n(),")
    out += "}\n"
out += "} // verus!\n"
open(f"{V}/proofs/witer.rs", "w").write(out)
