use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
verus! {
// every function here must be REJECTED by the verifier
pub fn canary_bitvec_new() { let v = BitVec::new(); assert(false); }
pub fn canary_bitvec_hist(w: u64, n: usize) requires n <= 64 {
    let mut v = BitVec::from_zeros(100); v.append_bits(w, n); v.drop_last(3); let r = v.get_bits(5, 17); assert(false);
}
pub proof fn canary_wbit(a: u64, b: u64) { broadcast use group_wbit; let c = a | b; let d = a & !b; assert(wbit(c, 3) == wbit(d, 3)); }
}
