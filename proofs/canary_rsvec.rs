use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
verus! {
pub fn canary_rsvec(n: usize) { let v = RsVec::from_bit_vec(BitVec::from_zeros(1000)); let r = v.rank0(n); let s = v.rank1(n); assert(false); }
}
