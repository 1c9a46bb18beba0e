use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::itersrc::*;
use crate::bviter::*;
verus! {
// every function here must be REJECTED by the verifier
pub fn canary_bits<I: Src<u8>>(i: I) requires i.rem().len() == 70, { let b = BitVec::from_bits_iter(i); assert(false); }
pub fn canary_bools<I: Src<bool>>(i: I) requires i.rem().len() == 70, { let b = BitVec::from_bool_iter(i); assert(false); }
pub fn canary_limbs<I: Src<u64>>(i: I) requires i.rem().len() == 7, { let b = BitVec::from_limbs_iter(i); assert(false); }
pub fn canary_pack<I: Src<u16>>(i: I) requires i.rem().len() == 7, { let b = BitVec::pack_from_iter_u16(i, 5); assert(false); }
pub fn canary_next<I: Src<u16>>(i: I) requires i.rem().len() == 7, { let mut i = i; let a = i.next(); let b = i.next(); assert(false); }
}
