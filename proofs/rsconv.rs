use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
verus! {
impl RsVec {
//@@ fn src/bit_vec/fast_rs_vec/mod.rs <RsVec as From>::from as=from_bv
//@ props C07 C14 C17 C18 C19
//@ spec
    requires vec.wf(), vec.len <= usize::MAX - 63,
    ensures r.wf(), r@ == vec@, r.len == vec.len,
//@@ end
}
} // verus!
