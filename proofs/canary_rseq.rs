use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
use crate::rseq::*;
verus! {
pub fn canary_eq(a: &RsVec, b: &RsVec) requires a.wf(), b.wf(), a.len > 5, b.len > 5, { let r = a.eq_impl(b); let s = a.full_equals(b); let t = a.sparse_equals::<true>(b); assert(false); }
}
