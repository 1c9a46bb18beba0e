use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
verus! {
pub fn canary_select0(v: RsVec, n: usize) requires v.wf(), { let r = v.select0(n); assert(false); }
pub fn canary_select1(v: RsVec, n: usize) requires v.wf(), { let r = v.select1(n); assert(false); }
}
