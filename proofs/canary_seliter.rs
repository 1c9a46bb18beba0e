use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
verus! {
pub fn canary_next(v: &RsVec) requires v.wf(), v.tz() > 3, { let mut i = v.iter0(); let a = i.next(); let b = i.next_back(); let c = i.nth(0); let d = i.nth_back(0); let l = i.len(); assert(false); }
pub fn canary_next1(v: &RsVec) requires v.wf(), v.to() > 3, { let mut i = v.iter1(); let a = i.next(); let b = i.next_back(); let c = i.nth(0); let d = i.nth_back(0); let l = i.len(); assert(false); }
}
