// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::brmq::*;
use crate::frmq::*;
verus! {
pub fn canary_minimum(q: &FastRmq)
    requires q.wf(), q.data@.len() > 1000,
{
    let r = q.range_min(200, 700);
    assert(q.data@[r as int] <= q.data@[199]);
}
} // verus!
