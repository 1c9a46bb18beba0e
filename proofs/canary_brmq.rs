// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::brmq::*;
verus! {
pub fn canary_minimum(q: &BinaryRmq)
    requires q.wf(), q.data@.len() > 10,
{
    let r = q.range_min(2, 5);
    assert(q.data@[r as int] <= q.data@[6]);
}
} // verus!
