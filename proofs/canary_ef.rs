// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::ef::*;
verus! {
pub fn canary_pred(q: &EliasFanoVec, n: u64)
    requires q.wf(), q@.len() > 10,
{
    let r = q.predecessor(n);
    assert(r is Some ==> r->Some_0 < n);
}
pub fn canary_get(q: &EliasFanoVec)
    requires q.wf(), q@.len() > 10,
{
    let r = q.get_unchecked(3);
    assert(false);
}
} // verus!
