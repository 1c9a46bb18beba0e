// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::exc::*;
use crate::mmt::*;
verus! {
pub fn canary_tree(b: &BitVec)
    requires b.wf(), 1000 < b@.len() < 2000,
{
    let t = MinMaxTree::excess_tree(b, 8);
    let r = t.fwd_search(3, 5);
    assert(r is Some);
}
} // verus!
