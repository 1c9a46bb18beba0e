// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bp::*;
use crate::bpbuild::*;
verus! {
pub fn canary_build()
{
    let mut b = BpBuilder::<512>::new();
    b.enter_node();
    b.enter_node();
    b.leave_node();
    assert(b@.len() == 3);
    assert(nblocks(3, 512) <= 10);
    let r = b.build();
    assert(false);
}
} // verus!
