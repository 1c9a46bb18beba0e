// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bpspec::*;
use crate::bp16::*;
verus! {
pub fn canary_fwd(t: &BpTree<512>, n: usize, e: i64)
    requires t.wf(), n < t@.len(), -100 <= e <= 100,
{
    let r = t.fwd_search(n, e);
    assert(r is Some ==> r->0 - n < 512);
}
pub fn canary_bwd(t: &BpTree<8>, n: usize, e: i64)
    requires t.wf(), n < t@.len(), -100 <= e <= 100,
{
    let r = t.bwd_search(n, e);
    assert(r is None);
}
pub fn canary_build(b: BitVec)
    requires b.wf(), 10 < b@.len() < 1000,
{
    let t = BpTree::<7>::from_bit_vector(b);
    let r = t.fwd_search(3, 0);
    let s = t.enclose(3);
    assert(false);
}
} // verus!
