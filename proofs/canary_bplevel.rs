// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::tree::*;
use crate::bp::*;
use crate::bplevel::*;
verus! {
pub fn canary_level(t: &BpTree<512>, n: usize)
    requires t.wf(), one_root(t@), is_node(t@, n as int),
{
    let r = t.level_ancestor(n, 3);
    let s = t.level_next(n);
    let p = t.level_prev(n);
    let q = t.level_leftmost(5);
    let z = t.level_rightmost(5);
    assert(q == z);
}
} // verus!
