// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::bpspec::*;
use crate::tree::*;
use crate::bp::*;
use crate::bptree::*;
verus! {
pub fn canary_next(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let r = t.next_sibling(n);
    assert(r is Some);
}
pub fn canary_depth(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let r = t.depth(n);
    assert(r < 0x10000);
}
pub fn canary_false(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let r = t.last_child(n);
    let p = t.parent(n);
    let s = t.previous_sibling(n);
    let q = t.is_ancestor(n, n);
    let z = t.subtree_size(n);
    let l = t.is_leaf(n);
    assert(false);
}
} // verus!
