// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::bpspec::*;
use crate::tree::*;
use crate::bp::*;
use crate::bptrav::*;
verus! {
pub fn canary_post(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let r = t.dfs_post_iter();
    let s = t.subtree_post_iter(n);
    let p = t.subtree_iter(n);
    assert(p.to@ - p.from@ < 100);
}
pub fn canary_children(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let mut c = t.children(n);
    let a = c.next();
    let b = c.next();
    assert(b is Some);
}
pub fn canary_rev(t: &BpTree<512>, n: usize)
    requires t.wf(), bal(t@), is_node(t@, n as int),
{
    let mut c = t.rev_children(n);
    let a = c.next();
    let b = c.next();
    assert(false);
}
} // verus!
