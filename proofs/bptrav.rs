use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
use crate::selinto::*;
use crate::adapt::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bpspec::*;
use crate::tree::*;
use crate::bp::*;
use crate::bptree::*;
verus! {
//@@ contains src/trees/bp/mod.rs type NodeHandle = usize;
//@@ contains src/trees/bp/mod.rs type IntoIter = SelectIntoIter<false>;
//@@ assoc Self::NodeHandle => usize
//@@ assoc <BpTree<BLOCK_SIZE> as Tree>::NodeHandle => usize
//@@ assoc Self::IntoIter => SelectIntoIter<false>
//@@ assoc Option<Self::Item> => Option<usize>
/// the select iterator yields exactly the nodes, in pre-order
pub open spec fn preorder(it: SelectIter<'_, false>, b: Seq<bool>) -> bool {
    it.wf() && it.vec@ == b && it.lo() == 0 && it.hi() == rank1(b, b.len() as int)
}
/// the nodes of the subtree of `node` are those with an index in [from, to)
pub open spec fn sub_pre(r: RankRange<'_, false>, b: Seq<bool>, node: int) -> bool {
    r.it.wf() && r.it.vec@ == b && 0 <= r.from@ <= r.to@ <= rank1(b, b.len() as int)
    && forall|k: int| #[trigger] is_node(b, k) ==> (anc(b, node, k) <==> r.from@ <= rank1(b, k) < r.to@)
}
/// the same for the closing parentheses
pub open spec fn sub_post(r: RankRange<'_, true>, b: Seq<bool>, node: int) -> bool {
    r.it.wf() && r.it.vec@ == b && 0 <= r.from@ <= r.to@ <= rank0(b, b.len() as int)
    && forall|k: int, c: int| #[trigger] mate(b, k, c) ==> (anc(b, node, k) <==> r.from@ <= rank0(b, c) < r.to@)
}
pub proof fn lemma_rank_lt(b: Seq<bool>, k: int, j: int)
    requires 0 <= k <= j <= b.len(),
    ensures rank1(b, k) <= rank1(b, j), is_node(b, k) && k < j ==> rank1(b, k) < rank1(b, j),
        k + rank1(b, j) <= j + rank1(b, k), k < j && !b[k] ==> k + rank1(b, j) < j + rank1(b, k),
{
    lemma_rank_mono(b, k, j);
    if k < j { lemma_rank_mono(b, k + 1, j); }
}
/// subtrees in terms of node indices
pub proof fn lemma_sub_pre(b: Seq<bool>, i: int, j: int)
    requires mate(b, i, j),
    ensures forall|k: int| #[trigger] is_node(b, k) ==> (anc(b, i, k) <==> rank1(b, i) <= rank1(b, k) < rank1(b, j)),
        rank1(b, i) < rank1(b, j) <= rank1(b, b.len() as int), 0 <= rank1(b, i),
{
    lemma_rank_lt(b, 0, i);
    lemma_rank_lt(b, i, j);
    lemma_rank_lt(b, j, b.len() as int);
    assert forall|k: int| #[trigger] is_node(b, k) implies (anc(b, i, k) <==> rank1(b, i) <= rank1(b, k) < rank1(b, j)) by {
        lemma_anc(b, i, j, k);
        if k < i { lemma_rank_lt(b, k, i); } else { lemma_rank_lt(b, i, k); }
        if k < j { lemma_rank_lt(b, k, j); } else { lemma_rank_lt(b, j, k); }
    }
}
pub proof fn lemma_sub_post(b: Seq<bool>, i: int, j: int)
    requires mate(b, i, j),
    ensures forall|k: int, c: int| #[trigger] mate(b, k, c) ==> (anc(b, i, k) <==> rank0(b, i) <= rank0(b, c) < rank0(b, j) + 1),
        rank0(b, i) <= rank0(b, j) < rank0(b, b.len() as int), 0 <= rank0(b, i),
{
    lemma_rank_lt(b, 0, i);
    lemma_rank_lt(b, i, j);
    lemma_rank_lt(b, j, b.len() as int);
    assert forall|k: int, c: int| #[trigger] mate(b, k, c) implies (anc(b, i, k) <==> rank0(b, i) <= rank0(b, c) < rank0(b, j) + 1) by {
        lemma_anc(b, i, j, k);
        if c < i { lemma_rank_lt(b, c, i); } else { lemma_rank_lt(b, i, c); }
        if c < j { lemma_rank_lt(b, c, j); } else { lemma_rank_lt(b, j, c); }
        // i <= k < j  <==>  i <= c <= j
        if i <= k < j { if c > j { assert(ex(b, k) >= ex(b, i)); if k == i { assert(ex(b, j + 1) > ex(b, k)); } else { assert(ex(b, k) > ex(b, i)); assert(ex(b, j + 1) > ex(b, k)); } } }
        if k < i && i <= c { assert(ex(b, i) > ex(b, k)); if c <= j { assert(ex(b, c + 1) == ex(b, k)); lemma_ex_step(b, i); if c + 1 <= j { assert(ex(b, c + 1) > ex(b, i)); } } }
    }
}
impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
    pub proof fn lemma_tot(&self)
        requires self.wf(),
        ensures self.vec.to() == rank1(self@, self@.len() as int), self.vec.tz() == rank0(self@, self@.len() as int), self.vec.len == self@.len(),
    {
        self.vec.lemma_totals();
    }
//@@ fn src/trees/bp/mod.rs BpTree::dfs_iter
//@ props C19
//@ ret
SelectIter<'_, false>
//@ spec
    requires self.wf(),
    ensures preorder(r, self@),
//@ start
    proof { self.lemma_tot(); }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::iter
//@ props C19
//@ ret
SelectIter<'_, false>
//@ spec
    requires self.wf(),
    ensures preorder(r, self@),
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::dfs_post_iter iterad
//@ props C19
//@ ret
MapIter<SelectIter<'_, true>>
//@ spec
    requires self.wf(), bal(self@),
    ensures r.it.wf(), r.it.vec@ == self@, r.it.lo() == 0, r.it.hi() == rank0(self@, self@.len() as int),
        forall|x: usize, y: usize| #[trigger] (r.rel@)(x, y) ==> mate(self@, y as int, x as int),
//@ closure 0
-> (o: usize) requires n < self@.len(), !self@[n as int] ensures mate(self@, o as int, n as int)
//@ start
    proof {
        self.lemma_tot();
        assert forall|n: int| 0 <= n < self@.len() && !#[trigger] self@[n] implies !nohit(self@, n, 0, n, -1) && forall|i: int| #[trigger] bwd_at(self@, n, 0, -1, i) ==> mate(self@, i, n) by { lemma_open(self@, n); }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::subtree_iter iterad
//@ props C19
//@ ret
RankRange<'_, false>
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> sub_pre(r, self@, node as int),
//@ start
    proof {
        self.lemma_tot();
        let b = self@; let i = node as int;
        lemma_close(b, i);
        lemma_rank_lt(b, 0, i);
        assert forall|j: int| #[trigger] mate(b, i, j) implies rank1(b, i) < rank1(b, j) <= rank1(b, b.len() as int) && forall|k: int| #[trigger] is_node(b, k) ==> (anc(b, i, k) <==> rank1(b, i) <= rank1(b, k) < rank1(b, j)) by { lemma_sub_pre(b, i, j); }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::subtree_post_iter iterad
//@ props C19
//@ ret
MapIter<RankRange<'_, true>>
//@ spec
    requires self.wf(), is_node(self@, node as int), bal(self@),
    ensures sub_post(r.it, self@, node as int), forall|x: usize, y: usize| #[trigger] (r.rel@)(x, y) ==> mate(self@, y as int, x as int),
//@ closure 0
-> (o: usize) requires n < self@.len(), !self@[n as int] ensures mate(self@, o as int, n as int)
//@ start
    proof {
        self.lemma_tot();
        let b = self@; let i = node as int;
        lemma_close(b, i);
        lemma_rank_lt(b, 0, i);
        assert forall|j: int| #[trigger] mate(b, i, j) implies 0 <= rank0(b, i) <= rank0(b, j) < rank0(b, b.len() as int) && forall|k: int, c: int| #[trigger] mate(b, k, c) ==> (anc(b, i, k) <==> rank0(b, i) <= rank0(b, c) < rank0(b, j) + 1) by { lemma_sub_post(b, i, j); }
        assert forall|n: int| 0 <= n < self@.len() && !#[trigger] self@[n] implies !nohit(self@, n, 0, n, -1) && forall|i: int| #[trigger] bwd_at(self@, n, 0, -1, i) ==> mate(self@, i, n) by { lemma_open(self@, n); }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::children
//@ props C19
//@ ret
ChildrenIter<'_, BLOCK_SIZE, true>
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures r.wf(), r.tree@ == self@, bal(self@) ==> match r.current_sibling {
        None => forall|k: int| !#[trigger] par(self@, node as int, k),
        Some(c) => par(self@, node as int, c as int) && forall|k: int| k < c ==> !#[trigger] par(self@, node as int, k),
    },
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::rev_children
//@ props C19
//@ ret
ChildrenIter<'_, BLOCK_SIZE, false>
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> r.wf() && r.tree@ == self@ && match r.current_sibling {
        None => forall|k: int| !#[trigger] par(self@, node as int, k),
        Some(c) => par(self@, node as int, c as int) && forall|k: int| k > c ==> !#[trigger] par(self@, node as int, k),
    },
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::into_parentheses_vec
//@ props C17 C19
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == self@,
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as IntoIterator>::into_iter
//@ props C19
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec@ == self@, r.lo() == 0, r.hi() == rank1(self@, self@.len() as int),
//@ start
    proof { self.lemma_tot(); }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as From>::from as=from_bv_
//@ props C17 C19
//@ spec
    requires bv.wf(), BLOCK_SIZE >= 1, bv@.len() <= 0x100_0000_0000_0000, nblocks(bv@.len() as int, BLOCK_SIZE as int) <= 0x100_0000_0000,
    ensures r.wf(), r@ == bv@,
//@@ end
}
//@@ item src/trees/bp/mod.rs struct ChildrenIter
impl<'a, const BLOCK_SIZE: usize, const FORWARD: bool> ChildrenIter<'a, BLOCK_SIZE, FORWARD> {
    pub open spec fn wf(&self) -> bool { self.tree.wf() && (self.current_sibling is Some ==> is_node(self.tree@, self.current_sibling->0 as int)) }
//@@ fn src/trees/bp/mod.rs ChildrenIter::new
//@ props C19
//@ spec
    requires tree.wf(), is_node(tree@, node as int),
    ensures r.tree == tree, FORWARD || bal(tree@) ==> r.wf(), bal(tree@) ==> match r.current_sibling {
        None => forall|k: int| k > node ==> !#[trigger] anc(tree@, node as int, k),
        Some(c) => par(tree@, node as int, c as int) && forall|k: int| (if FORWARD { k < c } else { k > c }) ==> !#[trigger] par(tree@, node as int, k),
    },
//@@ end
//@@ fn src/trees/bp/mod.rs <ChildrenIter as Iterator>::next
//@ props C19
//@ spec
    requires old(self).wf(), bal(old(self).tree@),
    ensures final(self).wf(), final(self).tree == old(self).tree, r == old(self).current_sibling,
        r is Some ==> forall|p: int| #[trigger] par(old(self).tree@, p, r->0 as int) ==> match final(self).current_sibling {
            None => forall|k: int| (if FORWARD { k > r->0 } else { k < r->0 }) ==> !#[trigger] par(old(self).tree@, p, k),
            Some(c) => par(old(self).tree@, p, c as int) && (if FORWARD { c > r->0 } else { c < r->0 })
                && forall|k: int| (if FORWARD { r->0 < k < c } else { c < k < r->0 }) ==> !#[trigger] par(old(self).tree@, p, k),
        },
        r is None ==> final(self).current_sibling is None,
//@ start
    proof { lemma_only_parent(self.tree@); }
//@@ end
}
//@@ fn src/trees/bp/mod.rs <BitVec as From>::from as=bitvec_from_tree
//@ props C17 C19
//@ generics
<const BLOCK_SIZE: usize>
//@ ret
BitVec
//@ spec
    requires value.wf(),
    ensures r.wf(), r@ == value@,
//@@ end
//@@ fn src/trees/bp/mod.rs <RsVec as From>::from as=rsvec_from_tree
//@ props C17 C19
//@ generics
<const BLOCK_SIZE: usize>
//@ ret
RsVec
//@ spec
    requires value.wf(),
    ensures r.wf(), r@ == value@,
//@@ end
/// nodes with a common parent are siblings
pub proof fn lemma_only_parent(b: Seq<bool>)
    ensures forall|p: int, i: int, k: int| #[trigger] par(b, p, i) && #[trigger] par(b, p, k) ==> sib(b, i, k),
{
    assert forall|p: int, i: int, k: int| #[trigger] par(b, p, i) && #[trigger] par(b, p, k) implies sib(b, i, k) by {
        assert forall|q: int| #[trigger] par(b, q, i) == par(b, q, k) by {
            if par(b, q, i) && q != p { if q < p { assert(anc(b, p, i)); } else { assert(anc(b, q, i)); } }
            if par(b, q, k) && q != p { if q < p { assert(anc(b, p, k)); } else { assert(anc(b, q, k)); } }
        }
    }
}
} // verus!
