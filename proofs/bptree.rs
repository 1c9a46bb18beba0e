use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bpspec::*;
use crate::tree::*;
use crate::bp::*;
verus! {
//@@ contains src/trees/bp/mod.rs type NodeHandle = usize;
//@@ assoc Self::NodeHandle => usize
impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
    pub proof fn lemma_len(&self)
        requires self.wf(),
        ensures self.vec.len == self@.len(), self@.len() <= 0x100_0000_0000_0000,
    { }
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::root
//@ props C18
//@ spec
    requires self.wf(),
    ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(0usize), bal(self@) && self@.len() > 0 ==> is_node(self@, 0),
//@ start
    proof { if self@.len() > 0 && bal(self@) { lemma_ex_step(self@, 0); assert(ex(self@, 1) >= 0); } }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::parent
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures match r {
        None => forall|i: int| i < node ==> !#[trigger] anc(self@, i, node as int),
        Some(i) => par(self@, i as int, node as int),
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); lemma_parent(self@, node as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::first_child
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures match r {
        None => forall|k: int| k > node ==> !#[trigger] anc(self@, node as int, k),
        Some(i) => par(self@, node as int, i as int) && forall|k: int| k < i ==> !#[trigger] par(self@, node as int, k),
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); lemma_first_child(self@, node as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::next_sibling
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> match r {
        None => forall|k: int| k > node ==> !#[trigger] sib(self@, node as int, k),
        Some(i) => i > node && sib(self@, node as int, i as int) && forall|k: int| node < k < i ==> !#[trigger] sib(self@, node as int, k),
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); 
        lemma_close(self@, node as int);
        if bal(self@) { assert forall|j: int| #[trigger] mate(self@, node as int, j) implies (is_node(self@, j + 1) ==> sib(self@, node as int, j + 1)) && (forall|k: int| node < k <= j ==> !#[trigger] sib(self@, node as int, k)) && (!is_node(self@, j + 1) ==> forall|k: int| node < k ==> !#[trigger] sib(self@, node as int, k)) by { lemma_next_sibling(self@, node as int, j); } }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::previous_sibling
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> match r {
        None => forall|k: int| k < node ==> !#[trigger] sib(self@, k, node as int),
        Some(i) => i < node && sib(self@, i as int, node as int) && forall|k: int| i < k < node ==> !#[trigger] sib(self@, k, node as int),
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); lemma_prev(self@, node as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::last_child
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> match r {
        None => forall|k: int| k > node ==> !#[trigger] anc(self@, node as int, k),
        Some(i) => par(self@, node as int, i as int) && forall|k: int| k > i ==> !#[trigger] par(self@, node as int, k),
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); 
        let b = self@; let i = node as int;
        lemma_close(b, i); lemma_first_child(b, i);
        if is_node(b, i + 1) {
            assert forall|j: int| #[trigger] mate(b, i, j) implies i < j - 1 && !b[j - 1] && (forall|p: int| #[trigger] bwd_at(b, j - 1, 0, -1, p) ==> par(b, i, p) && forall|k: int| p < k ==> !#[trigger] par(b, i, k)) && !nohit(b, j - 1, 0, j - 1, -1) by {
                lemma_last_child(b, i, j);
                lemma_open(b, j - 1);
            }
        }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::node_index
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures r == rank1(self@, node as int),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len();  }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::node_handle
//@ props C18
//@ spec
    requires self.wf(),
    ensures index < rank1(self@, self@.len() as int) ==> is_node(self@, r as int) && rank1(self@, r as int) == index, index >= rank1(self@, self@.len() as int) ==> r == self@.len(),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len();  }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::is_leaf
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> r == (forall|k: int| k > node ==> !#[trigger] anc(self@, node as int, k)),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); lemma_leaf(self@, node as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::depth
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> r == tdepth(self@, node as int),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); lemma_ex_step(self@, node as int); if bal(self@) { lemma_depth(self@, node as int); } }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::size
//@ props C18 C19
//@ spec
    requires self.wf(),
    ensures r == rank1(self@, self@.len() as int), bal(self@) ==> 2 * r == self@.len(),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len();  }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as Tree>::is_empty
//@ props C18 C19
//@ spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as IsAncestor>::is_ancestor optmap
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, ancestor as int), is_node(self@, descendant as int),
    ensures r is None ==> !bal(self@), r is Some ==> r->0 == anc(self@, ancestor as int, descendant as int),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); 
        let b = self@; let i = ancestor as int; let k = descendant as int;
        lemma_close(b, i);
        assert forall|j: int| #[trigger] mate(b, i, j) implies (anc(b, i, k) <==> i <= k < j) by { lemma_anc(b, i, j, k); }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as SubtreeSize>::subtree_size optmap
//@ props C18
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures r is None ==> !bal(self@), r is Some ==> exists|j: int| #[trigger] subtree(self@, node as int, j) && r->0 == rank1(self@, j) - rank1(self@, node as int),
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    proof { self.lemma_len(); 
        let b = self@; let i = node as int;
        lemma_close(b, i);
        assert forall|j: int| #[trigger] mate(b, i, j) implies subtree(b, i, j) && 0 <= rank1(b, i) <= rank1(b, j) by { lemma_subtree(b, i, j); lemma_rank_mono(b, i, j); lemma_rank_mono(b, 0, i); }
    }
//@@ end
}
} // verus!
