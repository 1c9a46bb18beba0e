use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bpspec::*;
use crate::tree::*;
use crate::bp::*;
use crate::bptree::*;
verus! {
//@@ contains src/trees/bp/mod.rs type NodeHandle = usize;
//@@ assoc Self::NodeHandle => usize
impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
//@@ fn src/trees/bp/mod.rs <BpTree as LevelTree>::level_ancestor
//@ props C19
//@ spec
    requires self.wf(), is_node(self@, node as int), level <= 0x1000_0000_0000_0000,
    ensures bal(self@) ==> match r {
        None => forall|i: int| #[trigger] anc(self@, i, node as int) ==> tdepth(self@, i) + level != tdepth(self@, node as int),
        Some(i) => anc(self@, i as int, node as int) && tdepth(self@, i as int) + level == tdepth(self@, node as int),
    },
//@ start
    proof { if bal(self@) { lemma_depths(self@); } if level >= 1 { lemma_levanc(self@, node as int, level as int); } }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as LevelTree>::level_next
//@ props C19
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> match r {
        None => forall|k: int| k > node && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != tdepth(self@, node as int),
        Some(i) => i > node && is_node(self@, i as int) && tdepth(self@, i as int) == tdepth(self@, node as int)
            && forall|k: int| node < k < i && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != tdepth(self@, node as int),
    },
//@ start
    proof {
        let b = self@;
        if bal(b) {
            lemma_depths(b);
            lemma_close(b, node as int);
            assert forall|j: int| #[trigger] mate(b, node as int, j) implies ({
                &&& forall|k: int| node < k <= j ==> #[trigger] ex(b, k) > ex(b, node as int)
                &&& forall|i: int| #[trigger] fwd_at(b, j + 1, b.len() as int, 1, i) ==> is_node(b, i) && ex(b, i) == ex(b, node as int) && forall|k: int| j + 1 <= k < i && #[trigger] is_node(b, k) ==> ex(b, k) != ex(b, node as int)
                &&& nohit(b, j + 1, j + 2, b.len() as int + 1, 1) ==> forall|k: int| j + 1 <= k && #[trigger] is_node(b, k) ==> ex(b, k) != ex(b, node as int)
            }) by { lemma_firstlevel(b, j + 1, ex(b, node as int)); }
        }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as LevelTree>::level_prev
//@ props C19
//@ spec
    requires self.wf(), is_node(self@, node as int),
    ensures bal(self@) ==> match r {
        None => forall|k: int| k < node && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != tdepth(self@, node as int),
        Some(i) => i < node && is_node(self@, i as int) && tdepth(self@, i as int) == tdepth(self@, node as int)
            && forall|k: int| i < k < node && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != tdepth(self@, node as int),
    },
//@ start
    proof {
        let b = self@;
        if bal(b) {
            lemma_depths(b);
            lemma_lastlevel(b, node as int, ex(b, node as int));
            assert forall|j: int| #[trigger] bwd_at(b, node as int, 0, 1, j) implies ({
                &&& !nohit(b, j, 0, j, -1)
                &&& forall|i: int| #[trigger] bwd_at(b, j, 0, -1, i) ==> i < node && is_node(b, i) && ex(b, i) == ex(b, node as int)
                    && forall|k: int| i < k < node && #[trigger] is_node(b, k) ==> ex(b, k) != ex(b, node as int)
            }) by { lemma_open(b, j); }
        }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as LevelTree>::level_leftmost
//@ props C19
//@ spec
    requires self.wf(), level <= 0x1000_0000_0000_0000,
    ensures bal(self@) ==> match r {
        None => forall|k: int| #[trigger] is_node(self@, k) ==> tdepth(self@, k) != level,
        Some(i) => is_node(self@, i as int) && tdepth(self@, i as int) == level && forall|k: int| k < i && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != level,
    },
//@ start
    proof {
        let b = self@;
        if bal(b) && b.len() > 0 {
            lemma_depths(b);
            lemma_ex_step(b, 0);
            assert(ex(b, 1) >= 0);
            if level >= 1 { lemma_firstlevel(b, 1, level as int); }
        }
    }
//@@ end
//@@ fn src/trees/bp/mod.rs <BpTree as LevelTree>::level_rightmost
//@ props C19
//@ spec
    requires self.wf(), level <= 0x1000_0000_0000_0000,
    ensures one_root(self@) ==> match r {
        None => forall|k: int| #[trigger] is_node(self@, k) ==> tdepth(self@, k) != level,
        Some(i) => is_node(self@, i as int) && tdepth(self@, i as int) == level && forall|k: int| k > i && #[trigger] is_node(self@, k) ==> tdepth(self@, k) != level,
    },
//@ start
    proof {
        let b = self@;
        if one_root(b) && b.len() > 0 {
            let n = b.len() as int;
            lemma_depths(b);
            lemma_ex_step(b, 0);
            lemma_ex_step(b, n - 1);
            assert(ex(b, 1) >= 0);
            assert(n > 1);
            assert(ex(b, n - 1) > 0);
            if level >= 1 {
                lemma_lastlevel(b, n - 1, level as int);
                assert forall|j: int| #[trigger] bwd_at(b, n - 1, 0, level as int, j) implies ({
                    &&& !nohit(b, j, 0, j, -1)
                    &&& forall|i: int| #[trigger] bwd_at(b, j, 0, -1, i) ==> is_node(b, i) && ex(b, i) == level
                        && forall|k: int| i < k && #[trigger] is_node(b, k) ==> ex(b, k) != level
                }) by { lemma_open(b, j); }
            }
        }
    }
//@@ end
}
} // verus!
