use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::exc::*;
use crate::mmt::*;
use crate::bp::*;
verus! {
//@@ assoc Self::Tree => BpTree<BLOCK_SIZE>
//@@ item src/trees/bp/builder.rs struct BpBuilder
impl<const BLOCK_SIZE: usize> BpBuilder<BLOCK_SIZE> {
    pub open spec fn view(&self) -> Seq<bool> { self.bit_vec@ }
    pub open spec fn wf(&self) -> bool { self.bit_vec.wf() && self.bit_vec@.len() <= 0x100_0000_0000_0000 && self.excess == ex(self.bit_vec@, self.bit_vec@.len() as int) }
//@@ fn src/trees/bp/builder.rs BpBuilder::new
//@ props C19
//@ spec
    ensures r.wf(), r@ == Seq::<bool>::empty(),
//@@ end
//@@ fn src/trees/bp/builder.rs BpBuilder::with_capacity
//@ props C19
//@ spec
    requires capacity <= 0x100_0000_0000_0000,
    ensures r.wf(), r@ == Seq::<bool>::empty(),
//@@ end
//@@ fn src/trees/bp/builder.rs <BpBuilder as Default>::default
//@ props C19
//@ spec
    ensures r.wf(), r@ == Seq::<bool>::empty(),
//@@ end
//@@ fn src/trees/bp/builder.rs <BpBuilder as TreeBuilder>::enter_node
//@ props C19
//@ spec
    requires old(self).wf(), old(self)@.len() < 0x100_0000_0000_0000,
    ensures final(self).wf(), final(self)@ == old(self)@.push(true),
//@ start
    proof { lemma_ex_push(self@, true); lemma_ex_bound(self@, 0, self@.len() as int); }
//@@ end
//@@ fn src/trees/bp/builder.rs <BpBuilder as TreeBuilder>::leave_node
//@ props C19
//@ spec
    requires old(self).wf(), old(self)@.len() < 0x100_0000_0000_0000,
    ensures final(self).wf(), final(self)@ == old(self)@.push(false),
//@ start
    proof { lemma_ex_push(self@, false); lemma_ex_bound(self@, 0, self@.len() as int); }
//@@ end
//@@ fn src/trees/bp/builder.rs <BpBuilder as TreeBuilder>::build
//@ props C19
//@ spec
    requires self.wf(), BLOCK_SIZE >= 1, nblocks(self@.len() as int, BLOCK_SIZE as int) <= 0x100_0000_0000,
    ensures match r {
        Ok(t) => t.wf() && t@ == self@ && ex(self@, self@.len() as int) == 0,
        Err(e) => e == ex(self@, self@.len() as int) && e != 0,
    },
//@@ end
}
pub proof fn lemma_ex_push(b: Seq<bool>, x: bool)
    ensures ex(b.push(x), b.len() as int + 1) == ex(b, b.len() as int) + pm(x), b.push(x).len() == b.len() + 1,
{
    lemma_rank_prefix(b, b.push(x), b.len() as int);
    assert(b.push(x)[b.len() as int] == x);
}
pub proof fn lemma_rank_prefix(a: Seq<bool>, b: Seq<bool>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures rank1(a, n) == rank1(b, n),
    decreases n,
{
    if n > 0 { lemma_rank_prefix(a, b, n - 1); }
}
} // verus!
