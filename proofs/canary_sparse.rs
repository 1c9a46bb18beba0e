use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::sparse::*;
verus! {
pub fn canary_sparse(b: &BitVec)
    requires b.wf(), 10 <= b.len <= 0x1000,
{
    let s = SparseRSVec::from_bitvec_inverted(b);
    let r = s.is_set(3);
    assert(r == Some(b@[3]));
}
pub fn canary_sparse_rank(s: &SparseRSVec)
    requires s.wf(), s.len >= 10,
{
    let r = s.rank0(7);
    assert(r == rank1(s@, 7));
}
}
