use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::wmath::*;
use crate::wavelet::*;
use crate::wquant::*;
verus! {
pub fn canary_wquant(w: &WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let a = w.quantile_u64(2..7, 2);
    assert(a is Some && is_kth(w@, 2, 7, 3, a->0 as int));
}
pub fn canary_wquant_pred(w: &WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let a = w.predecessor_u64(2..7, 4);
    assert(a is Some);
}
pub fn canary_wquant_succ(w: &WaveletMatrix, b: &BitVec)
    requires w.wf(), w.n() >= 10, w.k() == 3, b.wf(), b.len == 3,
{
    let a = w.successor(2..7, b);
    assert(a is Some ==> bval(a->0@) > bval(b@));
}
}
