use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::wmath::*;
use crate::wavelet::*;
verus! {
pub fn canary_wavelet_get(b: &BitVec)
    requires b.wf(), b.len == 30,
{
    let w = WaveletMatrix::from_bit_vec(b, 3);
    let a = w.get_u64(2);
    assert(a is Some && a->0 == 3);
}
pub fn canary_wavelet_rank(w: &WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let a = w.rank_u64(4, 5);
    assert(a is Some && a->0 == occ(w@, 5, 0, 5));
}
pub fn canary_wavelet_select(w: &WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let a = w.select_u64(0, 5);
    assert(a is Some);
}
}
