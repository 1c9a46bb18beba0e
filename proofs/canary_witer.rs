use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::wmath::*;
use crate::wavelet::*;
use crate::witer::*;
verus! {
pub fn canary_witer(w: &WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let mut it = w.iter();
    let a = it.next();
    let b = it.nth(1);
    assert(b is Some && bval(b->0@) == w@[1]);
}
pub fn canary_witer_sorted(w: WaveletMatrix)
    requires w.wf(), w.n() >= 10, w.k() == 3,
{
    let o = w.into_iter_sorted_u64();
    let mut it = o.unwrap();
    let a = it.next_back();
    assert(a is Some && is_kth(w@, 0, w.n(), 0, a->0 as int));
}
}
