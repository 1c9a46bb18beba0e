use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
use crate::cnt16::*;
use crate::simd::*;
verus! {
// every function here must be REJECTED by the verifier
pub fn canary_simd0(v: &RsVec) requires v.wf(), v.tz() > 300, { let mut i = v.bit_set_iter0(); let a = i.next(); let b = i.next(); assert(false); }
pub fn canary_simd1(v: &RsVec) requires v.wf(), v.to() > 300, { let mut i = v.bit_set_iter1(); let a = i.next(); let b = i.next(); assert(false); }
pub fn canary_search(v: &RsVec, r: usize)
    requires v.wf(), v.blocks@.len() > 40, r < v.tz(), r < zc(v@, 512 * 16), zc(v@, 0) == 0,
{ let mut b = 0usize; v.search_block0_simd(r, &mut b); assert(false); }
pub fn canary_cmp(v: &RsVec) requires v.wf(), v.blocks@.len() > 40,
{
    let a = _mm256_loadu_epi16(&v.blocks, 3); let b = _mm256_set1_epi16(77); let c = _mm256_sub_epi16(a, b);
    let d = _mm256_set_epi16(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
    let m = _mm256_cmpgt_epu16_mask(c, d); assert(false);
}
pub fn canary_store(m: u16, t: [u32; 16])
{
    let mut t = t; let o = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
    _mm512_mask_compressstoreu_epi32(&mut t, m, o); assert(false);
}
}
