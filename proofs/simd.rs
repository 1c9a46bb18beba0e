use vstd::prelude::*;
use std::mem::size_of;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
use crate::cnt16::*;
//@@ feature simd
verus! {
// The AVX-512 intrinsics, by their documented meaning. Lanes are numbered from the lowest address.
#[verifier::external_body]
pub struct M256 { x: [u16; 16] }
impl M256 { pub uninterp spec fn view(&self) -> Seq<u16>; }
#[verifier::external_body]
pub struct M512 { x: [i32; 16] }
impl M512 { pub uninterp spec fn view(&self) -> Seq<i32>; }
pub type __mmask16 = u16;
/// the block descriptors hold one u16 each; 16 of them are read
#[verifier::external_body]
pub fn _mm256_loadu_epi16(blocks: &Vec<BlockDescriptor>, at: usize) -> (r: M256)
    requires at + 16 <= blocks@.len(),
    ensures r@.len() == 16, forall|k: int| 0 <= k < 16 ==> #[trigger] r@[k] == blocks@[at + k].zeros,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_epi16(x: i16) -> (r: M256)
    ensures r@.len() == 16, forall|k: int| 0 <= k < 16 ==> #[trigger] r@[k] == x as u16,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set_epi16(e15: i16, e14: i16, e13: i16, e12: i16, e11: i16, e10: i16, e9: i16, e8: i16, e7: i16, e6: i16, e5: i16, e4: i16, e3: i16, e2: i16, e1: i16, e0: i16) -> (r: M256)
    ensures r@.len() == 16, r@[0] == e0 as u16, r@[1] == e1 as u16, r@[2] == e2 as u16, r@[3] == e3 as u16, r@[4] == e4 as u16, r@[5] == e5 as u16, r@[6] == e6 as u16, r@[7] == e7 as u16, r@[8] == e8 as u16, r@[9] == e9 as u16, r@[10] == e10 as u16, r@[11] == e11 as u16, r@[12] == e12 as u16, r@[13] == e13 as u16, r@[14] == e14 as u16, r@[15] == e15 as u16,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_sub_epi16(a: M256, b: M256) -> (r: M256)
    ensures r@.len() == 16, forall|k: int| 0 <= k < 16 ==> #[trigger] r@[k] == (if a@[k] >= b@[k] { a@[k] - b@[k] } else { a@[k] - b@[k] + 0x1_0000 }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_cmpgt_epu16_mask(a: M256, b: M256) -> (r: u16)
    ensures forall|k: int| 0 <= k < 16 ==> #[trigger] wbit(r as u64, k) == (a@[k] > b@[k]),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_setr_epi32(e0: i32, e1: i32, e2: i32, e3: i32, e4: i32, e5: i32, e6: i32, e7: i32, e8: i32, e9: i32, e10: i32, e11: i32, e12: i32, e13: i32, e14: i32, e15: i32) -> (r: M512)
    ensures r@.len() == 16, r@[0] == e0, r@[1] == e1, r@[2] == e2, r@[3] == e3, r@[4] == e4, r@[5] == e5, r@[6] == e6, r@[7] == e7, r@[8] == e8, r@[9] == e9, r@[10] == e10, r@[11] == e11, r@[12] == e12, r@[13] == e13, r@[14] == e14, r@[15] == e15,
{ unimplemented!() }
/// the lanes whose mask bit is set are stored contiguously; memory behind them is left alone
#[verifier::external_body]
pub fn _mm512_mask_compressstoreu_epi32(to: &mut [u32; 16], mask: u16, a: M512)
    ensures forall|k: int| 0 <= k < 16 && #[trigger] wbit(mask as u64, k) ==> final(to)@[pop(mask as u64, k)] == a@[k] as u32,
        forall|k: int| pop(mask as u64, 16) <= k < 16 ==> final(to)@[k] == old(to)@[k],
{ unimplemented!() }
/// the PDEP instruction
#[verifier::external_body]
pub fn _pdep_u64(value: u64, mask: u64) -> (r: u64)
    ensures deposited(r, value, mask, 64),
{ unimplemented!() }
//@@ macro src/util/pdep.rs pdep_impl 1 pdephw ty=u64 intr=_pdep_u64
//@@ fn macro:pdephw pdep_ as=pdep_hw key=pdep_(bmi2)
//@ props C06 C08 C13 C22
//@ subst
util::pdep::arch::_pdep_u64 => _pdep_u64
value as _ => value
mask as _ => mask
//@ spec
    ensures deposited(r, value, mask, 64),
//@@ end
/// a mask whose set bits start at `m`
pub proof fn lemma_pop_step(w: u64, m: int, j: int)
    requires 0 <= m <= 16, 0 <= j <= 16, forall|k: int| 0 <= k < 16 ==> #[trigger] wbit(w, k) == (k >= m),
    ensures pop(w, j) == if j <= m { 0 } else { j - m },
    decreases j,
{
    if j > 0 { lemma_pop_step(w, m, j - 1); assert(wbit(w, j - 1) == (j - 1 >= m)); }
}
impl RsVec {
    /// the block of the super-block that holds the zero number `n`, counted from the block counters
    pub proof fn lemma_pick0(&self, b0: int, n: int, w: u64)
        requires self.wf(), b0 % 16 == 0, 0 <= b0, b0 + 16 < self.blocks@.len(),
            zc(self@, 512 * b0) <= n < zc(self@, 512 * (b0 + 16)), n < self.tz(),
            forall|k: int| 0 <= k < 16 ==> #[trigger] wbit(w, k) == (self.blocks@[b0 + k].zeros > n - zc(self@, 512 * b0)),
        ensures 0 <= pop(w, 16) < 16, self.in_block0(b0 / 16, b0 + (16 - pop(w, 16)) - 1, n),
    {
        let m = self.split0(b0, n, 16);
        assert forall|k: int| 0 <= k < 16 implies #[trigger] wbit(w, k) == (k >= m) by {
            self.lemma_counter(0, b0 + k);
            assert((b0 + k) / 16 == b0 / 16);
            if k < m { lemma_zc_mono(self@, 512 * (b0 + k), 512 * (b0 + m - 1)); } else { lemma_zc_mono(self@, 512 * (b0 + m), 512 * (b0 + k)); }
        }
        lemma_pop_step(w, m, 16);
    }
    pub proof fn split0(&self, b0: int, n: int, k: int) -> (m: int)
        requires zc(self@, 512 * b0) <= n < zc(self@, 512 * (b0 + k)), 0 <= k, 0 <= b0,
        ensures 1 <= m <= k, zc(self@, 512 * (b0 + m - 1)) <= n < zc(self@, 512 * (b0 + m)),
        decreases k,
    {
        if k == 0 { 0 } else if zc(self@, 512 * (b0 + k - 1)) <= n { k } else { self.split0(b0, n, k - 1) }
    }
    pub proof fn lemma_pick1(&self, b0: int, n: int, w: u64)
        requires self.wf(), b0 % 16 == 0, 0 <= b0, b0 + 16 < self.blocks@.len(),
            oc(self@, 512 * b0) <= n < oc(self@, 512 * (b0 + 16)), n < self.to(),
            forall|k: int| 0 <= k < 16 ==> #[trigger] wbit(w, k) == (512 * k - self.blocks@[b0 + k].zeros > n - oc(self@, 512 * b0)),
        ensures 0 <= pop(w, 16) < 16, self.in_block1(b0 / 16, b0 + (16 - pop(w, 16)) - 1, n),
    {
        let m = self.split1(b0, n, 16);
        assert forall|k: int| 0 <= k < 16 implies #[trigger] wbit(w, k) == (k >= m) by {
            self.lemma_counter(0, b0 + k);
            assert((b0 + k) / 16 == b0 / 16);
            if k < m { lemma_oc_mono(self@, 512 * (b0 + k), 512 * (b0 + m - 1)); } else { lemma_oc_mono(self@, 512 * (b0 + m), 512 * (b0 + k)); }
        }
        lemma_pop_step(w, m, 16);
    }
    pub proof fn split1(&self, b0: int, n: int, k: int) -> (m: int)
        requires oc(self@, 512 * b0) <= n < oc(self@, 512 * (b0 + k)), 0 <= k, 0 <= b0,
        ensures 1 <= m <= k, oc(self@, 512 * (b0 + m - 1)) <= n < oc(self@, 512 * (b0 + m)),
        decreases k,
    {
        if k == 0 { 0 } else if oc(self@, 512 * (b0 + k - 1)) <= n { k } else { self.split1(b0, n, k - 1) }
    }
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block0 as=search_block0_simd
//@ props C06 C08 C22
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(),
        zc(self@, 512 * *old(block_index)) + rank < self.tz(),
        zc(self@, 512 * *old(block_index)) + rank < zc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block0(*old(block_index) as int / 16, *final(block_index) as int, zc(self@, 512 * *old(block_index)) + rank),
//@ start
    let ghost b0 = *block_index as int;
    proof { lemma_zc_mono(self@, 512 * b0, 512 * (b0 + 16)); self.lemma_totals(); lemma_i16(rank); }
//@ after mask
    proof { self.lemma_pick0(b0, zc(self@, 512 * b0) + rank, mask as u64); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block1 as=search_block1_simd
//@ props C06 C08 C22
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(), block_at_super_block == *old(block_index),
        oc(self@, 512 * *old(block_index)) + rank < self.to(),
        oc(self@, 512 * *old(block_index)) + rank < oc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block1(*old(block_index) as int / 16, *final(block_index) as int, oc(self@, 512 * *old(block_index)) + rank),
//@ start
    let ghost b0 = *block_index as int;
    proof { lemma_oc_mono(self@, 512 * b0, 512 * (b0 + 16)); self.lemma_totals(); lemma_i16(rank); }
//@ after mask
    proof {
        assert forall|k: int| 0 <= k < 16 implies #[trigger] wbit(mask as u64, k) == (512 * k - self.blocks@[b0 + k].zeros > rank) by {
            self.lemma_counter(0, b0 + k);
            assert((b0 + k) / 16 == b0 / 16 && (b0 + k) % 16 == k);
            assert(8192 * (b0 / 16) == 512 * b0);
            assert(bit_nums@[k] == 512 * k);
            assert(ones@[k] == 512 * k - self.blocks@[b0 + k].zeros);
        }
        self.lemma_pick1(b0, oc(self@, 512 * b0) + rank, mask as u64);
    }
//@@ end
}
pub proof fn lemma_i16(x: usize)
    ensures x < 0x8000 ==> (x as i16) as u16 == x,
{
    assert(x < 0x8000 ==> (x as i16) as u16 == x) by (bit_vector);
}
// ---------------------------------------------------------------- the bit set iterator
pub open spec fn is_kind(zero: bool, s: Seq<bool>, p: int) -> bool { s[p] != zero }
pub open spec fn kr(zero: bool, s: Seq<bool>, p: int) -> int { if zero { rank0(s, p) } else { rank1(s, p) } }
pub open spec fn upto(s: Seq<bool>, p: int) -> int { if p <= s.len() { p } else { s.len() as int } }
pub proof fn lemma_kr(zero: bool, s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures 0 <= kr(zero, s, a) <= kr(zero, s, b) <= kr(zero, s, a) + (b - a),
    decreases b - a,
{
    lemma_kr_nonneg(zero, s, a);
    if a < b { lemma_kr(zero, s, a, b - 1); }
}
pub proof fn lemma_kr_nonneg(zero: bool, s: Seq<bool>, a: int)
    requires 0 <= a <= s.len(),
    ensures 0 <= kr(zero, s, a),
    decreases a,
{
    if a > 0 { lemma_kr_nonneg(zero, s, a - 1); }
}
pub proof fn lemma_trunc16()
    ensures forall|w: u64, j: int| 0 <= j < 16 ==> #[trigger] wbit((w as u16) as u64, j) == wbit(w, j),
{
    assert forall|w: u64, j: int| 0 <= j < 16 implies #[trigger] wbit((w as u16) as u64, j) == wbit(w, j) by {
        let k = j as u64;
        lemma_wbit_def((w as u16) as u64, j);
        lemma_wbit_def(w, j);
        assert(((w as u16) as u64 >> k) & 1 == (w >> k) & 1) by (bit_vector) requires k < 16;
    }
}
/// there is a position with each rank in between
pub proof fn lemma_kr_hit(zero: bool, s: Seq<bool>, a: int, b: int, n: int) -> (p: int)
    requires 0 <= a <= b <= s.len(), kr(zero, s, a) <= n < kr(zero, s, b),
    ensures a <= p < b, is_kind(zero, s, p), kr(zero, s, p) == n, is_sel(zero, s, n, p),
    decreases b - a,
{
    if kr(zero, s, b - 1) <= n { b - 1 } else { lemma_kr_hit(zero, s, a, b - 1, n) }
}
/// the mask of a chunk that starts at `a`
pub open spec fn chunk_mask(zero: bool, s: Seq<bool>, a: int, w: u64) -> bool {
    forall|j: int| 0 <= j < 16 ==> #[trigger] wbit(w, j) == (a + j < s.len() && is_kind(zero, s, a + j))
}
pub proof fn lemma_chunk_pop(zero: bool, s: Seq<bool>, a: int, w: u64, j: int)
    requires chunk_mask(zero, s, a, w), 0 <= a <= s.len(), 0 <= j <= 16,
    ensures pop(w, j) == kr(zero, s, upto(s, a + j)) - kr(zero, s, a),
    decreases j,
{
    if j > 0 {
        lemma_chunk_pop(zero, s, a, w, j - 1);
        assert(wbit(w, j - 1) == (a + j - 1 < s.len() && is_kind(zero, s, a + j - 1)));
    }
}
/// the positions of the chunk are laid out in order
pub open spec fn laid_out(zero: bool, s: Seq<bool>, a: int, off: Seq<u32>) -> bool {
    forall|j: int| 0 <= j < 16 && a + j < s.len() && #[trigger] is_kind(zero, s, a + j) ==> off[kr(zero, s, a + j) - kr(zero, s, a)] == j
}
pub proof fn lemma_mask_bits(data: u64, d: u16, m: u16, zero: bool, rem: int, j: int)
    requires d == data as u16, m == (if zero { !d } else { d }), 0 <= j < 16, 0 <= rem,
    ensures wbit(m as u64, j) == (wbit(data, j) != zero),
        rem < 16 ==> wbit((m & (((1u16 << (rem as usize)) - 1) as u16)) as u64, j) == (j < rem && wbit(m as u64, j)),
        rem < 16 ==> (1u16 << (rem as usize)) >= 1,
{
    let k = j as u64;
    lemma_wbit_def(m as u64, j);
    lemma_wbit_def(data, j);
    assert(((m as u64) >> k) & 1 == (if zero { 1 - ((data >> k) & 1) } else { ((data >> k) & 1) as int })) by (bit_vector)
        requires d == data as u16, m == (if zero { !d } else { d }), k < 16;
    if rem < 16 {
        let r = rem as usize;
        let x = m & ((sub(1u16 << r, 1)) as u16);
        lemma_wbit_def(x as u64, j);
        assert((1u16 << r) >= 1) by (bit_vector) requires r < 16;
        assert(((x as u64) >> k) & 1 == (if k < r as u64 { ((m as u64) >> k) & 1 } else { 0 })) by (bit_vector)
            requires x == m & ((sub(1u16 << r, 1)) as u16), r < 16, k < 16;
    }
}
//@@ item src/bit_vec/fast_rs_vec/bitset.rs const VECTOR_SIZE
//@@ item src/bit_vec/fast_rs_vec/bitset.rs struct BitSetIter
impl RsVec {
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::get_bits_unchecked as=get_bits_edge
//@ props C08 C22
//@ spec
    requires self.wf(), 1 <= len <= 64, pos < self.len, pos % 64 + len <= 64,
    ensures forall|j: int| 0 <= j < len && pos + j < self.len ==> #[trigger] wbit(r, j) == self@[pos + j],
//@ start
    broadcast use group_wbit;
    proof { lemma_lowmask(len as int); self.lemma_limb(pos as int / 64); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs RsVec::bit_set_iter0
//@ props C08 C22
//@ ret
BitSetIter<'_, true>
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0,
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs RsVec::bit_set_iter1
//@ props C08 C22
//@ ret
BitSetIter<'_, false>
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0,
//@@ end
}
impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
    /// rank of the next position
    pub open spec fn lo(&self) -> int { kr(ZERO, self.vec@, self.base as int) + self.cursor }
    pub open spec fn total(&self) -> int { kr(ZERO, self.vec@, self.vec.len as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.vec.wf()
        &&& self.base % 16 == 0 && (self.base < self.vec.len || self.base == 0)
        &&& self.cursor <= self.content_len
        &&& self.content_len == kr(ZERO, self.vec@, upto(self.vec@, self.base + 16)) - kr(ZERO, self.vec@, self.base as int)
        &&& laid_out(ZERO, self.vec@, self.base as int, self.offsets@)
    }
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs BitSetIter::new
//@ props C08 C22
//@ subst
get_bits_unchecked => get_bits_edge
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0,
//@ start
    proof { lemma_trunc16(); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs BitSetIter::load_chunk
//@ props C08 C22
//@ subst
__mmask16::from(data) => data
//@ spec
    requires old(self).vec.wf(), old(self).base % 16 == 0, old(self).base < old(self).vec.len,
        forall|j: int| 0 <= j < 16 && old(self).base + j < old(self).vec.len ==> #[trigger] wbit(data as u64, j) == old(self).vec@[old(self).base + j],
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).base == old(self).base, final(self).cursor == 0,
//@ after remaining
    proof {
        let r16 = remaining as usize;
        assert(r16 < 16 ==> (1u16 << r16) >= 1u16) by (bit_vector);
    }
//@ beforecall _mm512_mask_compressstoreu_epi32
    let ghost s = self.vec@;
    let ghost a = self.base as int;
    proof {
        let m0 = if ZERO { !data } else { data };
        assert forall|j: int| 0 <= j < 16 implies #[trigger] wbit(mask as u64, j) == (a + j < s.len() && is_kind(ZERO, s, a + j)) by {
            lemma_mask_bits(data as u64, data, m0, ZERO, remaining as int, j);
        }
        assert forall|j: int| 0 <= j < 16 && a + j < s.len() && #[trigger] is_kind(ZERO, s, a + j) implies wbit(mask as u64, j) && pop(mask as u64, j) == kr(ZERO, s, a + j) - kr(ZERO, s, a) by {
            assert(wbit(mask as u64, j) == (a + j < s.len() && is_kind(ZERO, s, a + j)));
            lemma_chunk_pop(ZERO, s, a, mask as u64, j);
        }
        lemma_chunk_pop(ZERO, s, a, mask as u64, 16);
    }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs BitSetIter::load_next_chunk
//@ props C08 C22
//@ subst
get_bits_unchecked => get_bits_edge
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).lo() == old(self).lo(),
        r is Some ==> final(self).cursor < final(self).content_len,
        r is None ==> final(self).lo() == final(self).total(),
//@ start
    proof { lemma_trunc16(); }
//@ loop 0
    invariant self.wf(), self.vec == old(self).vec, self.lo() == old(self).lo(),
    decreases self.vec.len - self.base,
//@ after data
    proof { lemma_trunc16(); assert(self.base % 64 + 16 <= 64); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/bitset.rs <BitSetIter as Iterator>::next
//@ props C08 C22
//@ ret
Option<usize>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        r is None <==> old(self).lo() >= old(self).total(),
        r is None ==> final(self).lo() == old(self).lo(),
        r is Some ==> final(self).lo() == old(self).lo() + 1 && is_sel(ZERO, old(self).vec@, old(self).lo(), r->0 as int),
//@ before offset
    let ghost p = lemma_kr_hit(ZERO, self.vec@, self.base as int, upto(self.vec@, self.base + 16), self.lo());
    proof {
        lemma_kr(ZERO, self.vec@, self.base as int, upto(self.vec@, self.base + 16));
        lemma_kr(ZERO, self.vec@, upto(self.vec@, self.base + 16), self.vec.len as int);
        assert(is_kind(ZERO, self.vec@, self.base + (p - self.base)));
    }
//@@ end
}
} // verus!
