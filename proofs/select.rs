use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use vstd::std_specs::bits::{axiom_u64_trailing_zeros, u64_trailing_zeros};
verus! {
broadcast use crate::base::one_shl;
//@@ item src/bit_vec/fast_rs_vec/select.rs const BLOCKS_PER_SUPERBLOCK
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64)
    ensures r as int == if x == 0 { 0 } else { 0x1_0000_0000_0000_0000 - x };

/// lowest set bit
pub open spec fn is_low(w: u64, l: int) -> bool {
    &&& 0 <= l < 64 && wbit(w, l)
    &&& forall|j: int| 0 <= j < l ==> !wbit(w, j)
}
pub proof fn lemma_low_exists(w: u64) -> (l: int)
    requires w != 0,
    ensures is_low(w, l),
{
    if forall|j: int| 0 <= j < 64 ==> !wbit(w, j) {
        assert(w == 0) by { broadcast use group_wbit; wbit_ext(w, 0); }
    }
    let m = choose|j: int| 0 <= j < 64 && wbit(w, j);
    low_from(w, m)
}
proof fn low_from(w: u64, m: int) -> (l: int)
    requires 0 <= m < 64, wbit(w, m),
    ensures is_low(w, l),
    decreases m,
{
    if exists|j: int| 0 <= j < m && wbit(w, j) {
        let j = choose|j: int| 0 <= j < m && wbit(w, j);
        low_from(w, j)
    } else { m }
}
pub proof fn lemma_low_mask(w: u64, l: u64)
    requires l < 64, is_low(w, l as int),
    ensures w & lowmask(l as int) == 0, w != 0,
{
    broadcast use group_wbit;
    lemma_lowmask(l as int);
    wbit_ext(w & lowmask(l as int), 0);
    if w == 0 { assert(!wbit(w, l as int)); }
}
/// isolating and clearing the lowest set bit
pub proof fn lemma_low_bits(w: u64, l: u64, neg: u64)
    requires l < 64, is_low(w, l as int), neg as int == 0x1_0000_0000_0000_0000 - w,
    ensures
        w & neg == 1u64 << l,
        w & ((w - 1) as u64) == w ^ (1u64 << l),
{
    lemma_low_mask(w, l);
    lemma_bit_read(w, l);
    assert(lowmask(l as int) == sub(1u64 << l, 1)) by { lemma_lowmask(l as int); }
    assert(neg == sub(0, w)) by (bit_vector) requires neg as int == 0x1_0000_0000_0000_0000 - w, w != 0;
    assert(w & neg == 1u64 << l) by (bit_vector)
        requires l < 64, (w >> l) & 1 == 1, w & sub(1u64 << l, 1) == 0, neg == sub(0, w);
    assert(w & sub(w, 1) == w ^ (1u64 << l)) by (bit_vector)
        requires l < 64, (w >> l) & 1 == 1, w & sub(1u64 << l, 1) == 0;
}
pub proof fn lemma_pop_mono(w: u64, i: int, j: int)
    requires 0 <= i <= j <= 64,
    ensures pop(w, i) <= pop(w, j) <= pop(w, i) + (j - i),
    decreases j,
{
    if i < j { lemma_pop_mono(w, i, j - 1); }
}
pub proof fn lemma_pop_zero(w: u64, j: int)
    requires 0 <= j <= 64, forall|i: int| 0 <= i < j ==> !wbit(w, i),
    ensures pop(w, j) == 0,
    decreases j,
{
    if j > 0 { lemma_pop_zero(w, j - 1); }
}

/// `res` is `value` deposited into `mask`, for the mask bits with fewer than `k` predecessors
pub open spec fn deposited(res: u64, value: u64, mask: u64, k: int) -> bool {
    forall|p: int| 0 <= p < 64 ==> (#[trigger] wbit(res, p) == (wbit(mask, p) && pop(mask, p) < k && wbit(value, pop(mask, p))))
}
/// the lowest remaining bit of a partly consumed mask is bit number `k` of the mask
pub proof fn lemma_pop_low(mask0: u64, m: u64, k: int, l: int)
    requires
        0 <= k <= 64,
        forall|p: int| 0 <= p < 64 ==> (#[trigger] wbit(m, p) == (wbit(mask0, p) && pop(mask0, p) >= k)),
        is_low(m, l),
    ensures pop(mask0, l) == k, k < 64, pop(mask0, l + 1) == k + 1, wbit(mask0, l),
{
    lemma_pop_bounds(mask0, l);
    assert(wbit(m, l));
    if pop(mask0, l) > k { let p = lemma_pop_hit(mask0, l, k); assert(wbit(m, p)); }
    assert(pop(mask0, l + 1) == pop(mask0, l) + 1);
}
/// a count that is passed is hit at a set bit
pub proof fn lemma_pop_hit(w: u64, q: int, k: int) -> (p: int)
    requires 0 <= q <= 64, 0 <= k < pop(w, q),
    ensures 0 <= p < q, wbit(w, p), pop(w, p) == k,
    decreases q,
{
    if pop(w, q - 1) > k { lemma_pop_hit(w, q - 1, k) } else { q - 1 }
}
pub proof fn lemma_bb(value: u64, bb: u64, k: int)
    requires 0 <= k < 64, bb == 1u64 << (k as u64),
    ensures (value & bb != 0) == wbit(value, k),
        k + 1 < 64 ==> (bb as int + bb as int) % 0x1_0000_0000_0000_0000 == (1u64 << ((k + 1) as u64)),
{
    let s = k as u64;
    lemma_bit_read(value, s);
    assert((value & (1u64 << s) != 0) <==> (value >> s) & 1 == 1) by (bit_vector) requires s < 64;
    if k < 63 {
        let s1 = (s + 1) as u64;
        assert(add(1u64 << s, 1u64 << s) == 1u64 << s1 && (1u64 << s) < 0x8000_0000_0000_0000u64) by (bit_vector) requires s < 63, s1 == add(s, 1);
    }
}
//@@ macro src/util/pdep.rs pdep_impl 0 pdep64 ty=u64
//@@ fn macro:pdep64 pdep_
//@ props C06 C08 C13 C22
//@ spec
    ensures deposited(r, value, mask, 64),
//@ start
    broadcast use group_wbit;
    let ghost mask0 = mask;
    let ghost mut k: int = 0;
//@ beforeloop 0
    proof {
        assert(1u64 << 0u64 == 1u64) by (bit_vector);
        assert forall|p: int| 0 <= p < 64 implies (#[trigger] wbit(mask, p) == (wbit(mask0, p) && pop(mask0, p) >= k)) by { lemma_pop_bounds(mask0, p); }
        assert forall|p: int| 0 <= p < 64 implies (#[trigger] wbit(res, p) == (wbit(mask0, p) && pop(mask0, p) < 0 && wbit(value, pop(mask0, p)))) by { lemma_pop_bounds(mask0, p); }
    }
//@ loop 0
    invariant_except_break
        0 <= k <= 64,
        forall|p: int| 0 <= p < 64 ==> (#[trigger] wbit(mask, p) == (wbit(mask0, p) && pop(mask0, p) >= k)),
        k < 64 ==> bb == 1u64 << (k as u64),
        deposited(res, value, mask0, k),
    ensures deposited(res, value, mask0, 64),
    decreases 64 - k,
//@ body 0
    broadcast use group_wbit;
    let ghost m1 = mask;
    let ghost r1 = res;
    let ghost b1 = bb;
    proof {
        if mask == 0 {
            assert forall|p: int| 0 <= p < 64 implies (#[trigger] wbit(res, p) == (wbit(mask0, p) && pop(mask0, p) < 64 && wbit(value, pop(mask0, p)))) by {
                assert(!wbit(mask, p));
                lemma_pop_bounds(mask0, p);
            }
        }
    }
//@ bodyend 0
    proof {
        let l = lemma_low_exists(m1);
        lemma_low_bits(m1, l as u64, ((0x1_0000_0000_0000_0000 - m1) as u64));
        lemma_pop_low(mask0, m1, k, l);
        lemma_bb(value, b1, k);
        assert forall|p: int| 0 <= p < 64 implies (#[trigger] wbit(mask, p) == (wbit(mask0, p) && pop(mask0, p) >= k + 1)) by {
            assert(wbit(mask, p) == (wbit(m1, p) && p != l));
            if p < l { lemma_pop_mono(mask0, p, l); assert(!wbit(m1, p)); }
            if p > l { lemma_pop_mono(mask0, l + 1, p); }
        }
        assert(deposited(res, value, mask0, k + 1)) by {
            assert forall|p: int| 0 <= p < 64 implies (#[trigger] wbit(res, p) == (wbit(mask0, p) && pop(mask0, p) < k + 1 && wbit(value, pop(mask0, p)))) by {
                assert(wbit(r1, p) == (wbit(mask0, p) && pop(mask0, p) < k && wbit(value, pop(mask0, p))));
                assert(wbit(res, p) == (wbit(r1, p) || (wbit(value, k) && p == l)));
                if p < l { lemma_pop_mono(mask0, p, l); assert(!wbit(m1, p)); }
                if p > l { lemma_pop_mono(mask0, l + 1, p); }
            }
        }
        k = k + 1;
    }
//@@ end

pub trait Pdep: Sized { fn pdep(self, mask: Self) -> Self; }
//@@ macro src/util/pdep.rs impl_pdep 0 pdepimpl id=u64 args=_pdep_u64
impl Pdep for u64 {
//@@ fn macro:pdepimpl <u64 as Pdep>::pdep novis
//@ props C06 C08 C13 C22
//@ subst
pdep_impl!(u64 ,_pdep_u64); => 
//@ spec
    ensures deposited(r, self, mask, 64),
//@@ end
}

/// position of the set bit number `k` of `w`
pub open spec fn is_nth(w: u64, k: int, p: int) -> bool {
    0 <= p < 64 && wbit(w, p) && pop(w, p) == k
}
pub proof fn lemma_nth_unique(w: u64, k: int, p: int, q: int)
    requires is_nth(w, k, p), is_nth(w, k, q),
    ensures p == q,
{
    if p < q { lemma_pop_mono(w, p + 1, q); }
    if q < p { lemma_pop_mono(w, q + 1, p); }
}
/// depositing a single bit finds the bit of that rank
pub proof fn lemma_deposit_one(d: u64, v: u64, w: u64, k: int)
    requires 0 <= k < pop(w, 64), v == 1u64 << (k as u64), deposited(d, v, w, 64),
    ensures is_nth(w, k, u64_trailing_zeros(d) as int),
{
    broadcast use group_wbit;
    lemma_pop_bounds(w, 64);
    let p = lemma_pop_hit(w, 64, k);
    assert(wbit(d, p));
    axiom_u64_trailing_zeros(d);
    if d == 0 { assert(!wbit(d, p)); }
    let t = u64_trailing_zeros(d);
    lemma_bit_read(d, t as u64);
    assert(wbit(d, t as int)) by {
        assert((d >> t as u64) & 1 == 1);
    }
    lemma_pop_bounds(w, t as int);
    lemma_pop_mono(w, t as int + 1, 64);
    assert(wbit(v, pop(w, t as int)));
}

pub proof fn lemma_pdep_select(w: u64, k: u64)
    requires k < pop(w, 64),
    ensures k < 64, forall|d: u64| deposited(d, 1u64 << k, w, 64) ==> is_nth(w, k as int, #[trigger] u64_trailing_zeros(d) as int),
{
    lemma_pop_bounds(w, 64);
    assert forall|d: u64| deposited(d, 1u64 << k, w, 64) implies is_nth(w, k as int, #[trigger] u64_trailing_zeros(d) as int) by {
        lemma_deposit_one(d, 1u64 << k, w, k as int);
    }
}
/// `p` is the position of the zero number `n`
pub open spec fn is_select0(s: Seq<bool>, n: int, p: int) -> bool {
    0 <= p < s.len() && !s[p] && rank0(s, p) == n
}
pub open spec fn is_select1(s: Seq<bool>, n: int, p: int) -> bool {
    0 <= p < s.len() && s[p] && rank1(s, p) == n
}
pub proof fn lemma_oc_mono(s: Seq<bool>, p: int, q: int)
    requires 0 <= p <= q,
    ensures 0 <= oc(s, p) <= oc(s, q) <= oc(s, p) + (q - p),
{
    lemma_zc_mono(s, p, q);
    lemma_zc_mono(s, 0, p);
    assert(zc(s, 0) == 0);
}
pub proof fn lemma_blocks_per_super()
    ensures SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int == 16,
        forall|x: int| #[trigger] (x * (SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int)) == 16 * x,
{
    assert(SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int == 16);
    assert forall|x: int| #[trigger] (x * (SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int)) == 16 * x by {
        assert(x * (SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int) == 16 * x) by (nonlinear_arith) requires SUPER_BLOCK_SIZE as int / BLOCK_SIZE as int == 16;
    }
}
/// width of the interval that the binary search over the 16 blocks of a super-block has left
pub open spec fn span(u: int) -> int {
    if u == 0 { 16 } else if u == 1 { 8 } else if u == 2 { 4 } else if u == 3 { 2 } else { 1 }
}
impl RsVec {
    pub open spec fn tz(&self) -> int { zc(self@, self.len as int) }
    pub open spec fn to(&self) -> int { oc(self@, self.len as int) }
    pub proof fn lemma_totals(&self)
        requires self.wf(),
        ensures self.rank0 == self.tz(), self.rank1 == self.to(),
            forall|p: int| p >= self.len ==> #[trigger] zc(self@, p) == self.tz(),
            forall|p: int| p >= self.len ==> #[trigger] oc(self@, p) >= self.to(),
            self.blocks@.len() == (self.data@.len() + 7) / 8,
            self.super_blocks@.len() == (self.data@.len() + 127) / 128,
    {
        reveal(counters);
    }
    /// zeros in one word
    pub proof fn lemma_word0(&self, k: int, rank: int)
        requires self.wf(), 0 <= k, 0 <= rank, zc(self@, 64 * k) + rank < self.tz(),
        ensures
            k < self.data@.len(),
            pop(!self.data@[k], 64) == 64 - pop(self.data@[k], 64),
            rank >= pop(!self.data@[k], 64) ==> zc(self@, 64 * (k + 1)) == zc(self@, 64 * k) + pop(!self.data@[k], 64),
            rank < zc(self@, 64 * (k + 1)) - zc(self@, 64 * k) ==> rank < pop(!self.data@[k], 64),
            forall|p: int| is_nth(!self.data@[k], rank, p) ==> is_select0(self@, zc(self@, 64 * k) + rank, 64 * k + p),
    {
        broadcast use group_wbit;
        let s = self@;
        let n = self.len - 64 * k;
        assert(64 * k < self.len) by { if 64 * k >= self.len { self.lemma_totals(); assert(zc(s, 64 * k) == self.tz()); } }
        let w = self.data@[k];
        self.lemma_limb(k);
        lemma_pop_not(w, 64);
        if n >= 64 {
            lemma_rank_word(s, 64 * k, w, 64);
            assert forall|p: int| is_nth(!w, rank, p) implies is_select0(s, zc(s, 64 * k) + rank, 64 * k + p) by {
                lemma_rank_word(s, 64 * k, w, p);
                lemma_pop_not(w, p);
                assert(s[64 * k + p] == wbit(w, p));
            }
        } else {
            lemma_rank_word(s, 64 * k, w, n);
            lemma_pop_not(w, n);
            lemma_pop_mono(!w, n, 64);
            assert forall|p: int| is_nth(!w, rank, p) implies is_select0(s, zc(s, 64 * k) + rank, 64 * k + p) by {
                if p >= n { lemma_pop_mono(!w, n, p); }
                lemma_rank_word(s, 64 * k, w, p);
                lemma_pop_not(w, p);
                assert(s[64 * k + p] == wbit(w, p));
            }
        }
    }
    /// ones in one word
    pub proof fn lemma_word1(&self, k: int, rank: int)
        requires self.wf(), 0 <= k, 0 <= rank, oc(self@, 64 * k) + rank < self.to(),
        ensures
            k < self.data@.len(),
            rank >= pop(self.data@[k], 64) ==> oc(self@, 64 * (k + 1)) == oc(self@, 64 * k) + pop(self.data@[k], 64) && 64 * (k + 1) <= self.len,
            64 * (k + 1) <= self.len && rank < oc(self@, 64 * (k + 1)) - oc(self@, 64 * k) ==> rank < pop(self.data@[k], 64),
            forall|p: int| is_nth(self.data@[k], rank, p) ==> is_select1(self@, oc(self@, 64 * k) + rank, 64 * k + p),
    {
        let s = self@;
        let n = self.len - 64 * k;
        assert(64 * k < self.len) by { if 64 * k >= self.len { self.lemma_totals(); assert(oc(s, 64 * k) >= self.to()); } }
        let w = self.data@[k];
        self.lemma_limb(k);
        if n >= 64 {
            lemma_rank_word(s, 64 * k, w, 64);
            assert forall|p: int| is_nth(w, rank, p) implies is_select1(s, oc(s, 64 * k) + rank, 64 * k + p) by {
                lemma_rank_word(s, 64 * k, w, p);
                assert(s[64 * k + p] == wbit(w, p));
            }
        } else {
            lemma_rank_word(s, 64 * k, w, n);
            lemma_pop_mono(w, n, 64);
            assert forall|p: int| is_nth(w, rank, p) implies is_select1(s, oc(s, 64 * k) + rank, 64 * k + p) by {
                if p >= n { lemma_pop_mono(w, n, p); }
                lemma_rank_word(s, 64 * k, w, p);
                assert(s[64 * k + p] == wbit(w, p));
            }
        }
    }
    /// one super-block or block counter
    pub proof fn lemma_counter(&self, sb: int, b: int)
        requires self.wf(),
        ensures
            0 <= sb < self.super_blocks@.len() ==> self.super_blocks@[sb].zeros == zc(self@, 8192 * sb) && 0 <= zc(self@, 8192 * sb) <= 8192 * sb && 8192 * sb < self.len,
            0 <= b < self.blocks@.len() ==> self.blocks@[b].zeros == zc(self@, 512 * b) - zc(self@, 8192 * (b / 16)) && zc(self@, 512 * b) - zc(self@, 8192 * (b / 16)) <= 512 * (b % 16) && 512 * b < self.len,
    {
        reveal(counters);
        if sb >= 0 { lemma_zc_mono(self@, 0, 8192 * sb); assert(zc(self@, 0) == 0); }
        if b >= 0 { lemma_zc_mono(self@, 8192 * (b / 16), 512 * b); }
    }
    pub proof fn lemma_counters_all(&self)
        requires self.wf(),
        ensures
            forall|sb: int| 0 <= sb < self.super_blocks@.len() ==> self.super_ok(sb, #[trigger] self.super_blocks@[sb]),
            forall|b: int| 0 <= b < self.blocks@.len() ==> self.block_ok(b, #[trigger] self.blocks@[b]),
    {
        assert forall|sb: int| 0 <= sb < self.super_blocks@.len() implies self.super_ok(sb, #[trigger] self.super_blocks@[sb]) by { self.lemma_counter(sb, 0); self.lemma_totals(); }
        assert forall|b: int| 0 <= b < self.blocks@.len() implies self.block_ok(b, #[trigger] self.blocks@[b]) by { self.lemma_counter(0, b); }
    }
    pub open spec fn super_ok(&self, sb: int, d: SuperBlockDescriptor) -> bool {
        d.zeros == zc(self@, 8192 * sb) && 0 <= zc(self@, 8192 * sb) <= 8192 * sb && 8192 * sb < self.len && 16 * sb < self.blocks@.len()
    }
    pub open spec fn block_ok(&self, b: int, d: BlockDescriptor) -> bool {
        d.zeros == zc(self@, 512 * b) - zc(self@, 8192 * (b / 16)) && zc(self@, 512 * b) - zc(self@, 8192 * (b / 16)) <= 512 * (b % 16) && 512 * b < self.len
    }
    pub proof fn lemma_hint0(&self, k: int)
        requires self.wf(), 0 <= k <= self.rank0 as int / 8192,
        ensures k + 1 < self.select_blocks@.len(),
            self.len > 0 ==> self.select_blocks@[k].index_0 < self.super_blocks@.len(),
            self.len > 0 ==> self.select_blocks@[k + 1].index_0 < self.super_blocks@.len(),
            zc(self@, 8192 * self.select_blocks@[k].index_0) <= 8192 * k,
            self.select_blocks@[k].index_0 <= self.select_blocks@[k + 1].index_0,
    {
        reveal(hints0);
        reveal(RsVec::wf_select);
        self.lemma_totals();
        let (zk, ok) = choose|zk: int, ok: int| {
            &&& zk == self.rank0 as int / 8192
            &&& ok >= self.rank1 as int / 8192
            &&& #[trigger] final0(self@, self.select_blocks@, self.super_blocks@.len() as int, zk)
            &&& #[trigger] final1(self@, self.select_blocks@, self.super_blocks@.len() as int, ok)
        };
        let sel = self.select_blocks@;
        assert(sel[k].index_0 <= sel[zk].index_0);
        if k < zk { assert(sel[k].index_0 <= sel[k + 1].index_0); }
        assert(zc(self@, 8192 * sel[k].index_0) <= 8192 * k);
    }
    pub proof fn lemma_hint1(&self, k: int)
        requires self.wf(), 0 <= k <= self.rank1 as int / 8192,
        ensures k + 1 < self.select_blocks@.len(),
            self.len > 0 ==> self.select_blocks@[k].index_1 < self.super_blocks@.len(),
            self.len > 0 ==> self.select_blocks@[k + 1].index_1 < self.super_blocks@.len(),
            oc(self@, 8192 * self.select_blocks@[k].index_1) <= 8192 * k,
            self.select_blocks@[k].index_1 <= self.select_blocks@[k + 1].index_1,
    {
        reveal(hints1);
        reveal(RsVec::wf_select);
        self.lemma_totals();
        let (zk, ok) = choose|zk: int, ok: int| {
            &&& zk == self.rank0 as int / 8192
            &&& ok >= self.rank1 as int / 8192
            &&& #[trigger] final0(self@, self.select_blocks@, self.super_blocks@.len() as int, zk)
            &&& #[trigger] final1(self@, self.select_blocks@, self.super_blocks@.len() as int, ok)
        };
        let sel = self.select_blocks@;
        assert(sel[k].index_1 <= sel[ok].index_1);
        if k < ok { assert(sel[k].index_1 <= sel[k + 1].index_1); }
        assert(oc(self@, 8192 * sel[k].index_1) <= 8192 * k);
    }

//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_super_block0
//@ props C06 C08
//@ spec
    requires self.wf(), rank < self.rank0,
        super_block <= self.select_blocks@[rank as int / 8192 + 1].index_0,
        zc(self@, 8192 * super_block) <= rank,
    ensures super_block <= r < self.super_blocks@.len(), zc(self@, 8192 * r) <= rank < zc(self@, 8192 * (r + 1)),
//@ start
    proof { self.lemma_hint0(rank as int / 8192); self.lemma_totals(); }
    let ghost sb0 = super_block;
//@ loop 0
    invariant self.wf(), rank < self.rank0, sb0 <= super_block <= upper_bound < self.super_blocks@.len(), zc(self@, 8192 * super_block) <= rank,
    decreases upper_bound - super_block,
//@ body 0
    proof {
        let d = (upper_bound - super_block) as usize;
        assert(d >> 1usize == d / 2) by (bit_vector);
        self.lemma_counter(super_block + d / 2, 0);
    }
//@ loop 1
    invariant self.wf(), rank < self.rank0, sb0 <= super_block < self.super_blocks@.len(), zc(self@, 8192 * super_block) <= rank,
        super_block + 1 < self.super_blocks@.len() ==> self.super_blocks@[super_block + 1].zeros == zc(self@, 8192 * (super_block + 1)),
    decreases self.super_blocks@.len() - super_block,
//@ beforeloop 1
    proof { self.lemma_counter(super_block + 1, 0); }
//@ bodyend 1
    proof { self.lemma_counter(super_block + 1, 0); }
//@ afterloop 1
    proof { if super_block + 1 == self.super_blocks@.len() { self.lemma_totals(); assert(zc(self@, 8192 * (super_block + 1)) == self.tz()); } }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_super_block1
//@ props C06 C08
//@ spec
    requires self.wf(), rank < self.rank1,
        super_block <= self.select_blocks@[rank as int / 8192 + 1].index_1,
        oc(self@, 8192 * super_block) <= rank,
    ensures super_block <= r < self.super_blocks@.len(), oc(self@, 8192 * r) <= rank < oc(self@, 8192 * (r + 1)),
//@ start
    proof { self.lemma_hint1(rank as int / 8192); self.lemma_totals(); }
    let ghost sb0 = super_block;
//@ loop 0
    invariant self.wf(), rank < self.rank1, sb0 <= super_block <= upper_bound < self.super_blocks@.len(), oc(self@, 8192 * super_block) <= rank,
    decreases upper_bound - super_block,
//@ body 0
    proof {
        let d = (upper_bound - super_block) as usize;
        assert(d >> 1usize == d / 2) by (bit_vector);
        self.lemma_counter(super_block + d / 2, 0);
        self.lemma_counter(super_block + d / 2 + 1, 0);
    }
//@ loop 1
    invariant self.wf(), rank < self.rank1, sb0 <= super_block < self.super_blocks@.len(), oc(self@, 8192 * super_block) <= rank,
        super_block + 1 < self.super_blocks@.len() ==> self.super_blocks@[super_block + 1].zeros == zc(self@, 8192 * (super_block + 1))
            && 0 <= zc(self@, 8192 * (super_block + 1)) <= 8192 * (super_block + 1) && 8192 * (super_block + 1) < self.len,
    decreases self.super_blocks@.len() - super_block,
//@ beforeloop 1
    proof { self.lemma_counter(super_block + 1, 0); }
//@ bodyend 1
    proof { self.lemma_counter(super_block + 1, 0); }
//@ afterloop 1
    proof { if super_block + 1 == self.super_blocks@.len() { self.lemma_totals(); assert(oc(self@, 8192 * (super_block + 1)) >= self.to()); } }
//@@ end

    /// what the block search establishes: block `b` of super-block `sb` holds the zero number `n`
    pub open spec fn in_block0(&self, sb: int, b: int, n: int) -> bool {
        &&& 16 * sb <= b < 16 * (sb + 1) && b < self.blocks@.len()
        &&& zc(self@, 512 * b) <= n < zc(self@, 512 * (b + 1))
    }
    pub open spec fn in_block1(&self, sb: int, b: int, n: int) -> bool {
        &&& 16 * sb <= b < 16 * (sb + 1) && b < self.blocks@.len()
        &&& oc(self@, 512 * b) <= n < oc(self@, 512 * (b + 1))
    }
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block0_naive
//@ props C06 C08
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(),
        zc(self@, 512 * *old(block_index)) + rank < self.tz(),
        zc(self@, 512 * *old(block_index)) + rank < zc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block0(*old(block_index) as int / 16, *final(block_index) as int, zc(self@, 512 * *old(block_index)) + rank),
//@ start
    let ghost mut w: int = 16;
    let ghost b0 = *block_index as int;
    let ghost n = zc(self@, 512 * b0) + rank;
    proof { self.lemma_totals(); }
//@ loop 0
    invariant self.wf(), b0 % 16 == 0, n == zc(self@, 512 * b0) + rank, n < self.tz(),
        0 <= u__ <= 4,
        self.blocks@.len() == (self.data@.len() + 7) / 8,
        w == span(u__ as int), boundary == if u__ == 0 { 8 } else { w },
        b0 <= *block_index < self.blocks@.len(),
        *block_index + w <= b0 + 16,
        zc(self@, 512 * *block_index) <= n,
        n < zc(self@, 512 * (*block_index + w)),
//@ body 0
    proof {
        let h = w / 2;
        self.lemma_counter(0, *block_index + h);
        self.lemma_totals();
        if *block_index + h >= self.blocks@.len() { assert(zc(self@, 512 * (*block_index + h)) == self.tz()); }
    }
//@ bodyend 0
    proof { w = w / 2; }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block0
//@ props C06 C08 C22
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(),
        zc(self@, 512 * *old(block_index)) + rank < self.tz(),
        zc(self@, 512 * *old(block_index)) + rank < zc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block0(*old(block_index) as int / 16, *final(block_index) as int, zc(self@, 512 * *old(block_index)) + rank),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block1_naive
//@ props C06 C08
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(), block_at_super_block == *old(block_index),
        oc(self@, 512 * *old(block_index)) + rank < self.to(),
        oc(self@, 512 * *old(block_index)) + rank < oc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block1(*old(block_index) as int / 16, *final(block_index) as int, oc(self@, 512 * *old(block_index)) + rank),
//@ start
    let ghost mut w: int = 16;
    let ghost b0 = *block_index as int;
    let ghost n = oc(self@, 512 * b0) + rank;
    proof { self.lemma_totals(); }
//@ loop 0
    invariant self.wf(), b0 % 16 == 0, b0 == block_at_super_block, n == oc(self@, 512 * b0) + rank, n < self.to(),
        0 <= u__ <= 4,
        self.blocks@.len() == (self.data@.len() + 7) / 8,
        w == span(u__ as int), boundary == if u__ == 0 { 8 } else { w },
        b0 <= *block_index < self.blocks@.len(),
        *block_index + w <= b0 + 16,
        oc(self@, 512 * *block_index) <= n,
        n < oc(self@, 512 * (*block_index + w)),
//@ body 0
    proof {
        let h = w / 2;
        self.lemma_counter(0, *block_index + h);
        self.lemma_totals();
        if *block_index + h >= self.blocks@.len() { assert(oc(self@, 512 * (*block_index + h)) >= self.to()); }
    }
//@ bodyend 0
    proof { w = w / 2; }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_block1
//@ props C06 C08 C22
//@ spec
    requires self.wf(), *old(block_index) % 16 == 0, *old(block_index) < self.blocks@.len(), block_at_super_block == *old(block_index),
        oc(self@, 512 * *old(block_index)) + rank < self.to(),
        oc(self@, 512 * *old(block_index)) + rank < oc(self@, 512 * (*old(block_index) + 16)),
    ensures self.in_block1(*old(block_index) as int / 16, *final(block_index) as int, oc(self@, 512 * *old(block_index)) + rank),
//@@ end

//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_word_in_block0
//@ props C06 C08
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), block_index < self.blocks@.len(),
        zc(self@, 512 * block_index) + rank < self.tz(),
        zc(self@, 512 * block_index) + rank < zc(self@, 512 * (block_index + 1)),
    ensures is_select0(self@, zc(self@, 512 * block_index) + rank, r as int),
//@ start
    let ghost n0 = zc(self@, 512 * block_index) + rank;
    proof { self.lemma_counter(0, block_index as int); }
//@ loop 0
    invariant self.wf(), 0 <= u__ <= 7, n == if u__ == 0 { 0int } else { u__ - 1 }, index_counter == 64 * u__,
        512 * block_index < self.len,
        n0 < self.tz(), n0 < zc(self@, 512 * (block_index + 1)),
        zc(self@, 64 * (8 * block_index + u__)) + rank == n0,
//@ body 0
    let ghost k = 8 * block_index + u__;
    proof { self.lemma_word0(k, rank as int); lemma_pop_bounds(!self.data@[k], 64); lemma_pop_bounds(self.data@[k], 64); }
//@ after word
    proof { if rank < pop(!word, 64) { lemma_pdep_select(!word, rank as u64); } }
//@ afterloop 0
    proof {
        let k = 8 * block_index + 7;
        self.lemma_word0(k, rank as int);
        lemma_pop_bounds(self.data@[k], 64);
        lemma_pop_bounds(!self.data@[k], 64);
        lemma_pdep_select(!self.data@[k], rank as u64);
    }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::search_word_in_block1
//@ props C06 C08
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), block_index < self.blocks@.len(),
        oc(self@, 512 * block_index) + rank < self.to(),
        oc(self@, 512 * block_index) + rank < oc(self@, 512 * (block_index + 1)),
    ensures is_select1(self@, oc(self@, 512 * block_index) + rank, r as int),
//@ start
    let ghost n0 = oc(self@, 512 * block_index) + rank;
    proof { self.lemma_counter(0, block_index as int); }
//@ loop 0
    invariant self.wf(), 0 <= u__ <= 7, n == if u__ == 0 { 0int } else { u__ - 1 }, index_counter == 64 * u__,
        512 * block_index < self.len,
        n0 < self.to(), n0 < oc(self@, 512 * (block_index + 1)),
        oc(self@, 64 * (8 * block_index + u__)) + rank == n0,
//@ body 0
    let ghost k = 8 * block_index + u__;
    proof { self.lemma_word1(k, rank as int); lemma_pop_bounds(self.data@[k], 64); lemma_pop_bounds(self.data@[k], 64); }
//@ after word
    proof { if rank < pop(word, 64) { lemma_pdep_select(word, rank as u64); } }
//@ afterloop 0
    proof {
        let k = 8 * block_index + 7;
        self.lemma_word1(k, rank as int);
        lemma_pop_bounds(self.data@[k], 64);
        lemma_pop_bounds(self.data@[k], 64);
        lemma_pdep_select(self.data@[k], rank as u64);
    }
//@@ end

//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::select0
//@ props C06
//@ spec
    requires self.wf(),
    ensures
        rank >= rank0(self@, self.len as int) ==> r == self.len,
        rank < rank0(self@, self.len as int) ==> is_select0(self@, rank as int, r as int),
//@ start
    let ghost n = rank as int;
    proof {
        self.lemma_totals();
        self.lemma_counters_all();
        lemma_blocks_per_super();
        if rank < self.rank0 {
            let k = rank as int / 8192;
            self.lemma_hint0(k);
            let sb = self.select_blocks@[k].index_0 as int;
            if sb + 1 >= self.super_blocks@.len() { assert(zc(self@, 8192 * (sb + 1)) == self.tz()); }
        }
    }
//@@ end

//@@ fn src/bit_vec/fast_rs_vec/select.rs RsVec::select1
//@ props C06
//@ spec
    requires self.wf(),
    ensures
        rank >= rank1(self@, self.len as int) ==> r == self.len,
        rank < rank1(self@, self.len as int) ==> is_select1(self@, rank as int, r as int),
//@ start
    let ghost n = rank as int;
    proof {
        self.lemma_totals();
        self.lemma_counters_all();
        lemma_blocks_per_super();
        if rank < self.rank1 {
            let k = rank as int / 8192;
            self.lemma_hint1(k);
            let sb = self.select_blocks@[k].index_1 as int;
            if sb + 1 >= self.super_blocks@.len() { assert(oc(self@, 8192 * (sb + 1)) >= self.to()); }
        }
    }
//@@ end
}
} // verus!
