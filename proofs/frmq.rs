use vstd::prelude::*;
use crate::itersrc::*;
use crate::base::*;
use crate::select::*;
use crate::rsvec::*;
use crate::brmq::*;
verus! {
//@@ item src/rmq/fast_rmq/mod.rs const BLOCK_SIZE
//@@ item src/rmq/fast_rmq/mod.rs struct SmallBitVector
//@@ item src/rmq/fast_rmq/mod.rs struct Block
//@@ item src/rmq/fast_rmq/mod.rs struct FastRmq

// ---------------------------------------------------------------- 128-bit words
pub closed spec fn xbit(w: u128, i: int) -> bool { (w >> (i as u128)) & 1 == 1 }
/// ones among the low `i` bits
pub open spec fn xpop(w: u128, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { xpop(w, i - 1) + if xbit(w, i - 1) { 1int } else { 0int } }
}
/// zeros among the low `i` bits
pub open spec fn xz(w: u128, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { xz(w, i - 1) + if xbit(w, i - 1) { 0int } else { 1int } }
}
pub proof fn lemma_xz_mono(w: u128, i: int, j: int)
    requires 0 <= i <= j,
    ensures 0 <= xz(w, i) <= xz(w, j) <= xz(w, i) + (j - i), xz(w, i) <= i,
    decreases j,
{
    if i < j { lemma_xz_mono(w, i, j - 1); } else if i > 0 { lemma_xz_mono(w, i - 1, i - 1); }
}
pub proof fn lemma_x_masked(w: u128, m: u128, n: int, k: int)
    requires 0 <= n <= 128, 0 <= k <= 128, forall|j: int| 0 <= j < 128 ==> #[trigger] xbit(m, j) == (j < n && !xbit(w, j)),
    ensures xpop(m, k) == xz(w, if k <= n { k } else { n }),
    decreases k,
{
    if k > 0 { lemma_x_masked(w, m, n, k - 1); }
}
pub proof fn lemma_x_mask(w: u128, n: u128, mask: u128)
    requires n <= 128, mask == if n < 128 { sub(1u128 << n, 1) } else { 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 },
    ensures forall|j: int| 0 <= j < 128 ==> #[trigger] xbit(!w & mask, j) == (j < n && !xbit(w, j)),
{
    assert forall|j: int| 0 <= j < 128 implies #[trigger] xbit(!w & mask, j) == (j < n && !xbit(w, j)) by {
        let k = j as u128;
        if n < 128 {
            assert(((!w & sub(1u128 << n, 1)) >> k) & 1 == 1 <==> (k < n && !((w >> k) & 1 == 1))) by (bit_vector) requires k < 128, n < 128;
        } else {
            assert(((!w & 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) >> k) & 1 == 1 <==> !((w >> k) & 1 == 1)) by (bit_vector) requires k < 128;
        }
    }
}
/// the two halves
pub proof fn lemma_x_halves(w: u128, lo: u64, hi: u64)
    requires lo == (w & 0xFFFF_FFFF_FFFF_FFFF) as u64, hi == (w >> 64u128) as u64,
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(lo, j) == xbit(w, j), forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(hi, j) == xbit(w, 64 + j),
{
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(lo, j) == xbit(w, j) by {
        let k = j as u64; let x = j as u128;
        lemma_wbit_def(lo, j);
        assert((((w & 0xFFFF_FFFF_FFFF_FFFF) as u64) >> k) & 1 == 1 <==> (w >> x) & 1 == 1) by (bit_vector) requires k < 64, x == k as u128;
    }
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(hi, j) == xbit(w, 64 + j) by {
        let k = j as u64; let x = (64 + j) as u128;
        lemma_wbit_def(hi, j);
        assert((((w >> 64u128) as u64) >> k) & 1 == 1 <==> (w >> x) & 1 == 1) by (bit_vector) requires k < 64, x == add(64, k as u128);
    }
}
pub proof fn lemma_x_pop(w: u128, base: int, v: u64, n: int)
    requires 0 <= base, 0 <= n <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(v, j) == xbit(w, base + j),
    ensures xz(w, base + n) == xz(w, base) + n - pop(v, n), pop(!v, n) == n - pop(v, n), 0 <= pop(v, n) <= n,
    decreases n,
{
    broadcast use group_wbit;
    if n > 0 { lemma_x_pop(w, base, v, n - 1); assert(wbit(v, n - 1) == xbit(w, base + (n - 1))); }
}
pub assume_specification [u128::checked_shl] (x: u128, n: u32) -> (r: Option<u128>)
    ensures n < 128 ==> r == Some(x << n), n >= 128 ==> r is None;
pub assume_specification [u128::count_ones] (x: u128) -> (r: u32)
    ensures r as int == xpop(x, 128), 0 <= r <= 128;

impl SmallBitVector {
    /// `Default` (derived)
    pub fn default() -> (r: Self)
        ensures forall|k: int| 0 <= k < 128 ==> !xbit(r.0, k),
    {
        proof {
            assert forall|k: int| 0 <= k < 128 implies !xbit(0u128, k) by {
                let x = k as u128;
                assert(!((0u128 >> x) & 1 == 1)) by (bit_vector);
            }
        }
        SmallBitVector(0)
    }
//@@ fn src/rmq/fast_rmq/mod.rs SmallBitVector::rank0
//@ props C13
//@ spec
    requires i <= 128,
    ensures r == xz(self.0, i as int),
//@ tail
    proof { 
        let n = i as u128;
        assert(n < 128 ==> (1u128 << n) >= 1) by (bit_vector);
        lemma_x_mask(self.0, n, mask);
        lemma_x_masked(self.0, !self.0 & mask, i as int, 128);
    }
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs SmallBitVector::select0
//@ props C13
//@ spec
    requires rank < xz(self.0, 128),
    ensures r < 128, !xbit(self.0, r as int), xz(self.0, r as int) == rank,
//@ after word
    proof {
        let lo = (self.0 & 0xFFFF_FFFF_FFFF_FFFF) as u64;
        let hi = (self.0 >> 64u128) as u64;
        lemma_x_halves(self.0, lo, hi);
        lemma_x_pop(self.0, 0, lo, 64);
        lemma_x_pop(self.0, 64, hi, 64);
        assert(xz(self.0, 0) == 0);
        if rank < 64 - pop(lo, 64) {
            lemma_pdep_select(!lo, rank as u64);
            assert forall|n: int| 0 <= n <= 64 implies xz(self.0, n) == #[trigger] pop(!lo, n) by { lemma_x_pop(self.0, 0, lo, n); }
        } else {
            let q = (rank - (64 - pop(lo, 64))) as u64;
            lemma_pdep_select(!hi, q);
            assert forall|n: int| 0 <= n <= 64 implies xz(self.0, 64 + n) == xz(self.0, 64) + #[trigger] pop(!hi, n) by { lemma_x_pop(self.0, 64, hi, n); }
        }
        broadcast use group_wbit;
    }
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs SmallBitVector::set_bit
//@ props C13
//@ spec
    requires i < 128,
    ensures forall|k: int| 0 <= k < 128 ==> #[trigger] xbit(final(self).0, k) == (xbit(old(self).0, k) || k == i),
//@ start
    let ghost w = self.0;
//@ end
    proof {
        let a = i as u128;
        assert forall|k: int| 0 <= k < 128 implies #[trigger] xbit(self.0, k) == (xbit(w, k) || k == i) by {
            let x = k as u128;
            assert(((w | (1u128 << a)) >> x) & 1 == 1 <==> ((w >> x) & 1 == 1 || x == a)) by (bit_vector) requires x < 128, a < 128;
        }
    }
//@@ end
}

// ---------------------------------------------------------------- blocks
/// `b[i]` is smaller than everything before it
pub open spec fn new_min(b: Seq<u64>, i: int) -> bool { forall|x: int| 0 <= x < i ==> b[i] < #[trigger] b[x] }
pub open spec fn pre_ok(w: u128, b: Seq<u64>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] xbit(w, i) == !new_min(b, i)
}
/// a zero at `p` and none in `p+1..=j`: `p` is where the minimum of the prefix is
pub proof fn lemma_prefix(w: u128, b: Seq<u64>, j: int, p: int)
    requires pre_ok(w, b, b.len() as int), 0 <= j < b.len() <= 128, p >= 0, !xbit(w, p), xz(w, p) == xz(w, j + 1) - 1,
    ensures is_min(b, 0, j, p),
{
    if p > j { lemma_xz_mono(w, j + 1, p); }
    assert forall|x: int| 0 <= x <= j implies b[p] <= #[trigger] b[x] by { lemma_prefix_at(w, b, j, p, x); }
}
pub proof fn lemma_prefix_at(w: u128, b: Seq<u64>, j: int, p: int, x: int)
    requires pre_ok(w, b, b.len() as int), 0 <= j < b.len() <= 128, 0 <= p <= j, !xbit(w, p), xz(w, p) == xz(w, j + 1) - 1, 0 <= x <= j,
    ensures b[p] <= b[x],
    decreases x,
{
    if x < p { assert(new_min(b, p)); }
    if x > p {
        lemma_xz_mono(w, p + 1, x);
        lemma_xz_mono(w, x + 1, j + 1);
        assert(xbit(w, x));
        assert(!new_min(b, x));
        let y = choose|y: int| 0 <= y < x && b[x] >= #[trigger] b[y];
        lemma_prefix_at(w, b, j, p, y);
    }
}
pub open spec fn rev(b: Seq<u64>) -> Seq<u64> { Seq::new(b.len(), |i: int| b[b.len() - 1 - i]) }

pub open spec fn nb(n: int) -> int { (n + 127) / 128 }
pub open spec fn bl(d: Seq<u64>, k: int) -> Seq<u64> {
    d.subrange(128 * k, if 128 * k + 128 <= d.len() { 128 * k + 128 } else { d.len() as int })
}
pub open spec fn block_wf(d: Seq<u64>, k: int, m: u64, mi: u8, b: Block) -> bool {
    &&& pre_ok(b.prefix_minima.0, bl(d, k), bl(d, k).len() as int)
    &&& pre_ok(b.suffix_minima.0, rev(bl(d, k)), bl(d, k).len() as int)
    &&& is_min(bl(d, k), 0, bl(d, k).len() - 1, mi as int)
    &&& m == bl(d, k)[mi as int]
}
impl FastRmq {
    pub open spec fn wf(&self) -> bool {
        let d = self.data@;
        &&& d.len() <= u32::MAX * 128
        &&& self.block_minima.wf()
        &&& self.block_minima.data@.len() == nb(d.len() as int)
        &&& self.block_min_indices@.len() == nb(d.len() as int)
        &&& self.blocks@.len() == nb(d.len() as int)
        &&& forall|k: int| 0 <= k < nb(d.len() as int) ==> block_wf(d, k, self.block_minima.data@[k], self.block_min_indices@[k], #[trigger] self.blocks@[k])
    }
    /// prefix query in block `k`
    pub proof fn lemma_pre(&self, k: int, j: int)
        requires self.wf(), 0 <= k < nb(self.data@.len() as int), 0 <= j < 128, 128 * k + j < self.data@.len(),
        ensures ({
            let w = self.blocks@[k].prefix_minima.0;
            &&& 1 <= xz(w, j + 1) <= xz(w, 128)
            &&& forall|p: int| p >= 0 && #[trigger] xz(w, p) == xz(w, j + 1) - 1 && !xbit(w, p) ==> is_min(self.data@, 128 * k, 128 * k + j, 128 * k + p)
        }),
    {
        let w = self.blocks@[k].prefix_minima.0;
        let b = bl(self.data@, k);
        let d = self.data@;
        assert(pre_ok(w, b, b.len() as int));
        assert(new_min(b, 0));
        assert(xbit(w, 0) == !new_min(b, 0));
        lemma_xz_mono(w, j + 1, 128);
        assert(xz(w, 0) == 0);
        assert(xz(w, 1) == 1);
        lemma_xz_mono(w, 1, j + 1);
        assert forall|p: int| p >= 0 && #[trigger] xz(w, p) == xz(w, j + 1) - 1 && !xbit(w, p) implies is_min(self.data@, 128 * k, 128 * k + j, 128 * k + p) by {
            lemma_prefix(w, b, j, p);
            assert forall|x: int| 128 * k <= x <= 128 * k + j implies d[128 * k + p] <= #[trigger] d[x] by {
                assert(b[p] <= b[x - 128 * k]);
            }
        }
    }
    /// suffix query in the full block `k`
    pub proof fn lemma_suf(&self, k: int, i: int)
        requires self.wf(), 0 <= k, 0 <= i < 128, 128 * k + 128 <= self.data@.len(),
        ensures ({
            let w = self.blocks@[k].suffix_minima.0;
            &&& 1 <= xz(w, 128 - i) <= xz(w, 128)
            &&& forall|p: int| p >= 0 && #[trigger] xz(w, p) == xz(w, 128 - i) - 1 && !xbit(w, p) ==> p < 128 && is_min(self.data@, 128 * k + i, 128 * k + 127, 128 * k + 127 - p)
        }),
    {
        let w = self.blocks@[k].suffix_minima.0;
        let b = rev(bl(self.data@, k));
        let d = self.data@;
        let j = 127 - i;
        assert(block_wf(d, k, self.block_minima.data@[k], self.block_min_indices@[k], self.blocks@[k]));
        assert(pre_ok(w, b, b.len() as int));
        assert(new_min(b, 0));
        assert(xbit(w, 0) == !new_min(b, 0));
        lemma_xz_mono(w, j + 1, 128);
        assert(xz(w, 0) == 0);
        assert(xz(w, 1) == 1);
        lemma_xz_mono(w, 1, j + 1);
        assert forall|p: int| p >= 0 && #[trigger] xz(w, p) == xz(w, 128 - i) - 1 && !xbit(w, p) implies p < 128 && is_min(self.data@, 128 * k + i, 128 * k + 127, 128 * k + 127 - p) by {
            lemma_prefix(w, b, j, p);
            assert forall|x: int| 128 * k + i <= x <= 128 * k + 127 implies d[128 * k + 127 - p] <= #[trigger] d[x] by {
                assert(b[p] <= b[127 - (x - 128 * k)]);
            }
        }
    }
    /// whole blocks `a..=b`
    pub proof fn lemma_mid(&self, a: int, b: int, m: int)
        requires self.wf(), 0 <= a <= b, 128 * b + 128 <= self.data@.len(), is_min(self.block_minima.data@, a, b, m),
        ensures is_min(self.data@, 128 * a, 128 * b + 127, 128 * m + self.block_min_indices@[m]),
    {
        let d = self.data@;
        let r = 128 * m + self.block_min_indices@[m];
        assert(block_wf(d, m, self.block_minima.data@[m], self.block_min_indices@[m], self.blocks@[m]));
        assert forall|x: int| 128 * a <= x <= 128 * b + 127 implies d[r] <= #[trigger] d[x] by {
            let k = x / 128;
            assert(block_wf(d, k, self.block_minima.data@[k], self.block_min_indices@[k], self.blocks@[k]));
            assert(self.block_minima.data@[m] <= self.block_minima.data@[k]);
            assert(d[x] == bl(d, k)[x - 128 * k]);
        }
    }
//@@ fn src/rmq/fast_rmq/mod.rs FastRmq::len
//@ props C13
//@ spec
    ensures r == self.data@.len(),
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs FastRmq::is_empty
//@ props C13
//@ spec
    ensures r == (self.data@.len() == 0),
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs FastRmq::from_vec
//@ props C13
//@ spec
    requires data@.len() <= u32::MAX * 128,
    ensures r.wf(), r.data@ == data@,
//@ start
    let ghost d = data@;
    proof { assert((1usize << 40usize) == 0x100_0000_0000usize) by (bit_vector); }
//@ loop 0
    invariant data@ == d, d.len() <= u32::MAX * 128, ch__0 <= d.len(),
        ch__0 == d.len() || ch__0 % 128 == 0,
        block_minima@.len() == nb(ch__0 as int), block_min_indices@.len() == nb(ch__0 as int), blocks@.len() == nb(ch__0 as int),
        forall|k: int| 0 <= k < nb(ch__0 as int) ==> block_wf(d, k, block_minima@[k], block_min_indices@[k], #[trigger] blocks@[k]),
    decreases d.len() - ch__0,
//@ body 0
    let ghost kk = blocks@.len() as int;
    let ghost b = block@;
    proof { assert(b =~= bl(d, kk)); assert(1 <= b.len() <= 128); }
//@ loop 1
    invariant block@ == b, 1 <= b.len() <= 128,
        pre_ok(prefix_minima.0, b, i as int), forall|x: int| i <= x < 128 ==> !#[trigger] xbit(prefix_minima.0, x),
        block_minimum_index < i, is_min(b, 0, i - 1, block_minimum_index as int), b[block_minimum_index as int] == block_minimum, prefix_minimum == block_minimum,
        forall|x: int| 0 <= x < 128 ==> !#[trigger] xbit(suffix_minima.0, x),
//@ loop 2
    invariant block@ == b, 1 <= b.len() <= 128,
        pre_ok(suffix_minima.0, rev(b), i - 1), forall|x: int| i - 1 <= x < 128 ==> !#[trigger] xbit(suffix_minima.0, x),
        exists|x: int| 0 <= x < i - 1 && suffix_minimum == #[trigger] rev(b)[x],
        forall|x: int| 0 <= x < i - 1 ==> suffix_minimum <= #[trigger] rev(b)[x],
//@ beforeloop 2
    proof { assert(rev(b)[0] == suffix_minimum); }
//@ body 2
    let ghost s0 = suffix_minimum;
    let ghost y = choose|x: int| 0 <= x < i - 1 && suffix_minimum == #[trigger] rev(b)[x];
//@ bodyend 2
    proof {
        assert(rev(b)[i - 1] == b[b.len() - i]);
        assert(rev(b)[y] == s0);
        assert(suffix_minimum == rev(b)[y] || suffix_minimum == rev(b)[i - 1]);
        assert(new_min(rev(b), i - 1) == (rev(b)[i - 1] < s0));
    }
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs FastRmq::range_min
//@ props C13
//@ spec
    requires self.wf(), i <= j < self.data@.len(),
    ensures is_min(self.data@, i as int, j as int, r as int),
//@ start
    hide(block_wf);
    let ghost d = self.data@;
    let ghost bi = i as int / 128;
    let ghost bj = j as int / 128;
    let ghost wp = self.blocks@[bi].prefix_minima.0;
    proof {
        self.lemma_pre(bi, i as int % 128);
        self.lemma_pre(bj, j as int % 128);
        if bi < bj { self.lemma_suf(bi, i as int % 128); }
        else { lemma_xz_mono(self.blocks@[bi].suffix_minima.0, 128 - j % 128, 128 - i % 128); }
        assert forall|m: int| bi + 1 <= bj - 1 && #[trigger] is_min(self.block_minima.data@, bi + 1, bj - 1, m) implies is_min(d, 128 * (bi + 1), 128 * (bj - 1) + 127, 128 * m + self.block_min_indices@[m]) by {
            self.lemma_mid(bi + 1, bj - 1, m);
        }
        assert forall|p: int| #[trigger] xz(wp, p) >= xz(wp, i % 128 + 1) && p >= 0 && !xbit(wp, p) implies p >= i % 128 + 1 by {
            if p < i % 128 + 1 { lemma_xz_mono(wp, p + 1, i % 128 + 1); }
        }
        assert forall|x: int| i <= x <= j implies #[trigger] d[x] == d.subrange(i as int, j + 1)[x - i] by { }
    }
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs FastRmq::range_min_with_range
//@ props C13
//@ spec
    requires self.wf(), self.data@.len() > 0,
    ensures
        first_of(range.lo(), self.data@.len() as int) <= last_of(range.hi(), first_of(range.lo(), self.data@.len() as int), self.data@.len() as int) < self.data@.len(),
        is_min(self.data@, first_of(range.lo(), self.data@.len() as int), last_of(range.hi(), first_of(range.lo(), self.data@.len() as int), self.data@.len() as int), r as int),
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs <FastRmq as Deref>::deref
//@ props C13
//@ ret
&Vec<u64>
//@ spec
    ensures *r == self.data,
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs <FastRmq as From>::from
//@ props C13
//@ spec
    requires data@.len() <= u32::MAX * 128,
    ensures r.wf(), r.data@ == data@,
//@@ end
//@@ fn src/rmq/fast_rmq/mod.rs <FastRmq as FromIterator>::from_iter collectsrc
//@ props C13
//@ generics
<T: Src<u64>>
//@ spec
    requires iter.rem().len() <= u32::MAX * 128,
    ensures r.wf(), r.data@ == iter.rem(),
//@@ end
}
} // verus!
