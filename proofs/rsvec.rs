use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
verus! {
broadcast use crate::base::one_shl;
//@@ item src/bit_vec/fast_rs_vec/mod.rs const BLOCK_SIZE
//@@ item src/bit_vec/fast_rs_vec/mod.rs const SUPER_BLOCK_SIZE
//@@ item src/bit_vec/fast_rs_vec/mod.rs const SELECT_BLOCK_SIZE
//@@ item src/bit_vec/fast_rs_vec/mod.rs struct BlockDescriptor
//@@ item src/bit_vec/fast_rs_vec/mod.rs struct SuperBlockDescriptor
//@@ item src/bit_vec/fast_rs_vec/mod.rs struct SelectSuperBlockDescriptor
//@@ item src/bit_vec/fast_rs_vec/mod.rs struct RsVec

/// zeros before position `p`, clipped to the sequence
pub open spec fn zc(s: Seq<bool>, p: int) -> int {
    rank0(s, if p <= s.len() { p } else { s.len() as int })
}
/// ones before position `p`; positions past the end count as ones
pub open spec fn oc(s: Seq<bool>, p: int) -> int {
    p - zc(s, p)
}

pub proof fn lemma_zc_mono(s: Seq<bool>, p: int, q: int)
    requires 0 <= p <= q,
    ensures 0 <= zc(s, p) <= zc(s, q) <= zc(s, p) + (q - p),
{
    let n = s.len() as int;
    let a = if p <= n { p } else { n };
    let b = if q <= n { q } else { n };
    lemma_rank_mono(s, a, b);
    lemma_rank_bounds(s, a);
}

pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }

/// the block and super-block counters describe the zeros of `s`
#[verifier::opaque]
pub open spec fn counters(s: Seq<bool>, nwords: int, blocks: Seq<BlockDescriptor>, supers: Seq<SuperBlockDescriptor>) -> bool {
    &&& blocks.len() == (nwords + 7) / 8
    &&& supers.len() == (nwords + 127) / 128
    &&& forall|j: int| 0 <= j < supers.len() ==> (#[trigger] supers[j]).zeros == zc(s, 8192 * j)
    &&& forall|b: int| 0 <= b < blocks.len() ==> (#[trigger] blocks[b]).zeros == zc(s, 512 * b) - zc(s, 8192 * (b / 16))
}

/// select hints for zeros: entry k (k <= zk) names a super-block that starts at or before the 8192*k-th zero
#[verifier::opaque]
pub open spec fn hints0(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, zk: int) -> bool {
    &&& 0 <= zk < sel.len()
    &&& forall|k: int| 0 <= k <= zk ==> (#[trigger] sel[k]).index_0 < nsup || sel[k].index_0 == 0
    &&& forall|k: int| 0 <= k <= zk ==> zc(s, 8192 * (#[trigger] sel[k]).index_0) <= 8192 * k
    &&& forall|k: int, l: int| 0 <= k <= l <= zk ==> (#[trigger] sel[k]).index_0 <= (#[trigger] sel[l]).index_0
}
#[verifier::opaque]
pub open spec fn hints1(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, ok: int) -> bool {
    &&& 0 <= ok < sel.len()
    &&& forall|k: int| 0 <= k <= ok ==> (#[trigger] sel[k]).index_1 < nsup || sel[k].index_1 == 0
    &&& forall|k: int| 0 <= k <= ok ==> oc(s, 8192 * (#[trigger] sel[k]).index_1) <= 8192 * k
    &&& forall|k: int, l: int| 0 <= k <= l <= ok ==> (#[trigger] sel[k]).index_1 <= (#[trigger] sel[l]).index_1
}
pub proof fn lemma_counters_block(s: Seq<bool>, i: int, b0: Seq<BlockDescriptor>, s0: Seq<SuperBlockDescriptor>,
    b1: Seq<BlockDescriptor>, s1: Seq<SuperBlockDescriptor>)
    requires counters(s, i, b0, s0), i >= 0,
        i % 8 != 0 ==> b1 == b0,
        i % 8 == 0 ==> b1.len() == b0.len() + 1 && b1 == b0.push(b1.last()) && b1.last().zeros == zc(s, 64 * i) - zc(s, 8192 * (i / 128)),
        i % 128 != 0 ==> s1 == s0,
        i % 128 == 0 ==> s1.len() == s0.len() + 1 && s1 == s0.push(s1.last()) && s1.last().zeros == zc(s, 64 * i),
    ensures counters(s, i + 1, b1, s1), s1.len() == i / 128 + 1, b1.len() == i / 8 + 1,
{
    reveal(counters);
}
pub proof fn lemma_hints0_step(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, zk: int,
    sel1: Seq<SelectSuperBlockDescriptor>, nsup1: int, zk1: int)
    requires
        hints0(s, sel, nsup, zk), nsup <= nsup1, zk1 < sel1.len(),
        forall|k: int| 0 <= k <= zk ==> (#[trigger] sel1[k]).index_0 == sel[k].index_0,
        zk1 == zk || (zk1 == zk + 1 && nsup1 > 0 && sel1[zk1].index_0 == nsup1 - 1 && zc(s, 8192 * (nsup1 - 1)) <= 8192 * zk1),
    ensures hints0(s, sel1, nsup1, zk1),
{
    reveal(hints0);
    if zk1 == zk + 1 {
        assert forall|k: int, l: int| 0 <= k <= l <= zk1 implies (#[trigger] sel1[k]).index_0 <= (#[trigger] sel1[l]).index_0 by {
            if k <= zk { assert(sel1[k].index_0 == sel[k].index_0); assert(sel[k].index_0 < nsup || sel[k].index_0 == 0); }
            if l <= zk { assert(sel1[l].index_0 == sel[l].index_0); }
        }
        assert forall|k: int| 0 <= k <= zk1 implies (#[trigger] sel1[k]).index_0 < nsup1 || sel1[k].index_0 == 0 by {
            if k <= zk { assert(sel1[k].index_0 == sel[k].index_0); }
        }
        assert forall|k: int| 0 <= k <= zk1 implies zc(s, 8192 * (#[trigger] sel1[k]).index_0) <= 8192 * k by {
            if k <= zk { assert(sel1[k].index_0 == sel[k].index_0); assert(zc(s, 8192 * sel[k].index_0) <= 8192 * k); }
        }
    } else {
        assert forall|k: int| 0 <= k <= zk1 implies zc(s, 8192 * (#[trigger] sel1[k]).index_0) <= 8192 * k by {
            assert(zc(s, 8192 * sel[k].index_0) <= 8192 * k);
        }
    }
}
pub proof fn lemma_hints1_step(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, zk: int,
    sel1: Seq<SelectSuperBlockDescriptor>, nsup1: int, zk1: int)
    requires
        hints1(s, sel, nsup, zk), nsup <= nsup1, zk1 < sel1.len(),
        forall|k: int| 0 <= k <= zk ==> (#[trigger] sel1[k]).index_1 == sel[k].index_1,
        zk1 == zk || (zk1 == zk + 1 && nsup1 > 0 && sel1[zk1].index_1 == nsup1 - 1 && oc(s, 8192 * (nsup1 - 1)) <= 8192 * zk1),
    ensures hints1(s, sel1, nsup1, zk1),
{
    reveal(hints1);
    if zk1 == zk + 1 {
        assert forall|k: int, l: int| 0 <= k <= l <= zk1 implies (#[trigger] sel1[k]).index_1 <= (#[trigger] sel1[l]).index_1 by {
            if k <= zk { assert(sel1[k].index_1 == sel[k].index_1); assert(sel[k].index_1 < nsup || sel[k].index_1 == 0); }
            if l <= zk { assert(sel1[l].index_1 == sel[l].index_1); }
        }
        assert forall|k: int| 0 <= k <= zk1 implies (#[trigger] sel1[k]).index_1 < nsup1 || sel1[k].index_1 == 0 by {
            if k <= zk { assert(sel1[k].index_1 == sel[k].index_1); }
        }
        assert forall|k: int| 0 <= k <= zk1 implies oc(s, 8192 * (#[trigger] sel1[k]).index_1) <= 8192 * k by {
            if k <= zk { assert(sel1[k].index_1 == sel[k].index_1); assert(oc(s, 8192 * sel[k].index_1) <= 8192 * k); }
        }
    } else {
        assert forall|k: int| 0 <= k <= zk1 implies oc(s, 8192 * (#[trigger] sel1[k]).index_1) <= 8192 * k by {
            assert(oc(s, 8192 * sel[k].index_1) <= 8192 * k);
        }
    }
}
pub proof fn lemma_div_step(a: int, b: int)
    requires 0 <= a <= b <= a + 64,
    ensures b / 8192 == a / 8192 || b / 8192 == a / 8192 + 1,
        a < 8192 * (a / 8192 + 1),
{}

/// as the hints, with one more entry that repeats the last one
pub open spec fn final0(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, zk: int) -> bool {
    &&& hints0(s, sel, nsup, zk)
    &&& zk + 1 < sel.len()
    &&& sel[zk + 1].index_0 == sel[zk].index_0
}
pub open spec fn final1(s: Seq<bool>, sel: Seq<SelectSuperBlockDescriptor>, nsup: int, ok: int) -> bool {
    &&& hints1(s, sel, nsup, ok)
    &&& ok + 1 < sel.len()
    &&& sel[ok + 1].index_1 == sel[ok].index_1
}

impl RsVec {
    pub open spec fn bit(&self, i: int) -> bool {
        wbit(self.data@[i / 64], i % 64)
    }
    pub open spec fn view(&self) -> Seq<bool> {
        Seq::new(self.len as nat, |i: int| self.bit(i))
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.len <= usize::MAX - 63
        &&& self.data@.len() == (self.len as int + 63) / 64
        &&& counters(self@, self.data@.len() as int, self.blocks@, self.super_blocks@)
        &&& self.rank0 == rank0(self@, self.len as int)
        &&& self.rank1 == rank1(self@, self.len as int)
        &&& self.wf_select()
    }
    #[verifier::opaque]
    pub open spec fn wf_select(&self) -> bool {
        exists|zk: int, ok: int| {
            &&& zk == self.rank0 as int / 8192
            &&& ok >= self.rank1 as int / 8192
            &&& #[trigger] final0(self@, self.select_blocks@, self.super_blocks@.len() as int, zk)
            &&& #[trigger] final1(self@, self.select_blocks@, self.super_blocks@.len() as int, ok)
        }
    }
    /// bits of one limb, as the view sees them
    pub proof fn lemma_limb(&self, k: int)
        requires 0 <= k < self.data@.len(),
        ensures forall|j: int| 0 <= j < 64 && 64 * k + j < self.len ==> self@[64 * k + j] == wbit(self.data@[k], j),
    {
        assert forall|j: int| 0 <= j < 64 && 64 * k + j < self.len implies self@[64 * k + j] == wbit(self.data@[k], j) by {
            assert((64 * k + j) / 64 == k && (64 * k + j) % 64 == j);
        }
    }
}

/// population of `w | lowmask(n)`
pub proof fn lemma_pop_or_mask(w: u64, m: u64, n: int, k: int)
    requires 0 <= n <= 64, 0 <= k <= 64, forall|j: int| 0 <= j < 64 ==> wbit(m, j) == (j < n || wbit(w, j)),
    ensures pop(m, k) == if k <= n { k } else { n + pop(w, k) - pop(w, n) },
    decreases k,
{
    if k > 0 { lemma_pop_or_mask(w, m, n, k - 1); }
}

pub proof fn lemma_pop_not(w: u64, k: int)
    requires 0 <= k <= 64,
    ensures pop(!w, k) == k - pop(w, k),
    decreases k,
{
    broadcast use group_wbit;
    if k > 0 { lemma_pop_not(w, k - 1); }
}

/// zeros that word `i` of a vector contributes
pub proof fn lemma_zc_word(v: &BitVec, i: int)
    requires v.wf(), 0 <= i < v.data@.len(),
    ensures ({
        let w = v.data@[i];
        let n = v.len as int - 64 * i;
        zc(v@, 64 * (i + 1)) == zc(v@, 64 * i) + if n >= 64 { 64 - pop(w, 64) } else { n - pop(w, n) }
    }),
{
    let w = v.data@[i];
    let n = v.len as int - 64 * i;
    v.lemma_limb(i);
    lemma_rank_word(v@, 64 * i, w, if n >= 64 { 64 } else { n });
}

/// zeros that the construction counts for word `i`
pub proof fn lemma_new_zeros(v: &BitVec, i: int)
    requires v.wf(), 0 <= i < v.data@.len(), v.len <= usize::MAX - 63,
    ensures ({
        let w = v.data@[i];
        let n = v.len as int - 64 * i;
        &&& 0 <= pop(w, 64) <= 64
        &&& n >= 64 ==> zc(v@, 64 * (i + 1)) == zc(v@, 64 * i) + 64 - pop(w, 64)
        &&& n < 64 ==> 0 < n && n == v.len % 64 && pop(w, 64) <= pop(w | lowmask(n), 64) <= 64
            && zc(v@, 64 * (i + 1)) == zc(v@, 64 * i) + pop(w | lowmask(n), 64) - pop(w, 64)
    }),
{
    broadcast use group_wbit;
    let w = v.data@[i];
    let n = v.len as int - 64 * i;
    lemma_zc_word(v, i);
    lemma_pop_bounds(w, 64);
    if n < 64 {
        lemma_lowmask(n);
        lemma_pop_or_mask(w, w | lowmask(n), n, 64);
        lemma_pop_bounds(w, n);
        lemma_pop_or_mask(w, w, 0, 64);
        lemma_pop_bounds(w | lowmask(n), 64);
    }
}
/// nothing before position 0, everything before the end
pub proof fn lemma_zc_ends(v: &BitVec)
    requires v.wf(), v.len <= usize::MAX - 63,
    ensures zc(v@, 0) == 0, zc(v@, 64 * v.data@.len() as int) == rank0(v@, v.len as int),
        0 <= rank0(v@, v.len as int) <= v.len, rank1(v@, v.len as int) == v.len - rank0(v@, v.len as int),
{
    lemma_rank_bounds(v@, v.len as int);
}

impl RsVec {
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::from_bit_vec
//@ props C05 C06 C07
//@ attr
#[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@ spec
    requires vec.wf(), vec.len <= usize::MAX - 63,
    ensures r.wf(), r@ == vec@, r.data@ == vec.data@, r.len == vec.len,
//@ start
    hide(zc); hide(rank1); hide(rank0); hide(pop); hide(BitVec::view);
    let ghost s = vec@;
    let ghost nw = vec.data@.len() as int;
//@ loop 0
    invariant
        vec.wf(), vec.len <= usize::MAX - 63, s == vec@, nw == vec.data@.len(),
        counters(s, idx as int, blocks@, super_blocks@),
        total_zeros + current_zeros == zc(s, 64 * idx),
        total_zeros == if idx == 0 { 0 } else { zc(s, 8192 * ((idx - 1) / 128)) },
        zc(s, 64 * idx) <= 64 * idx,
        last_zero_select_block == zc(s, 64 * idx) / 8192,
        last_one_select_block == oc(s, 64 * idx) / 8192,
        select_blocks@.len() == 1 + if last_zero_select_block >= last_one_select_block { last_zero_select_block as int } else { last_one_select_block as int },
        hints0(s, select_blocks@, super_blocks@.len() as int, last_zero_select_block as int),
        hints1(s, select_blocks@, super_blocks@.len() as int, last_one_select_block as int),
        forall|k: int| last_zero_select_block < k < select_blocks@.len() ==> (#[trigger] select_blocks@[k]).index_0 == 0,
        forall|k: int| last_one_select_block < k < select_blocks@.len() ==> (#[trigger] select_blocks@[k]).index_1 == 0,
//@ body 0
    let ghost i = idx as int;
    let ghost blocks0 = blocks@;
    let ghost supers0 = super_blocks@;
    let ghost sel0 = select_blocks@;
    let ghost lz0 = last_zero_select_block as int;
    let ghost lo0 = last_one_select_block as int;
    let ghost z0 = zc(s, 64 * i);
    let ghost z1 = zc(s, 64 * (i + 1));
    proof {
        lemma_zc_mono(s, 64 * i, 64 * (i + 1));
        lemma_zc_mono(s, 0, 64 * i);
        lemma_zc_mono(s, 8192 * (i / 128), 64 * i);
        if i > 0 { lemma_zc_mono(s, 8192 * ((i - 1) / 128), 64 * i); }
    }
//@ before new_zeros
    proof {
        lemma_counters_block(s, i, blocks0, supers0, blocks@, super_blocks@);
        lemma_new_zeros(&vec, i);
    }
//@ after all_zeros
    let ghost sup = super_blocks@.len() as int;
    proof {
        assert(all_zeros == z1);
        assert(total_zeros + current_zeros == z0);
        assert(sup - 1 == i / 128);
        lemma_zc_mono(s, 8192 * (sup - 1), 64 * i);
        lemma_div_step(z0, z1);
        lemma_div_step(64 * i - z0, 64 * (i + 1) - z1);
        assert(lz0 < sel0.len() && lo0 < sel0.len()) by { reveal(hints0); reveal(hints1); }
        assert((total_zeros + current_zeros) / 8192 == lz0);
        assert(all_zeros as int / 8192 == lz0 || all_zeros as int / 8192 == lz0 + 1);
        assert((64 * i - z0) / 8192 == lo0);
        assert((64 * (i + 1) - z1) / 8192 == lo0 || (64 * (i + 1) - z1) / 8192 == lo0 + 1);
    }
//@ before total_bits
    let ghost sel1 = select_blocks@;
    proof {
        assert(last_zero_select_block == z1 / 8192);
        assert(sel1.len() == 1 + if last_zero_select_block >= lo0 { last_zero_select_block as int } else { lo0 });
        assert forall|k: int| 0 <= k < sel1.len() && k != z1 / 8192 implies k < sel0.len() && #[trigger] sel1[k] == sel0[k] by {}
        assert forall|k: int| 0 <= k < sel0.len() implies (#[trigger] sel1[k]).index_1 == sel0[k].index_1 by {}
        lemma_hints0_step(s, sel0, supers0.len() as int, lz0, sel1, sup, last_zero_select_block as int);
        lemma_hints1_step(s, sel0, supers0.len() as int, lo0, sel1, sup, lo0);
    }
//@ bodyend 0
    proof {
        assert(last_one_select_block == oc(s, 64 * (i + 1)) / 8192);
        lemma_hints0_step(s, sel1, sup, last_zero_select_block as int, select_blocks@, sup, last_zero_select_block as int);
        lemma_hints1_step(s, sel1, sup, lo0, select_blocks@, sup, last_one_select_block as int);
    }
//@ beforeloop 0
    proof { lemma_zc_ends(&vec); reveal(counters); reveal(hints0); reveal(hints1); }
//@ afterloop 0
    let ghost nsup = super_blocks@.len() as int;
    let ghost zk = last_zero_select_block as int;
    let ghost ok = last_one_select_block as int;
    let ghost self0 = select_blocks@;
    proof { lemma_zc_mono(s, 0, 64 * nw); }
//@ end
    proof {
        lemma_hints0_step(s, self0, nsup, zk, select_blocks@, nsup, zk);
        lemma_hints1_step(s, self0, nsup, ok, select_blocks@, nsup, ok);
        lemma_zc_ends(&vec);
        assert(final0(s, select_blocks@, nsup, zk));
        assert(final1(s, select_blocks@, nsup, ok));
    }
//@ tail
    proof {
        reveal(BitVec::view);
        assert(res__@ =~= s);
        assert(final0(res__@, res__.select_blocks@, res__.super_blocks@.len() as int, zk));
        assert(final1(res__@, res__.select_blocks@, res__.super_blocks@.len() as int, ok));
        assert(res__.wf_select()) by { reveal(RsVec::wf_select); }
    }
//@@ end

//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::len
//@ props C07
//@ spec
    ensures r == self.len, r == self@.len(),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::is_empty
//@ props C07
//@ spec
    ensures r == (self.len == 0),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::rank0
//@ props C05
//@ spec
    requires self.wf(),
    ensures r == zc(self@, pos as int), r == rank0(self@, if pos < self.len { pos as int } else { self.len as int }),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::rank1
//@ props C05
//@ spec
    requires self.wf(),
    ensures r == rank1(self@, if pos < self.len { pos as int } else { self.len as int }),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::rank
//@ props C05
//@ spec
    requires self.wf(),
    ensures zero ==> r == rank0(self@, if pos < self.len { pos as int } else { self.len as int }),
        !zero ==> r == rank1(self@, if pos < self.len { pos as int } else { self.len as int }),
//@ start
    broadcast use group_wbit;
    proof { reveal(counters); }
    let ghost s = self@;
//@ after block_index
    let ghost b = pos as int / 512;
    proof {
        lemma_zc_mono(s, 8192 * (b / 16), 512 * b);
        lemma_zc_mono(s, 512 * b, pos as int);
        lemma_zc_mono(s, 0, 8192 * (b / 16));
        assert(b / 16 == pos as int / 8192);
    }
//@ loop 0
    invariant self.wf(), s == self@, pos < self.len, b == pos as int / 512, index == pos / 64,
        it__0.seq().len() == index - 8 * b,
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == self.data@[8 * b + k],
        rank <= 64 * (8 * b + it__0.index@),
        zero ==> rank == rank0(s, 64 * (8 * b + it__0.index@)),
        !zero ==> rank == rank1(s, 64 * (8 * b + it__0.index@)),
//@ body 0
    proof {
        let k = 8 * b + it__0.index@;
        self.lemma_limb(k);
        lemma_rank_word(s, 64 * k, self.data@[k], 64);
        lemma_pop_bounds(self.data@[k], 64);
    }
//@ afterloop 0
    proof {
        let k = pos as int / 64;
        let n = pos as int % 64;
        let w = self.data@[k];
        self.lemma_limb(k);
        lemma_rank_word(s, 64 * k, w, n);
        lemma_lowmask(n);
        lemma_pop_masked(w, w & lowmask(n), n, 64);
        lemma_pop_masked(!w, !w & lowmask(n), n, 64);
        lemma_pop_not(w, n);
        lemma_pop_bounds(w, n);
    }
//@@ end

//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::get
//@ props C07
//@ spec
    requires self.wf(),
    ensures r == (if pos < self.len { Some(b2u(self@[pos as int])) } else { None::<u64> }),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::get_unchecked
//@ props C07
//@ spec
    requires self.wf(), pos < self.len,
    ensures r == b2u(self@[pos as int]),
//@ start
    proof { lemma_bit_read(self.data@[pos as int / 64], (pos % 64) as u64); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::get_bits
//@ props C07
//@ spec
    requires self.wf(),
    ensures
        r is Some <==> (len <= 64 && pos + len <= self.len),
        r is Some ==> is_bits(r->0, self@, pos as int, len as int),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::get_bits_unchecked
//@ props C07
//@ spec
    requires self.wf(), len <= 64, pos + len <= self.len,
    ensures is_bits(r, self@, pos as int, len as int), len == 0 ==> r == 0,
//@ start
    broadcast use group_wbit;
    proof { lemma_lowmask(len as int); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::into_bit_vec
//@ props C07
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == self@,
//@ tail
    assert(res__@ =~= self@);
//@@ end
}
} // verus!
