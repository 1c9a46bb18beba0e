use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
verus! {
broadcast use crate::base::one_shl;

/// a hasher that records what it is fed: `Hash::hash` is generic in the hasher and can only call these methods,
/// so its effect on any hasher is determined by this record
pub struct TraceHasher { pub trace: Ghost<Seq<u64>> }
impl TraceHasher {
    #[verifier::external_body]
    pub fn write_usize(&mut self, x: usize)
        ensures final(self).trace@ == old(self).trace@.push(x as u64),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64(&mut self, x: u64)
        ensures final(self).trace@ == old(self).trace@.push(x),
    { unimplemented!() }
}

/// `t` is the record that hashing the bit sequence `s` leaves: its length, then its limbs with zeros past the end
pub open spec fn hash_trace(t: Seq<u64>, s: Seq<bool>) -> bool {
    &&& t.len() == 1 + (s.len() + 63) / 64
    &&& t[0] == s.len() as u64
    &&& forall|k: int| 0 <= k < (s.len() + 63) / 64 ==> #[trigger] is_bits(t[k + 1], s, 64 * k, s.len() - 64 * k)
}

/// C03: equal bit sequences leave equal hash records
pub proof fn lemma_hash_determined(t1: Seq<u64>, t2: Seq<u64>, s: Seq<bool>)
    requires hash_trace(t1, s), hash_trace(t2, s),
    ensures t1 == t2,
{
    assert forall|k: int| 0 <= k < t1.len() implies t1[k] == t2[k] by {
        if k > 0 {
            let m = k - 1;
            assert(is_bits(t1[m + 1], s, 64 * m, s.len() - 64 * m));
            assert(is_bits(t2[m + 1], s, 64 * m, s.len() - 64 * m));
            wbit_ext(t1[k], t2[k]);
        }
    }
    assert(t1 =~= t2);
}

impl BitVec {
    /// vectors that differ in the visible part of a limb differ in a bit
    pub proof fn lemma_limb_differs(&self, other: &BitVec, k: int, m: u64)
        requires self.wf(), other.wf(), self.len == other.len, 0 <= k < self.data@.len(),
            forall|j: int| 0 <= j < 64 ==> wbit(m, j) == (64 * k + j < self.len),
        ensures (self.data@[k] & m != other.data@[k] & m) ==> self@ != other@,
            (self.data@[k] & m == other.data@[k] & m) ==> (forall|j: int| 0 <= j < 64 && 64 * k + j < self.len ==> #[trigger] wbit(self.data@[k], j) == wbit(other.data@[k], j)),
    {
        broadcast use group_wbit;
        let a = self.data@[k] & m;
        let b = other.data@[k] & m;
        self.lemma_limb(k);
        other.lemma_limb(k);
        if self@ == other@ {
            assert forall|j: int| 0 <= j < 64 implies wbit(a, j) == wbit(b, j) by {
                if 64 * k + j < self.len {
                    assert(self@[64 * k + j] == other@[64 * k + j]);
                }
            }
            wbit_ext(a, b);
        }
        if a == b {
            assert forall|j: int| 0 <= j < 64 && 64 * k + j < self.len implies #[trigger] wbit(self.data@[k], j) == wbit(other.data@[k], j) by {
                assert(wbit(a, j) == wbit(b, j));
            }
        }
    }

//@@ fn src/bit_vec/mod.rs <BitVec as PartialEq>::eq as=eq_impl
//@ props C03
//@ spec
    requires self.wf(), other.wf(),
    ensures r == (self@ == other@),
//@ start
    broadcast use group_wbit;
    proof {
        if self.len != other.len { assert(self@.len() != other@.len()); }
        if self.len == 0 && other.len == 0 { assert(self@ =~= other@); }
        assert forall|k: int| 0 <= k < self.data@.len() - 1 implies (self.data@[k] & u64::MAX) == self.data@[k] by { lemma_and_max(self.data@[k]); }
        assert forall|k: int| 0 <= k < other.data@.len() - 1 implies (other.data@[k] & u64::MAX) == other.data@[k] by { lemma_and_max(other.data@[k]); }
    }
//@ loop 0
    invariant self.wf(), other.wf(), self.len == other.len, self.len > 0,
        forall|k: int| 0 <= k < self.data@.len() - 1 ==> (self.data@[k] & u64::MAX) == self.data@[k],
        forall|k: int| 0 <= k < other.data@.len() - 1 ==> (other.data@[k] & u64::MAX) == other.data@[k],
        forall|k: int| 0 <= k < i ==> self.data@[k] == other.data@[k],
//@ body 0
    broadcast use group_wbit;
    proof { self.lemma_limb_differs(other, i as int, u64::MAX); }
//@ after mask
    proof {
        let k = self.data@.len() - 1;
        self.lemma_limb_differs(other, k, mask);
        if self.data@[k] & mask == other.data@[k] & mask {
            assert forall|p: int| 0 <= p < self.len implies self@[p] == other@[p] by {
                if p / 64 < k {
                    assert(self.data@[p / 64] == other.data@[p / 64]);
                } else {
                    assert(p / 64 == k);
                }
            }
            assert(self@ =~= other@);
        }
    }
//@@ end

//@@ fn src/bit_vec/mod.rs <BitVec as Hash>::hash as=hash_impl
//@ props C03
//@ generics

//@ subst
H => TraceHasher
//@ spec
    requires self.wf(),
    ensures
        exists|t: Seq<u64>| hash_trace(t, self@) && final(state).trace@ == old(state).trace@ + t,
//@ start
    broadcast use group_wbit;
    let ghost mut t: Seq<u64> = seq![self.len as u64];
//@ aftercall write_usize
    assert(state.trace@ =~= old(state).trace@ + t);
//@ loop 0
    invariant self.wf(), self.len > 0, it__0.seq().len() == self.data@.len() - 1,
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == self.data@[k],
        t == seq![self.len as u64] + self.data@.take(it__0.index@ as int),
        state.trace@ == old(state).trace@ + t,
//@ bodyend 0
    ;proof {
        let ghost t2 = t.push(self.data@[it__0.index@ as int]);
        assert(t2 =~= seq![self.len as u64] + self.data@.take(it__0.index@ as int + 1));
        assert(state.trace@ =~= old(state).trace@ + t2);
        t = t2;
    }
//@ end
    proof {
        if self.len > 0 {
            let k = self.data@.len() - 1;
            let lw = state.trace@[state.trace@.len() - 1];
            let t2 = t.push(lw);
            assert(state.trace@ =~= old(state).trace@ + t2);
            assert forall|m: int| 0 <= m < (self.len as int + 63) / 64 implies #[trigger] is_bits(t2[m + 1], self@, 64 * m, self.len - 64 * m) by {
                self.lemma_limb(m);
                if m < k { assert(t2[m + 1] == self.data@[m]); }
            }
            assert(hash_trace(t2, self@));
        } else {
            assert(hash_trace(t, self@));
        }
    }
//@@ end
}

pub proof fn lemma_and_max(w: u64)
    ensures w & u64::MAX == w,
{
    assert(w & 0xffff_ffff_ffff_ffffu64 == w) by (bit_vector);
}

// ------------------------------------------------------------------------------------------ masks (C04)

//@@ item src/bit_vec/mask.rs struct MaskedBitVec

/// `f` accepts all words and works bit by bit as `op`
pub open spec fn bitwise<F: Fn(u64, u64) -> u64>(f: F, op: spec_fn(bool, bool) -> bool) -> bool {
    forall|a: u64, b: u64, r: u64, i: int| 0 <= i < 64 && #[trigger] f.ensures((a, b), r) ==> #[trigger] wbit(r, i) == op(wbit(a, i), wbit(b, i))
}
pub open spec fn is_mask_op<F: Fn(u64, u64) -> u64>(f: F) -> bool {
    forall|a: u64, b: u64| #[trigger] f.requires((a, b))
}
/// pointwise combination of two bit sequences
pub open spec fn combine(a: Seq<bool>, b: Seq<bool>, op: spec_fn(bool, bool) -> bool) -> Seq<bool> {
    Seq::new(a.len(), |i: int| op(a[i], b[i]))
}

impl<'a, 'b, F> MaskedBitVec<'a, 'b, F>
where
    F: Fn(u64, u64) -> u64,
{
    pub open spec fn wf(&self) -> bool {
        self.vec.wf() && self.mask.wf() && self.vec.len == self.mask.len && is_mask_op(self.bin_op)
    }
    /// the masked bits, when the operation works bitwise as `op`
    pub open spec fn bits(&self, op: spec_fn(bool, bool) -> bool) -> Seq<bool> {
        combine(self.vec@, self.mask@, op)
    }
    pub proof fn lemma_limb(&self, op: spec_fn(bool, bool) -> bool, k: int, w: u64)
        requires self.wf(), 0 <= k < self.vec.data@.len(), self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), w),
            bitwise(self.bin_op, op),
        ensures forall|j: int| 0 <= j < 64 && 64 * k + j < self.vec.len ==> self.bits(op)[64 * k + j] == #[trigger] wbit(w, j),
    {
        self.vec.lemma_limb(k);
        self.mask.lemma_limb(k);
    }

//@@ fn src/bit_vec/mask.rs MaskedBitVec::new
//@ props C04
//@ spec
    requires vec.wf(), mask.wf(), is_mask_op(bin_op),
    ensures r is Ok <==> vec.len == mask.len,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.bin_op == bin_op && r->Ok_0.vec == vec && r->Ok_0.mask == mask,
//@@ end

//@@ fn src/bit_vec/mask.rs MaskedBitVec::iter_limbs
//@ props C04
//@ generics
<'s>
//@ ret
Vec<u64>
//@ spec
    requires self.wf(),
    ensures r@.len() == self.vec.data@.len(),
        forall|k: int| 0 <= k < r@.len() ==> #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), r@[k]),
//@ loop 0
    invariant self.wf(), items__0@.len() == i__0,
        forall|k: int| 0 <= k < items__0@.len() ==> #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), items__0@[k]),
//@@ end

//@@ fn src/bit_vec/mask.rs MaskedBitVec::get
//@ props C04
//@ spec
    requires self.wf(),
    ensures r is Some <==> pos < self.vec.len,
        forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> (r is Some ==> r->0 == b2u(self.bits(op)[pos as int])),
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::get_unchecked
//@ props C04
//@ spec
    requires self.wf(), pos < self.vec.len,
    ensures forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> r == b2u(self.bits(op)[pos as int]),
//@ start
    broadcast use group_wbit;
    proof {
        let k = pos as int / 64;
        assert forall|w: u64, op: spec_fn(bool, bool) -> bool| #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), w) && #[trigger] bitwise(self.bin_op, op) implies (w >> (pos % 64) as u64) & 1 == b2u(self.bits(op)[pos as int]) by {
            self.lemma_limb(op, k, w);
            lemma_bit_read(w, (pos % 64) as u64);
            assert(self.bits(op)[64 * k + pos as int % 64] == wbit(w, pos as int % 64));
        }
    }
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::is_bit_set
//@ props C04
//@ spec
    requires self.wf(),
    ensures r is Some <==> pos < self.vec.len,
        forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> (r is Some ==> r->0 == self.bits(op)[pos as int]),
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::is_bit_set_unchecked
//@ props C04
//@ spec
    requires self.wf(), pos < self.vec.len,
    ensures forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> r == self.bits(op)[pos as int],
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::get_bits
//@ props C04
//@ spec
    requires self.wf(),
    ensures
        r is Some <==> (1 <= len <= 64 && pos + len <= self.vec.len),
        forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> (r is Some ==> is_bits(r->0, self.bits(op), pos as int, len as int)),
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::get_bits_unchecked
//@ props C04
//@ spec
    requires self.wf(), 1 <= len <= 64, pos + len <= self.vec.len,
    ensures forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> is_bits(r, self.bits(op), pos as int, len as int),
//@ start
    broadcast use group_wbit;
    proof {
        lemma_lowmask(len as int % 64);
        let k = pos as int / 64;
        let o = pos as int % 64;
        assert forall|w: u64, j: int, op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) && #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), w) && 0 <= j < 64 && j - o < len && o <= j implies #[trigger] wbit(w, j) == self.bits(op)[pos + (j - o)] by {
            self.lemma_limb(op, k, w);
            assert(self.bits(op)[64 * k + j] == wbit(w, j));
        }
        if o + len > 64 {
            assert forall|w: u64, j: int, op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) && #[trigger] self.bin_op.ensures((self.vec.data@[k + 1], self.mask.data@[k + 1]), w) && 0 <= j < o + len - 64 implies #[trigger] wbit(w, j) == self.bits(op)[pos + (j + 64 - o)] by {
                self.lemma_limb(op, k + 1, w);
                assert(self.bits(op)[64 * (k + 1) + j] == wbit(w, j));
            }
        }
    }
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::count_ones
//@ props C04
//@ ret
u64
//@ spec
    requires self.wf(),
    ensures forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> r == rank1(self.bits(op), self.vec.len as int),
        r <= self.vec.len,
//@ loop 0
    invariant self.wf(), sum__0 <= 64 * i__0, forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> sum__0 == rank1(self.bits(op), 64 * i__0),
        i__0 <= self.vec.len / 64,
        seq__0@.len() == self.vec.data@.len(),
        forall|k: int| 0 <= k < seq__0@.len() ==> #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), seq__0@[k]),
//@ body 0
    proof {
        let k = i__0 as int;
        let w = seq__0@[k];
        lemma_pop_bounds(w, 64);
        assert forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) implies rank1(self.bits(op), 64 * k + 64) == rank1(self.bits(op), 64 * k) + pop(w, 64) by {
            self.lemma_limb(op, k, w);
            lemma_rank_word(self.bits(op), 64 * k, w, 64);
        }
    }
//@ after ones
    proof {
        broadcast use group_wbit;
        let k = self.vec.len as int / 64;
        let n = self.vec.len as int % 64;
        if n != 0 {
            lemma_lowmask(n);
            assert forall|w: u64| #[trigger] self.bin_op.ensures((self.vec.data@[k], self.mask.data@[k]), w) implies
                0 <= pop(w & lowmask(n), 64) <= n &&
                (forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> rank1(self.bits(op), self.vec.len as int) == rank1(self.bits(op), 64 * k) + pop(w & lowmask(n), 64)) by {
                lemma_pop_masked(w, w & lowmask(n), n, 64);
                lemma_pop_bounds(w, n);
                assert forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) implies rank1(self.bits(op), self.vec.len as int) == rank1(self.bits(op), 64 * k) + pop(w & lowmask(n), 64) by {
                    self.lemma_limb(op, k, w);
                    lemma_rank_word(self.bits(op), 64 * k, w, n);
                }
            }
        }
    }
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::count_zeros
//@ props C04
//@ spec
    requires self.wf(),
    ensures forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> r == self.vec.len - rank1(self.bits(op), self.vec.len as int),
//@@ end
//@@ fn src/bit_vec/mask.rs MaskedBitVec::to_bit_vec
//@ props C04
//@ subst
self.iter_limbs().collect() => self.iter_limbs()
//@ spec
    requires self.wf(),
    ensures r.wf(), forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) ==> r@ == self.bits(op),
//@ tail
    proof {
        assert forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(self.bin_op, op) implies res__@ == self.bits(op) by {
            assert forall|p: int| 0 <= p < self.vec.len implies res__@[p] == self.bits(op)[p] by {
                let k = p / 64;
                self.lemma_limb(op, k, res__.data@[k]);
                assert(self.bits(op)[64 * k + p % 64] == wbit(res__.data@[k], p % 64));
            }
            assert(res__@ =~= self.bits(op));
        }
    }
//@@ end
}

impl BitVec {
//@@ fn src/bit_vec/mod.rs BitVec::mask_or closures=u64
//@ props C04
//@ ret
Result<MaskedBitVec<'s, 'b, impl Fn(u64, u64) -> u64>, String>
//@ spec
    requires self.wf(), mask.wf(),
    ensures r is Ok <==> self.len == mask.len,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.vec == self && r->Ok_0.mask == mask && bitwise(r->Ok_0.bin_op, |a: bool, b: bool| a || b),
//@ start
    broadcast use group_wbit;
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::mask_and closures=u64
//@ props C04
//@ ret
Result<MaskedBitVec<'s, 'b, impl Fn(u64, u64) -> u64>, String>
//@ spec
    requires self.wf(), mask.wf(),
    ensures r is Ok <==> self.len == mask.len,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.vec == self && r->Ok_0.mask == mask && bitwise(r->Ok_0.bin_op, |a: bool, b: bool| a && b),
//@ start
    broadcast use group_wbit;
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::mask_xor closures=u64
//@ props C04
//@ ret
Result<MaskedBitVec<'s, 'b, impl Fn(u64, u64) -> u64>, String>
//@ spec
    requires self.wf(), mask.wf(),
    ensures r is Ok <==> self.len == mask.len,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.vec == self && r->Ok_0.mask == mask && bitwise(r->Ok_0.bin_op, |a: bool, b: bool| a != b),
//@ start
    broadcast use group_wbit;
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::mask_custom
//@ props C04
//@ spec
    requires self.wf(), mask.wf(), is_mask_op(mask_op),
    ensures r is Ok <==> self.len == mask.len,
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.vec == self && r->Ok_0.mask == mask && r->Ok_0.bin_op == mask_op,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::apply_mask_or
//@ props C04
//@ spec
    requires old(self).wf(), mask.wf(),
    ensures final(self).wf(), r is Ok <==> old(self).len == mask.len,
        r is Ok ==> final(self)@ == combine(old(self)@, mask@, |a: bool, b: bool| a || b),
        r is Err ==> *final(self) == *old(self),
//@ loop 0
    invariant self.data@.len() == old(self).data@.len(), self.len == old(self).len, old(self).wf(), mask.wf(), self.len == mask.len,
        forall|k: int| 0 <= k < i ==> self.data@[k] == old(self).data@[k] | mask.data@[k],
        forall|k: int| i <= k < self.data@.len() ==> self.data@[k] == old(self).data@[k],
//@ end
    broadcast use group_wbit;
    assert(self@ =~= combine(old(self)@, mask@, |a: bool, b: bool| a || b));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::apply_mask_and
//@ props C04
//@ spec
    requires old(self).wf(), mask.wf(),
    ensures final(self).wf(), r is Ok <==> old(self).len == mask.len,
        r is Ok ==> final(self)@ == combine(old(self)@, mask@, |a: bool, b: bool| a && b),
        r is Err ==> *final(self) == *old(self),
//@ loop 0
    invariant self.data@.len() == old(self).data@.len(), self.len == old(self).len, old(self).wf(), mask.wf(), self.len == mask.len,
        forall|k: int| 0 <= k < i ==> self.data@[k] == old(self).data@[k] & mask.data@[k],
        forall|k: int| i <= k < self.data@.len() ==> self.data@[k] == old(self).data@[k],
//@ end
    broadcast use group_wbit;
    assert(self@ =~= combine(old(self)@, mask@, |a: bool, b: bool| a && b));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::apply_mask_xor
//@ props C04
//@ spec
    requires old(self).wf(), mask.wf(),
    ensures final(self).wf(), r is Ok <==> old(self).len == mask.len,
        r is Ok ==> final(self)@ == combine(old(self)@, mask@, |a: bool, b: bool| a != b),
        r is Err ==> *final(self) == *old(self),
//@ loop 0
    invariant self.data@.len() == old(self).data@.len(), self.len == old(self).len, old(self).wf(), mask.wf(), self.len == mask.len,
        forall|k: int| 0 <= k < i ==> self.data@[k] == old(self).data@[k] ^ mask.data@[k],
        forall|k: int| i <= k < self.data@.len() ==> self.data@[k] == old(self).data@[k],
//@ end
    broadcast use group_wbit;
    assert(self@ =~= combine(old(self)@, mask@, |a: bool, b: bool| a != b));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::apply_mask_custom
//@ props C04
//@ generics
<F: Fn(u64, u64) -> u64>
//@ subst
fn(u64, u64) -> u64 => F
//@ spec
    requires old(self).wf(), mask.wf(), is_mask_op(mask_op),
    ensures final(self).wf(), r is Ok <==> old(self).len == mask.len,
        forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(mask_op, op) && r is Ok ==> final(self)@ == combine(old(self)@, mask@, op),
        r is Err ==> *final(self) == *old(self),
//@ loop 0
    invariant self.data@.len() == old(self).data@.len(), self.len == old(self).len, old(self).wf(), mask.wf(), self.len == mask.len,
        is_mask_op(mask_op),
        forall|k: int| 0 <= k < i ==> mask_op.ensures((old(self).data@[k], mask.data@[k]), #[trigger] self.data@[k]),
        forall|k: int| i <= k < self.data@.len() ==> self.data@[k] == old(self).data@[k],
//@ end
    proof {
        assert forall|op: spec_fn(bool, bool) -> bool| #[trigger] bitwise(mask_op, op) implies self@ == combine(old(self)@, mask@, op) by {
            assert forall|p: int| 0 <= p < self.len implies self@[p] == op(old(self)@[p], mask@[p]) by {
                let k = p / 64;
                assert(mask_op.ensures((old(self).data@[k], mask.data@[k]), self.data@[k]));
            }
            assert(self@ =~= combine(old(self)@, mask@, op));
        }
    }
//@@ end
}
} // verus!
