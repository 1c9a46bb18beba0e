use vstd::prelude::*;
use crate::base::*;
verus! {
broadcast use crate::base::one_shl;
//@@ item src/bit_vec/mod.rs const WORD_SIZE
//@@ item src/bit_vec/mod.rs struct BitVec

impl BitVec {
    /// representation invariant: exactly as many limbs as the length needs; bits past `len` are arbitrary
    pub open spec fn wf(&self) -> bool {
        self.data@.len() == (self.len as int + 63) / 64
    }
    pub open spec fn bit(&self, i: int) -> bool {
        wbit(self.data@[i / 64], i % 64)
    }
    /// the sequence of bits the vector denotes
    pub open spec fn view(&self) -> Seq<bool> {
        Seq::new(self.len as nat, |i: int| self.bit(i))
    }
    /// no residue past `len` in the last limb
    pub open spec fn clean(&self) -> bool {
        forall|i: int| self.len <= i < self.data@.len() * 64 ==> !#[trigger] self.bit(i)
    }

    pub proof fn lemma_clean(&self)
        requires self.wf(), self.clean(),
        ensures self.len % 64 != 0 ==> (forall|j: int| self.len % 64 <= j < 64 ==> !#[trigger] wbit(self.data@[self.len as int / 64], j)),
    {
        if self.len % 64 != 0 {
            assert forall|j: int| self.len % 64 <= j < 64 implies !#[trigger] wbit(self.data@[self.len as int / 64], j) by {
                let i = (self.len as int / 64) * 64 + j;
                assert(!self.bit(i));
            }
        }
    }

    // bits of one limb, as the view sees them
    pub proof fn lemma_limb(&self, k: int)
        requires self.wf(), 0 <= k < self.data@.len(),
        ensures forall|j: int| 0 <= j < 64 && 64 * k + j < self.len ==> self@[64 * k + j] == wbit(self.data@[k], j),
    {
        assert forall|j: int| 0 <= j < 64 && 64 * k + j < self.len implies self@[64 * k + j] == wbit(self.data@[k], j) by {
            assert((64 * k + j) / 64 == k && (64 * k + j) % 64 == j);
        }
    }

    // derive(Default), trusted: empty vector, zero
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.data@.len() == 0, r.len == 0,
    { unimplemented!() }

//@@ fn src/bit_vec/mod.rs BitVec::new
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::<bool>::empty(), r.len == 0, r.clean(),
//@ tail
    assert(res__@ =~= Seq::<bool>::empty());
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::with_capacity
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::<bool>::empty(), r.len == 0, r.clean(),
//@ tail
    assert(res__@ =~= Seq::<bool>::empty());
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_zeros
//@ props C01
//@ spec
    ensures r.wf(), r.clean(), r@ == Seq::new(len as nat, |i: int| false),
//@ start
    broadcast use group_wbit;
//@ tail
    assert(res__@ =~= Seq::new(len as nat, |i: int| false));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_ones
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::new(len as nat, |i: int| true),
//@ start
    broadcast use group_wbit;
    proof { if len % 64 != 0 { lemma_shl_pos((len % 64) as u64); } }
//@ tail
    assert(res__@ =~= Seq::new(len as nat, |i: int| true));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_limbs
//@ props C01
//@ spec
    requires words@.len() * 64 <= usize::MAX,
    ensures r.wf(), r.data@ == words@, r.len == words@.len() * 64,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_vec
//@ props C01
//@ spec
    requires data@.len() * 64 <= usize::MAX,
    ensures r.wf(), r.data@ == data@, r.len == data@.len() * 64,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_bits
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::new(bits@.len(), |i: int| bits@[i] % 2 == 1),
//@ loop 0
    invariant bv.wf(), bv.len == it__0.index@, bv@ =~= Seq::new(it__0.index@ as nat, |i: int| bits@[i] % 2 == 1), it__0.seq().len() == bits@.len(),
        forall|i: int| 0 <= i < bits@.len() ==> it__0.seq()[i] == bits@[i],
        bits@.len() <= usize::MAX,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_bits_u16
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::new(bits@.len(), |i: int| bits@[i] % 2 == 1),
//@ loop 0
    invariant bv.wf(), bv.len == it__0.index@, bv@ =~= Seq::new(it__0.index@ as nat, |i: int| bits@[i] % 2 == 1), it__0.seq().len() == bits@.len(),
        forall|i: int| 0 <= i < bits@.len() ==> it__0.seq()[i] == bits@[i],
        bits@.len() <= usize::MAX,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_bits_u32
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::new(bits@.len(), |i: int| bits@[i] % 2 == 1),
//@ loop 0
    invariant bv.wf(), bv.len == it__0.index@, bv@ =~= Seq::new(it__0.index@ as nat, |i: int| bits@[i] % 2 == 1), it__0.seq().len() == bits@.len(),
        forall|i: int| 0 <= i < bits@.len() ==> it__0.seq()[i] == bits@[i],
        bits@.len() <= usize::MAX,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_bits_u64
//@ props C01
//@ spec
    ensures r.wf(), r@ == Seq::new(bits@.len(), |i: int| bits@[i] % 2 == 1),
//@ loop 0
    invariant bv.wf(), bv.len == it__0.index@, bv@ =~= Seq::new(it__0.index@ as nat, |i: int| bits@[i] % 2 == 1), it__0.seq().len() == bits@.len(),
        forall|i: int| 0 <= i < bits@.len() ==> it__0.seq()[i] == bits@[i],
        bits@.len() <= usize::MAX,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::from_bools
//@ props C01
//@ spec
    ensures r.wf(), r@ == bools@,
//@ loop 0
    invariant bv.wf(), bv.len == it__0.index@, bv@ =~= bools@.take(it__0.index@ as int), it__0.seq().len() == bools@.len(),
        forall|i: int| 0 <= i < bools@.len() ==> it__0.seq()[i] == bools@[i],
        bools@.len() <= usize::MAX,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@.push(bit), final(self).len == old(self).len + 1,
//@ start
    broadcast use group_wbit;
//@ end
    assert(self@ =~= old(self)@.push(bit));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append_bit
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@.push(bit % 2 == 1), final(self).len == old(self).len + 1,
//@ start
    broadcast use group_wbit;
//@ end
    assert(self@ =~= old(self)@.push(bit % 2 == 1));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append_bit_u32
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@.push(bit % 2 == 1), final(self).len == old(self).len + 1,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::append_bit_u16
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@.push(bit % 2 == 1), final(self).len == old(self).len + 1,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::append_bit_u8
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@.push(bit % 2 == 1), final(self).len == old(self).len + 1,
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::drop_last
//@ props C01
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        n <= old(self).len ==> final(self)@ == old(self)@.take(old(self).len - n) && final(self).len == old(self).len - n,
        n > old(self).len ==> final(self)@ == Seq::<bool>::empty() && final(self).len == 0,
//@ end
    assert(n <= old(self).len ==> self@ =~= old(self)@.take(old(self).len - n));
//@ ret 0
    assert(self@ =~= Seq::<bool>::empty());
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append_word
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len + 64 <= usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@ + wbits(word, 64), final(self).len == old(self).len + 64,
        old(self).clean() ==> final(self).clean(),
//@ start
    broadcast use group_wbit;
//@ end
    assert(self@ =~= old(self)@ + wbits(word, 64));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append_bits
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len + len <= usize::MAX, len <= 64,
    ensures final(self).wf(), final(self)@ == old(self)@ + wbits(bits, len as nat), final(self).len == old(self).len + len,
        old(self).clean() && (forall|i: int| len <= i < 64 ==> !wbit(bits, i)) ==> final(self).clean(),
//@ start
    broadcast use group_wbit;
//@ ret 0
    assert(self@ =~= old(self)@ + wbits(bits, len as nat));
//@ end
    assert(self@ =~= old(self)@ + wbits(bits, len as nat));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::append_bits_unchecked
//@ props C01
//@ spec
    requires old(self).wf(), old(self).len + len <= usize::MAX, len <= 64, old(self).clean(),
    ensures final(self).wf(), final(self)@ == old(self)@ + wbits(bits, len as nat), final(self).len == old(self).len + len,
        (forall|i: int| len <= i < 64 ==> !wbit(bits, i)) ==> final(self).clean(),
//@ start
    broadcast use group_wbit;
    proof { self.lemma_clean(); }
//@ ret 0
    assert(self@ =~= old(self)@ + wbits(bits, len as nat));
//@ end
    assert(self@ =~= old(self)@ + wbits(bits, len as nat));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::extend_bitvec
//@ props C01
//@ spec
    requires old(self).wf(), other.wf(), old(self).len + other.len + 63 <= usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@ + other@, final(self).len == old(self).len + other.len,
//@ loop 0
    invariant self.wf(), other.wf(), full_limbs == other.len / 64, old(self).wf(),
        old(self).len + other.len + 63 <= usize::MAX,
        self.len == old(self).len + 64 * i,
        self@ =~= old(self)@ + other@.take(64 * i),
//@ body 0
    proof { other.lemma_limb(i as int); }
//@ after partial_bits
    proof {
        if partial_bits > 0 {
            other.lemma_limb(full_limbs as int);
            assert(other@.take(64 * full_limbs) + wbits(other.data@[full_limbs as int], partial_bits as nat) =~= other@);
        } else {
            assert(other@.take(64 * full_limbs) =~= other@);
        }
    }
    let ghost mid = self@;
    assert(mid =~= old(self)@ + other@.take(64 * full_limbs));
//@ thenend 0
    assert(self@ =~= mid + wbits(other.data@[full_limbs as int], partial_bits as nat));
//@ end
    assert(self@ =~= old(self)@ + other@);
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::split_at_unchecked
//@ props C01
//@ spec
    requires self.wf(), at <= self.len,
    ensures r.0.wf(), r.1.wf(), r.0@ == self@.take(at as int), r.1@ == self@.skip(at as int),
//@ start
    broadcast use group_wbit;
//@ ret 0
    assert(self_@ =~= self@.take(at as int));
    assert(other@ =~= self@.skip(at as int));
//@ loop 0
    invariant self_ == self, self.wf(), other.wf(), other.clean(), last_limb == self.len / 64,
        at < 64 * last_limb, first_limb == at / 64,
        leading_partial == at % 64,
        full_limbs.start <= full_limbs.end, full_limbs.end == last_limb, 64 * full_limbs.start - 64 < at <= 64 * full_limbs.start,
        it__0.seq().len() == full_limbs.end - full_limbs.start,
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == full_limbs.start + k,
        other.len == 64 * (full_limbs.start + it__0.index@) - at,
        other@ =~= self@.subrange(at as int, 64 * (full_limbs.start + it__0.index@)),
//@ body 0
    broadcast use group_wbit;
    proof { assert(i == full_limbs.start + it__0.index@); self.lemma_limb(i as int); }
//@ after trailing_partial
    proof {
        if trailing_partial > 0 {
            self.lemma_limb(last_limb as int);
        }
    }
//@ end
    assert(other@ =~= self@.skip(at as int));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::split_at
//@ props C01
//@ spec
    requires self.wf(),
    ensures r is Ok <==> at <= self.len,
       r is Ok ==> r->Ok_0.0.wf() && r->Ok_0.1.wf() && r->Ok_0.0@ == self@.take(at as int) && r->Ok_0.1@ == self@.skip(at as int),
       r is Err ==> r->Err_0 == self,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::len
//@ props C01
//@ spec
    ensures r == self.len, r == self@.len(),
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::is_empty
//@ props C01
//@ spec
    ensures r == (self@.len() == 0), r == (self.len == 0)
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::flip_bit
//@ props C01
//@ spec
    requires old(self).wf(), pos < old(self).len,
    ensures final(self).wf(), final(self)@ == old(self)@.update(pos as int, !old(self)@[pos as int]), final(self).len == old(self).len,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::flip_bit_unchecked
//@ props C01
//@ spec
    requires old(self).wf(), pos < old(self).len,
    ensures final(self).wf(), final(self)@ == old(self)@.update(pos as int, !old(self)@[pos as int]), final(self).len == old(self).len,
//@ start
    broadcast use group_wbit;
//@ end
    assert(self@ =~= old(self)@.update(pos as int, !old(self)@[pos as int]));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::get
//@ props C02
//@ spec
    requires self.wf(),
    ensures r == (if pos < self.len { Some(b2u(self@[pos as int])) } else { None::<u64> }),
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::get_unchecked
//@ props C02
//@ spec
    requires self.wf(), pos < self.len,
    ensures r == b2u(self@[pos as int]), r == b2u(self.bit(pos as int)),
//@ start
    proof { lemma_bit_read(self.data@[pos as int / 64], (pos % 64) as u64); }
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::set
//@ props C01
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r is Ok <==> pos < old(self).len,
        pos < old(self).len ==> final(self)@ == old(self)@.update(pos as int, value % 2 == 1),
        pos >= old(self).len ==> final(self)@ == old(self)@,
        final(self).len == old(self).len,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::set_unchecked
//@ props C01
//@ spec
    requires old(self).wf(), pos < old(self).len,
    ensures final(self).wf(), final(self)@ == old(self)@.update(pos as int, value % 2 == 1), final(self).len == old(self).len,
//@ start
    broadcast use group_wbit;
    proof { lemma_parity(value); }
//@ end
    assert(self@ =~= old(self)@.update(pos as int, value % 2 == 1));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::is_bit_set
//@ props C02
//@ spec
    requires self.wf(),
    ensures r == (if pos < self.len { Some(self@[pos as int]) } else { None::<bool> }),
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::is_bit_set_unchecked
//@ props C02
//@ spec
    requires self.wf(), pos < self.len,
    ensures r == self@[pos as int],
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::get_bits
//@ props C02
//@ spec
    requires self.wf(),
    ensures
        r is Some <==> (1 <= len <= 64 && pos + len <= self.len),
        r is Some ==> is_bits(r->0, self@, pos as int, len as int),
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::get_bits_unchecked
//@ props C02
//@ spec
    requires self.wf(), len <= 64, pos + len <= self.len,
    ensures is_bits(r, self@, pos as int, len as int), len == 0 ==> r == 0,
//@ start
    broadcast use group_wbit;
    proof { lemma_lowmask(len as int); }
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::unpack_element
//@ props C02
//@ spec
    requires self.wf(),
    ensures
        r is Some <==> (1 <= n <= 64 && (index + 1) * n <= self.len),
        r is Some ==> is_bits(r->0, self@, index * n, n as int),
//@ start
    proof { assert((index + 1) * n == index * n + n) by (nonlinear_arith); }
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::unpack_element_unchecked
//@ props C02
//@ spec
    requires self.wf(), n <= 64, index * n + n <= self.len,
    ensures is_bits(r, self@, index * n, n as int), n == 0 ==> r == 0,
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::count_ones
//@ props C02
//@ spec
    requires self.wf(),
    ensures r == rank1(self@, self.len as int),
//@ loop 0
    invariant self.wf(), sum__0 == rank1(self@, 64 * it__0.index@), it__0.seq().len() == self.len / 64,
       forall|i: int| 0 <= i < it__0.seq().len() ==> it__0.seq()[i] == self.data@[i],
//@ body 0
    proof {
        let k = it__0.index@ as int;
        self.lemma_limb(k);
        lemma_rank_word(self@, 64 * k, self.data@[k], 64);
        lemma_rank_bounds(self@, 64 * k);
        lemma_pop_bounds(self.data@[k], 64);
    }
//@ after ones
    proof {
        broadcast use group_wbit;
        let k = self.len as int / 64;
        let n = self.len as int % 64;
        lemma_rank_bounds(self@, 64 * k);
        if n != 0 {
            let w = self.data@[k];
            lemma_lowmask(n);
            self.lemma_limb(k);
            lemma_rank_word(self@, 64 * k, w, n);
            lemma_pop_masked(w, w & lowmask(n), n, 64);
            lemma_pop_bounds(w, n);
        }
    }
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::count_zeros
//@ props C02
//@ spec
    requires self.wf(),
    ensures r == self.len - rank1(self@, self.len as int), r == rank0(self@, self.len as int),
//@ start
    proof { lemma_rank_bounds(self@, self.len as int); }
//@@ end
}

// ------------------------------------------------------------- packing

/// the vector holds `n` bits per element of `seq`: the low `m` bits of the element, zero-extended
pub open spec fn packed(s: Seq<bool>, seq: Seq<u64>, n: int, m: int) -> bool {
    &&& s.len() == seq.len() * n
    &&& forall|i: int, j: int| 0 <= i < seq.len() && 0 <= j < n ==> #[trigger] s[i * n + j] == (j < m && wbit(seq[i], j))
}

pub proof fn lemma_packed_step(a: Seq<bool>, b: Seq<bool>, seq: Seq<u64>, k: int, n: int, m: int)
    requires 0 <= k < seq.len(), 0 <= n, packed(a, seq.take(k), n, m),
        b == a + Seq::new(n as nat, |j: int| j < m && wbit(seq[k], j)),
    ensures packed(b, seq.take(k + 1), n, m),
{
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < n implies #[trigger] b[i * n + j] == (j < m && wbit(seq.take(k + 1)[i], j)) by {
        if i < k {
            assert(i * n + j < k * n) by (nonlinear_arith) requires i < k, 0 <= j < n;
            assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 0;
            assert(a[i * n + j] == (j < m && wbit(seq.take(k)[i], j)));
        } else {
            assert(i * n == k * n);
        }
    }
}

/// packing, then reading element `i` with width `n`, gives the low bits of the element
pub proof fn lemma_pack_unpack(s: Seq<bool>, seq: Seq<u64>, n: int, m: int, i: int, w: u64)
    requires packed(s, seq, n, m), 0 <= i < seq.len(), 1 <= n <= 64, is_bits(w, s, i * n, n),
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(w, j) == (j < n && j < m && wbit(seq[i], j)),
{
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(w, j) == (j < n && j < m && wbit(seq[i], j)) by {
        if j < n { assert(s[i * n + j] == (j < m && wbit(seq[i], j))); }
    }
}

impl BitVec {
//@@ fn src/bit_vec/mod.rs BitVec::pack_word_into_vector
//@ props C01 C02
//@ subst
word.into() => word
//@ spec
    requires old(bv).wf(), old(bv).len + num_bits <= usize::MAX, 1 <= MAX_BITS <= 64,
    ensures final(bv).wf(), final(bv).len == old(bv).len + num_bits,
        final(bv)@ == old(bv)@ + Seq::new(num_bits as nat, |j: int| j < MAX_BITS && wbit(word, j)),
//@ start
    broadcast use group_wbit;
//@ loop 0
    invariant bv.wf(), old(bv).wf(), rest <= num_bits - MAX_BITS, 1 <= MAX_BITS <= 64, num_bits > MAX_BITS,
        old(bv).len + num_bits <= usize::MAX,
        bv.len + rest == old(bv).len + num_bits,
        bv@ =~= old(bv)@ + Seq::new((num_bits - rest) as nat, |j: int| j < MAX_BITS && wbit(word, j)),
    decreases rest,
//@ body 0
    broadcast use group_wbit;
//@ end
    assert(bv@ =~= old(bv)@ + Seq::new(num_bits as nat, |j: int| j < MAX_BITS && wbit(word, j)));
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::pack_bits as=pack_bits_u64
//@ props C01 C02
//@ generics
<const MAX_BITS: usize>
//@ subst
T => u64
word.into() => word
//@ spec
    requires 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u64| x as u64), bits_per_element as int, MAX_BITS as int),
//@ loop 0
    invariant 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX, bv.wf(), bv.len == it__0.index@ * bits_per_element,
        it__0.seq().len() == sequence@.len(),
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == sequence@[k],
        packed(bv@, sequence@.map_values(|x: u64| x as u64).take(it__0.index@ as int), bits_per_element as int, MAX_BITS as int),
//@ body 0
    let ghost before = bv@;
    proof {
        let k = it__0.index@ as int;
        let n = sequence@.len() as int;
        let b = bits_per_element as int;
        assert((k + 1) * b <= n * b) by (nonlinear_arith) requires k + 1 <= n, 0 <= b;
        assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    }
//@ bodyend 0
    ;proof {
        let k = it__0.index@ as int;
        lemma_packed_step(before, bv@, sequence@.map_values(|x: u64| x as u64), k, bits_per_element as int, MAX_BITS as int);
    }
//@ end
    assert(sequence@.map_values(|x: u64| x as u64).take(sequence@.len() as int) =~= sequence@.map_values(|x: u64| x as u64));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::pack_sequence_u64
//@ props C01 C02
//@ subst
Self::pack_bits::<_, 64> => Self::pack_bits_u64::<64>
//@ spec
    requires sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u64| x as u64), bits_per_element as int, 64),
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::pack_bits as=pack_bits_u32
//@ props C01 C02
//@ generics
<const MAX_BITS: usize>
//@ subst
T => u32

//@ spec
    requires 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u32| x as u64), bits_per_element as int, MAX_BITS as int),
//@ loop 0
    invariant 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX, bv.wf(), bv.len == it__0.index@ * bits_per_element,
        it__0.seq().len() == sequence@.len(),
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == sequence@[k],
        packed(bv@, sequence@.map_values(|x: u32| x as u64).take(it__0.index@ as int), bits_per_element as int, MAX_BITS as int),
//@ body 0
    let ghost before = bv@;
    proof {
        let k = it__0.index@ as int;
        let n = sequence@.len() as int;
        let b = bits_per_element as int;
        assert((k + 1) * b <= n * b) by (nonlinear_arith) requires k + 1 <= n, 0 <= b;
        assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    }
//@ bodyend 0
    ;proof {
        let k = it__0.index@ as int;
        lemma_packed_step(before, bv@, sequence@.map_values(|x: u32| x as u64), k, bits_per_element as int, MAX_BITS as int);
    }
//@ end
    assert(sequence@.map_values(|x: u32| x as u64).take(sequence@.len() as int) =~= sequence@.map_values(|x: u32| x as u64));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::pack_sequence_u32
//@ props C01 C02
//@ subst
Self::pack_bits::<_, 32> => Self::pack_bits_u32::<32>
//@ spec
    requires sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u32| x as u64), bits_per_element as int, 32),
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::pack_bits as=pack_bits_u16
//@ props C01 C02
//@ generics
<const MAX_BITS: usize>
//@ subst
T => u16

//@ spec
    requires 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u16| x as u64), bits_per_element as int, MAX_BITS as int),
//@ loop 0
    invariant 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX, bv.wf(), bv.len == it__0.index@ * bits_per_element,
        it__0.seq().len() == sequence@.len(),
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == sequence@[k],
        packed(bv@, sequence@.map_values(|x: u16| x as u64).take(it__0.index@ as int), bits_per_element as int, MAX_BITS as int),
//@ body 0
    let ghost before = bv@;
    proof {
        let k = it__0.index@ as int;
        let n = sequence@.len() as int;
        let b = bits_per_element as int;
        assert((k + 1) * b <= n * b) by (nonlinear_arith) requires k + 1 <= n, 0 <= b;
        assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    }
//@ bodyend 0
    ;proof {
        let k = it__0.index@ as int;
        lemma_packed_step(before, bv@, sequence@.map_values(|x: u16| x as u64), k, bits_per_element as int, MAX_BITS as int);
    }
//@ end
    assert(sequence@.map_values(|x: u16| x as u64).take(sequence@.len() as int) =~= sequence@.map_values(|x: u16| x as u64));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::pack_sequence_u16
//@ props C01 C02
//@ subst
Self::pack_bits::<_, 16> => Self::pack_bits_u16::<16>
//@ spec
    requires sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u16| x as u64), bits_per_element as int, 16),
//@@ end

//@@ fn src/bit_vec/mod.rs BitVec::pack_bits as=pack_bits_u8
//@ props C01 C02
//@ generics
<const MAX_BITS: usize>
//@ subst
T => u8

//@ spec
    requires 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u8| x as u64), bits_per_element as int, MAX_BITS as int),
//@ loop 0
    invariant 1 <= MAX_BITS <= 64, sequence@.len() * bits_per_element <= usize::MAX, bv.wf(), bv.len == it__0.index@ * bits_per_element,
        it__0.seq().len() == sequence@.len(),
        forall|k: int| 0 <= k < it__0.seq().len() ==> it__0.seq()[k] == sequence@[k],
        packed(bv@, sequence@.map_values(|x: u8| x as u64).take(it__0.index@ as int), bits_per_element as int, MAX_BITS as int),
//@ body 0
    let ghost before = bv@;
    proof {
        let k = it__0.index@ as int;
        let n = sequence@.len() as int;
        let b = bits_per_element as int;
        assert((k + 1) * b <= n * b) by (nonlinear_arith) requires k + 1 <= n, 0 <= b;
        assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    }
//@ bodyend 0
    ;proof {
        let k = it__0.index@ as int;
        lemma_packed_step(before, bv@, sequence@.map_values(|x: u8| x as u64), k, bits_per_element as int, MAX_BITS as int);
    }
//@ end
    assert(sequence@.map_values(|x: u8| x as u64).take(sequence@.len() as int) =~= sequence@.map_values(|x: u8| x as u64));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::pack_sequence_u8
//@ props C01 C02
//@ subst
Self::pack_bits::<_, 8> => Self::pack_bits_u8::<8>
//@ spec
    requires sequence@.len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, sequence@.map_values(|x: u8| x as u64), bits_per_element as int, 8),
//@@ end
}
impl Clone for BitVec {
    fn clone(&self) -> (r: Self)
        ensures r.data@ == self.data@, r.len == self.len, r@ == self@, r.wf() == self.wf(),
//@@ item src/bit_vec/mod.rs clonebody BitVec
}
} // verus!
