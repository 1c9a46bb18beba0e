#!/usr/bin/env python3
"""proofs/bviter.rs: constructors of BitVec that read from an iterator, for every lawful iterator"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = '''// generated by tools/gen_bviter.py
use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::itersrc::*;
verus! {
/// `k` elements are consumed
pub open spec fn at<T, I: Src<T>>(it: I, all: Seq<T>, k: int) -> bool { 0 <= k <= all.len() && it.rem() == all.skip(k) }
pub proof fn lemma_at<T, I: Src<T>>(a: I, b: I, all: Seq<T>, k: int)
    requires at(a, all, k), a.rem().len() > 0, b.rem() == a.rem().skip(1),
    ensures at(b, all, k + 1), a.rem()[0] == all[k], k < all.len(),
{
    assert(all.skip(k).skip(1) =~= all.skip(k + 1));
}
pub open spec fn cat(s: Seq<BitVec>) -> Seq<bool>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last()@ }
}
pub proof fn lemma_cat(s: Seq<BitVec>, k: int)
    requires 0 <= k < s.len(),
    ensures cat(s.take(k + 1)) == cat(s.take(k)) + s[k]@, cat(s.take(k + 1)).len() <= cat(s).len(),
    decreases s.len() - k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k + 1 < s.len() { lemma_cat(s, k + 1); } else { assert(s.take(k + 1) =~= s); }
}
pub open spec fn derefs(s: Seq<&BitVec>) -> Seq<BitVec> { s.map_values(|x: &BitVec| *x) }
impl BitVec {
//@@ fn src/bit_vec/mod.rs <BitVec as From>::from nth=0 as=from_u64_slice
//@ props C01
//@ spec
    requires data@.len() * 64 <= usize::MAX,
    ensures r.wf(), r@ == Seq::new((64 * data@.len()) as nat, |i: int| wbit(data@[i / 64], i % 64)),
//@ tail
    assert(res__@ =~= Seq::new((64 * data@.len()) as nat, |i: int| wbit(data@[i / 64], i % 64)));
//@@ end
//@@ fn src/bit_vec/mod.rs <BitVec as From>::from nth=1 as=from_u64_vec
//@ props C01
//@ spec
    requires data@.len() * 64 <= usize::MAX,
    ensures r.wf(), r@ == Seq::new((64 * data@.len()) as nat, |i: int| wbit(data@[i / 64], i % 64)),
//@ tail
    assert(res__@ =~= Seq::new((64 * data@.len()) as nat, |i: int| wbit(data@[i / 64], i % 64)));
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::from_bits_iter nextloops=0
//@ props C01
//@ generics
<I: Src<E>, E: IntoU64>
//@ spec
    requires iter.rem().len() <= usize::MAX,
    ensures r.wf(), r@ == Seq::new(iter.rem().len(), |i: int| iter.rem()[i].val() % 2 == 1),
//@ start
    let ghost all = iter.rem();
//@ beforeloop 0
    let ghost mut k = 0int;
    assert(all.skip(0) =~= all);
//@ loop 0
    invariant
        all.len() <= usize::MAX, bv.wf(), at(it__0, all, k), bv.len == k, bv@ =~= Seq::new(k as nat, |i: int| all[i].val() % 2 == 1),
    ensures bv.len == all.len(), k == all.len(),
    decreases all.len() - k,
//@ body 0
    proof { assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); k = k + 1; }
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::from_bool_iter nextloops=0
//@ props C01
//@ generics
<I: Src<bool>>
//@ spec
    requires iter.rem().len() <= usize::MAX,
    ensures r.wf(), r@ == iter.rem(),
//@ start
    let ghost all = iter.rem();
//@ beforeloop 0
    let ghost mut k = 0int;
    assert(all.skip(0) =~= all);
//@ loop 0
    invariant
        all.len() <= usize::MAX, bv.wf(), at(it__0, all, k), bv.len == k, bv@ =~= all.take(k),
    ensures bv.len == all.len(), k == all.len(),
    decreases all.len() - k,
//@ body 0
    proof { assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); k = k + 1; }
//@ end
    assert(all.take(k) =~= all);
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::from_limbs_iter
//@ props C01
//@ generics
<I: Src<E>, E: IntoU64>
//@ spec
    requires iter.rem().len() * 64 <= usize::MAX,
    ensures r.wf(), r@ == Seq::new((64 * iter.rem().len()) as nat, |i: int| wbit(iter.rem()[i / 64].val(), i % 64)),
//@ tail
    proof { assert(res__@ =~= Seq::new((64 * iter.rem().len()) as nat, |i: int| wbit(iter.rem()[i / 64].val(), i % 64))); }
//@@ end
//@@ fn src/bit_vec/mod.rs <BitVec as FromIterator>::from_iter as=from_iter_u64
//@ props C01
//@ generics
<T: Src<u64>>
//@ spec
    requires iter.rem().len() * 64 <= usize::MAX,
    ensures r.wf(), r@ == Seq::new((64 * iter.rem().len()) as nat, |i: int| wbit(iter.rem()[i / 64], i % 64)),
//@@ end
//@@ fn src/bit_vec/mod.rs <BitVec as Extend>::extend nth=0 as=extend_owned nextloops=0
//@ props C01
//@ generics
<T: Src<BitVec>>
//@ spec
    requires old(self).wf(), forall|i: int| 0 <= i < iter.rem().len() ==> (#[trigger] iter.rem()[i]).wf(), old(self).len + cat(iter.rem()).len() + 63 <= usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@ + cat(iter.rem()),
//@ start
    let ghost all = iter.rem();
    let ghost me = self@;
//@ beforeloop 0
    let ghost mut k = 0int;
    assert(all.skip(0) =~= all);
    assert(all.take(0) =~= Seq::empty());
    assert(me + cat(all.take(0)) =~= me);
//@ loop 0
    invariant
        self.wf(), at(it__0, all, k), self@ == me + cat(all.take(k)), me.len() + cat(all).len() + 63 <= usize::MAX,
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf(),
    ensures k == all.len(),
    decreases all.len() - k,
//@ body 0
    proof { assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); lemma_cat(all, k); assert(all[k]@.len() == all[k].len && self@.len() == self.len); k = k + 1; }
//@ bodyend 0
    ;assert(self@ =~= me + cat(all.take(k)));
//@ end
    assert(all.take(k) =~= all);
//@@ end
//@@ fn src/bit_vec/mod.rs <BitVec as Extend>::extend nth=1 as=extend_refs nextloops=0
//@ props C01
//@ generics
<'t, T: Src<&'t BitVec>>
//@ spec
    requires old(self).wf(), forall|i: int| 0 <= i < iter.rem().len() ==> (#[trigger] iter.rem()[i]).wf(), old(self).len + cat(derefs(iter.rem())).len() + 63 <= usize::MAX,
    ensures final(self).wf(), final(self)@ == old(self)@ + cat(derefs(iter.rem())),
//@ start
    let ghost all = iter.rem();
    let ghost me = self@;
//@ beforeloop 0
    let ghost mut k = 0int;
    let ghost ds = derefs(all);
    assert(all.skip(0) =~= all);
    assert(ds.take(0) =~= Seq::empty());
    assert(me + cat(ds.take(0)) =~= me);
//@ loop 0
    invariant
        self.wf(), at(it__0, all, k), self@ == me + cat(ds.take(k)), me.len() + cat(ds).len() + 63 <= usize::MAX,
        ds == derefs(all),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf(),
    ensures k == all.len(),
    decreases all.len() - k,
//@ body 0
    proof { assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1)); lemma_cat(ds, k); assert(all[k]@.len() == all[k].len && self@.len() == self.len); k = k + 1; }
//@ bodyend 0
    ;assert(self@ =~= me + cat(ds.take(k)));
//@ end
    assert(ds.take(k) =~= ds);
//@@ end
//@@ fn src/bit_vec/mod.rs BitVec::pack_bits_iter nextloops=0
//@ props C01 C02
//@ generics
<T: IntoU64, I: Src<T>, const MAX_BITS: usize>
//@ spec
    requires 1 <= MAX_BITS <= 64, iter.rem().len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, vals(iter.rem()), bits_per_element as int, MAX_BITS as int),
//@ start
    let ghost all = iter.rem();
    let ghost vs = vals(all);
//@ beforeloop 0
    let ghost mut k = 0int;
    assert(all.skip(0) =~= all);
//@ loop 0
    invariant 1 <= MAX_BITS <= 64, all.len() * bits_per_element <= usize::MAX, bv.wf(), bv.len == k * bits_per_element, at(it__0, all, k), vs == vals(all),
        packed(bv@, vs.take(k), bits_per_element as int, MAX_BITS as int),
    ensures k == all.len(),
    decreases all.len() - k,
//@ body 0
    let ghost before = bv@;
    proof {
        let n = all.len() as int;
        let b = bits_per_element as int;
        assert(all.skip(k)[0] == all[k]); assert(all.skip(k).skip(1) =~= all.skip(k + 1));
        assert((k + 1) * b <= n * b) by (nonlinear_arith) requires k + 1 <= n, 0 <= b;
        assert((k + 1) * b == k * b + b) by (nonlinear_arith);
    }
//@ bodyend 0
    ;proof {
        lemma_packed_step(before, bv@, vs, k, bits_per_element as int, MAX_BITS as int);
        k = k + 1;
    }
//@ end
    assert(vs.take(k) =~= vs);
//@@ end
'''
P = '''//@@ fn src/bit_vec/mod.rs BitVec::pack_from_iter_u{b}
//@ props C01 C02
//@ generics
<I: Src<u{b}>>
//@ spec
    requires iter.rem().len() * bits_per_element <= usize::MAX,
    ensures r.wf(), packed(r@, vals(iter.rem()), bits_per_element as int, {b}),
//@@ end
'''
s = H + "".join(P.format(b=b) for b in (64, 32, 16, 8)) + "}\n" + "} // verus!\n"
open(f"{V}/proofs/bviter.rs", "w").write(s)
