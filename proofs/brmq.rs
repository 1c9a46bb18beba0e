use vstd::prelude::*;
use crate::itersrc::*;
use crate::base::*;
use crate::pow2::*;
verus! {
//@@ item src/rmq/binary_rmq/mod.rs struct BinaryRmq

/// a minimum of `d[i..=j]` is attained at `m`
pub open spec fn is_min(d: Seq<u64>, i: int, j: int, m: int) -> bool {
    i <= m <= j && forall|x: int| i <= x <= j ==> d[m] <= #[trigger] d[x]
}
pub open spec fn at(row: int, j: int, k: int) -> int { j * row + k }
/// table entry `k` of row `j`: in bounds, and the minimum of `d[j..j + 2^k]` if that window is inside `d`
pub open spec fn ent_ok(d: Seq<u64>, res: Seq<u32>, row: int, j: int, k: int) -> bool {
    let e = res[at(row, j, k)] as int;
    &&& j + e < d.len()
    &&& j + p2(k) <= d.len() ==> is_min(d, j, j + p2(k) - 1, j + e)
}
pub proof fn lemma_at(row: int, len: int, j: int, k: int)
    requires 0 <= j < len, 0 <= k < row,
    ensures 0 <= at(row, j, k) < len * row, at(row, j, k) / row == j, at(row, j, k) % row == k, 0 <= j * row <= len * row,
{
    assert(0 <= j * row && j * row + k < len * row) by (nonlinear_arith) requires 0 <= j < len, 0 <= k < row;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j * row + k, row, j, k);
}
/// entries up to column `i` of every row, and column `i + 1` of the first `j` rows
pub open spec fn partial(d: Seq<u64>, res: Seq<u32>, row: int, i: int, j: int) -> bool {
    forall|jj: int, kk: int| 0 <= jj < d.len() && 0 <= kk < row && (kk <= i || kk == i + 1 && jj < j) ==> #[trigger] ent_ok(d, res, row, jj, kk)
}
pub proof fn lemma_write(d: Seq<u64>, res0: Seq<u32>, res1: Seq<u32>, row: int, i: int, j: int, v: u32)
    requires 0 <= j < d.len(), 0 <= i, i + 1 < row, res0.len() == d.len() * row,
        res1 == res0.update(at(row, j, i + 1), v),
        partial(d, res0, row, i, j), ent_ok(d, res1, row, j, i + 1),
    ensures partial(d, res1, row, i, j + 1), res1.len() == res0.len(),
{
    lemma_at(row, d.len() as int, j, i + 1);
    assert forall|jj: int, kk: int| 0 <= jj < d.len() && 0 <= kk < row && (kk <= i || kk == i + 1 && jj < j + 1) implies #[trigger] ent_ok(d, res1, row, jj, kk) by {
        lemma_at(row, d.len() as int, jj, kk);
        if jj != j || kk != i + 1 { assert(ent_ok(d, res0, row, jj, kk)); }
    }
}
pub proof fn lemma_size(len: int, row: int)
    requires 0 <= len <= u32::MAX, is_clog(len, row - 1),
    ensures 0 <= len * row <= 0x7fff_ffff_ffff_ffff, row <= 64, len >= 1 ==> row - 1 <= 32,
{
    if row - 1 > 32 {
        lemma_p2_mono(32, row - 2);
        lemma_p2_shl(32);
        assert((1u64 << 32u64) == 0x1_0000_0000u64) by (bit_vector);
    }
    assert(len * row <= 0xffff_ffff * 64) by (nonlinear_arith) requires 0 <= len <= 0xffff_ffff, 1 <= row <= 64;
    assert(0 <= len * row) by (nonlinear_arith) requires 0 <= len, 1 <= row;
}
// ---------------------------------------------------------------- range arguments
/// stand-in for std::ops::Bound
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
/// stand-in for std::ops::RangeBounds<usize>: any two bounds
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<usize>;
    spec fn hi(&self) -> Bound<usize>;
    fn start_bound(&self) -> (r: Bound<&usize>)
        ensures same_bound(r, self.lo());
    fn end_bound(&self) -> (r: Bound<&usize>)
        ensures same_bound(r, self.hi());
}
pub open spec fn same_bound(r: Bound<&usize>, b: Bound<usize>) -> bool {
    match r {
        Bound::Included(x) => b == Bound::Included(*x),
        Bound::Excluded(x) => b == Bound::Excluded(*x),
        Bound::Unbounded => b == Bound::<usize>::Unbounded,
    }
}
pub open spec fn clamped(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
/// first and last index the range selects of `0..len`, after clamping
pub open spec fn first_of(b: Bound<usize>, len: int) -> int {
    clamped(match b { Bound::Included(x) => x as int, Bound::Excluded(x) => x + 1, Bound::Unbounded => 0 }, 0, len - 1)
}
pub open spec fn last_of(b: Bound<usize>, first: int, len: int) -> int {
    clamped(match b { Bound::Included(x) => x as int, Bound::Excluded(x) => x - 1, Bound::Unbounded => len - 1 }, first, len - 1)
}
/// `usize::clamp`, which panics unless `lo <= hi`
pub fn clamp(x: usize, lo: usize, hi: usize) -> (r: usize)
    requires lo <= hi,
    ensures r == clamped(x as int, lo as int, hi as int),
{ if x < lo { lo } else if x > hi { hi } else { x } }
impl BinaryRmq {
    /// entries `0..n` of every row
    pub open spec fn table_ok(d: Seq<u64>, res: Seq<u32>, row: int, n: int) -> bool {
        forall|j: int, k: int| 0 <= j < d.len() && 0 <= k < n ==> #[trigger] ent_ok(d, res, row, j, k)
    }
    pub open spec fn wf(&self) -> bool {
        let row = clog(self.data@.len() as int) + 1;
        &&& self.data@.len() <= u32::MAX
        &&& is_clog(self.data@.len() as int, row - 1)
        &&& self.results@.len() == self.data@.len() * row
        &&& Self::table_ok(self.data@, self.results@, row, row)
    }
    /// `Deref` to the data
    pub fn len(&self) -> (r: usize)
        ensures r == self.data@.len(),
    { self.data.len() }
//@@ fn src/rmq/binary_rmq/mod.rs BinaryRmq::from_vec
//@ props C12 C13
//@ spec
    requires data@.len() <= u32::MAX,
    ensures r.wf(), r.data@ == data@,
//@ start
    let ghost d = data@;
    let ghost row = clog(d.len() as int) + 1;
//@ before results
    proof { assert(row_length == row); lemma_size(d.len() as int, row); }
//@ loop 0
    invariant len == d.len(), row_length == row, 1 <= row <= 64, results@.len() == len * row_length, len * row <= 0x7fff_ffff_ffff_ffff,
        forall|k: int| 0 <= k < results@.len() ==> results@[k] == 0,
//@ body 0
    proof { lemma_at(row, len as int, i as int, 0); }
//@ beforeloop 1
    proof {
        assert forall|jj: int, kk: int| 0 <= jj < d.len() && 0 <= kk < row && kk <= 0 implies #[trigger] ent_ok(d, results@, row, jj, kk) by {
            lemma_at(row, d.len() as int, jj, 0);
        }
    }
//@ loop 1
    invariant data@ == d, len == d.len(), d.len() <= u32::MAX, row_length == row, 1 <= row <= 64, results@.len() == len * row_length, len * row <= 0x7fff_ffff_ffff_ffff,
        is_clog(d.len() as int, row - 1), hi__1 == row - 1,
        partial(d, results@, row, i as int, 0),
//@ body 1
    let ghost ii = i as int;
    proof {
        lemma_p2_shl(ii);
        lemma_p2_mono(ii, row - 2);
    }
//@ loop 2
    invariant data@ == d, len == d.len(), d.len() <= u32::MAX, row_length == row, 1 <= row <= 64, results@.len() == len * row_length, len * row <= 0x7fff_ffff_ffff_ffff,
        i == ii, 0 <= ii < row - 1, is_clog(d.len() as int, row - 1),
        p2(ii) < d.len(), p2(ii + 1) == 2 * p2(ii), (1usize << i) == p2(ii), p2(ii) >= 1,
        partial(d, results@, row, ii, j as int),
//@ body 2
    let ghost res0 = results@;
    let ghost jj = j as int;
    proof {
        let n = d.len() as int;
        let o = p2(ii);
        lemma_at(row, n, jj, ii);
        lemma_at(row, n, jj, ii + 1);
        assert(ent_ok(d, res0, row, jj, ii));
        if jj + o < n { lemma_at(row, n, jj + o, ii); assert(ent_ok(d, res0, row, jj + o, ii)); }
        else if ii > 0 && n - o - 1 > jj { lemma_at(row, n, n - o - 1, ii - 1); assert(ent_ok(d, res0, row, n - o - 1, ii - 1)); }
    }
//@ bodyend 2
    proof {
        assert(results@ == res0.update(at(row, jj, ii + 1), results@[at(row, jj, ii + 1)]));
        lemma_write(d, res0, results@, row, ii, jj, results@[at(row, jj, ii + 1)]);
    }
//@ bodyend 1
    proof {
        assert forall|jj: int, kk: int| 0 <= jj < d.len() && 0 <= kk < row && (kk <= ii + 1 || kk == ii + 2 && jj < 0) implies #[trigger] ent_ok(d, results@, row, jj, kk) by {
        }
    }
//@@ end
//@@ fn src/rmq/binary_rmq/mod.rs BinaryRmq::range_min
//@ props C12 C13
//@ spec
    requires self.wf(), i <= j < self.data@.len(),
    ensures is_min(self.data@, i as int, j as int, r as int),
//@ start
    let ghost d = self.data@;
    let ghost row = clog(d.len() as int) + 1;
    proof { lemma_size(d.len() as int, row); assert(p2(0) == 1); }
//@ before dist
    let ghost ld = log_dist as int;
    proof {
        lemma_p2_shl(ld);
        lemma_p2_mono(0, ld);
        if ld >= row { lemma_p2_mono(row - 1, ld); }
        lemma_at(row, d.len() as int, i as int, ld);
        lemma_at(row, d.len() as int, j - (p2(ld) - 1), ld);
        assert(ent_ok(d, self.results@, row, i as int, ld));
        assert(ent_ok(d, self.results@, row, j - (p2(ld) - 1), ld));
    }
//@@ end
//@@ fn src/rmq/binary_rmq/mod.rs BinaryRmq::range_min_with_range
//@ props C12
//@ spec
    requires self.wf(), self.data@.len() > 0,
    ensures
        first_of(range.lo(), self.data@.len() as int) <= last_of(range.hi(), first_of(range.lo(), self.data@.len() as int), self.data@.len() as int) < self.data@.len(),
        is_min(self.data@, first_of(range.lo(), self.data@.len() as int), last_of(range.hi(), first_of(range.lo(), self.data@.len() as int), self.data@.len() as int), r as int),
//@@ end
//@@ fn src/rmq/binary_rmq/mod.rs <BinaryRmq as Deref>::deref
//@ props C12
//@ ret
&Vec<u64>
//@ spec
    ensures *r == self.data,
//@@ end
//@@ fn src/rmq/binary_rmq/mod.rs <BinaryRmq as From>::from
//@ props C12
//@ spec
    requires data@.len() <= u32::MAX,
    ensures r.wf(), r.data@ == data@,
//@@ end
//@@ fn src/rmq/binary_rmq/mod.rs <BinaryRmq as FromIterator>::from_iter collectsrc
//@ props C12
//@ generics
<T: Src<u64>>
//@ spec
    requires iter.rem().len() <= u32::MAX,
    ensures r.wf(), r.data@ == iter.rem(),
//@@ end
}
} // verus!
