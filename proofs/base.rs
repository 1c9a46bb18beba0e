use vstd::prelude::*;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- bits of a word

/// bit `i` of the word `w` (little endian)
pub closed spec fn wbit(w: u64, i: int) -> bool {
    (w >> (i as u64)) & 1 == 1
}

pub proof fn lemma_wbit_def(w: u64, i: int)
    ensures wbit(w, i) == ((w >> (i as u64)) & 1 == 1),
{}

pub broadcast proof fn wbit_or(a: u64, b: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] wbit(a | b, i) == (wbit(a, i) || wbit(b, i)),
{
    let k = i as u64;
    assert(k < 64 ==> ((((a | b) >> k) & 1 == 1) <==> ((a >> k) & 1 == 1 || (b >> k) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_and(a: u64, b: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] wbit(a & b, i) == (wbit(a, i) && wbit(b, i)),
{
    let k = i as u64;
    assert(k < 64 ==> ((((a & b) >> k) & 1 == 1) <==> ((a >> k) & 1 == 1 && (b >> k) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_xor(a: u64, b: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] wbit(a ^ b, i) == (wbit(a, i) != wbit(b, i)),
{
    let k = i as u64;
    assert(k < 64 ==> ((((a ^ b) >> k) & 1 == 1) <==> !((a >> k) & 1 == 1 <==> (b >> k) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_not(a: u64, i: int)
    requires 0 <= i < 64,
    ensures #[trigger] wbit(!a, i) == !wbit(a, i),
{
    let k = i as u64;
    assert(k < 64 ==> ((((!a) >> k) & 1 == 1) <==> !((a >> k) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_shl(a: u64, s: u64, i: int)
    requires 0 <= i < 64, s < 64,
    ensures #[trigger] wbit(a << s, i) == (i >= s && wbit(a, i - s)),
{
    let k = i as u64;
    let d = (i - s) as u64;
    assert(k < 64 && s < 64 && k < s ==> !(((a << s) >> k) & 1 == 1)) by (bit_vector);
    assert(k < 64 && s < 64 && k >= s && d == k - s ==> ((((a << s) >> k) & 1 == 1) <==> ((a >> d) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_shr(a: u64, s: u64, i: int)
    requires 0 <= i < 64, s < 64,
    ensures #[trigger] wbit(a >> s, i) == (i + s < 64 && wbit(a, i + s)),
{
    let k = i as u64;
    let d = (i + s) as u64;
    assert(k < 64 && s < 64 && k + s >= 64 ==> !(((a >> s) >> k) & 1 == 1)) by (bit_vector);
    assert(k < 64 && s < 64 && k + s < 64 && d == k + s ==> ((((a >> s) >> k) & 1 == 1) <==> ((a >> d) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn wbit_zero(i: int)
    requires 0 <= i < 64,
    ensures #![trigger wbit(0u64, i)] !wbit(0u64, i),
{
    let k = i as u64;
    assert(k < 64 ==> !((0u64 >> k) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn wbit_one(i: int)
    requires 0 <= i < 64,
    ensures #![trigger wbit(1u64, i)] wbit(1u64, i) == (i == 0),
{
    let k = i as u64;
    assert(k < 64 ==> ((1u64 >> k) & 1 == 1 <==> k == 0)) by (bit_vector);
}

pub broadcast proof fn wbit_max(i: int)
    requires 0 <= i < 64,
    ensures #![trigger wbit(u64::MAX, i)] wbit(u64::MAX, i),
{
    let k = i as u64;
    assert(k < 64 ==> ((0xffff_ffff_ffff_ffffu64 >> k) & 1 == 1)) by (bit_vector);
}

/// words with equal bits are equal
pub proof fn wbit_ext(a: u64, b: u64)
    requires forall|i: int| 0 <= i < 64 ==> wbit(a, i) == wbit(b, i),
    ensures a == b,
{
    assert forall|k: u64| k < 64 implies ((a >> k) & 1) == ((b >> k) & 1) by {
        assert(wbit(a, k as int) == wbit(b, k as int));
        assert((a >> k) & 1 == 0 || (a >> k) & 1 == 1) by (bit_vector);
        assert((b >> k) & 1 == 0 || (b >> k) & 1 == 1) by (bit_vector);
    }
    assert((forall|k: u64| k < 64 ==> ((a >> k) & 1) == ((b >> k) & 1)) ==> a == b) by (bit_vector);
}

/// `(1 << k) - 1` masks exactly the low `k` bits
pub broadcast proof fn wbit_lowmask(k: u64, i: int)
    requires 0 <= i < 64, k < 64,
    ensures
        #![trigger wbit(((1u64 << k) - 1) as u64, i)]
        wbit(((1u64 << k) - 1) as u64, i) == (i < k),
{
    let j = i as u64;
    assert(j < 64 && k < 64 ==> ((sub(1u64 << k, 1) >> j) & 1 == 1 <==> j < k)) by (bit_vector);
    lemma_shl_pos(k);
}

pub proof fn lemma_shl_pos(k: u64)
    requires k < 64,
    ensures (1u64 << k) >= 1,
{
    assert(k < 64 ==> (1u64 << k) >= 1) by (bit_vector);
}

pub broadcast group group_wbit {
    wbit_or, wbit_and, wbit_xor, wbit_not, wbit_shl, wbit_shr, wbit_zero, wbit_one, wbit_max, wbit_lowmask,
}

/// a single bit read `(w >> i) & 1`
pub proof fn lemma_bit_read(w: u64, s: u64)
    requires s < 64,
    ensures (w >> s) & 1 == if wbit(w, s as int) { 1u64 } else { 0u64 },
{
    assert((w >> s) & 1 == 0 || (w >> s) & 1 == 1) by (bit_vector);
}

/// the low `n` bits of a word, as a sequence
pub open spec fn wbits(w: u64, n: nat) -> Seq<bool> {
    Seq::new(n, |i: int| wbit(w, i))
}

pub open spec fn b2u(b: bool) -> u64 {
    if b { 1 } else { 0 }
}
pub fn bool_to_u64(b: bool) -> (r: u64)
    ensures r == b2u(b),
{
    if b { 1 } else { 0 }
}

/// `w` holds the bits `s[pos..pos+n]` in its low `n` bits and zeros above
pub open spec fn is_bits(w: u64, s: Seq<bool>, pos: int, n: int) -> bool {
    forall|i: int| 0 <= i < 64 ==> #[trigger] wbit(w, i) == (i < n && s[pos + i])
}

pub proof fn lemma_parity(v: u64)
    ensures wbit(v, 0) == (v % 2 == 1), v & 1 == v % 2,
{
    assert((v >> 0u64) & 1 == v % 2) by (bit_vector);
    assert(v & 1 == v % 2) by (bit_vector);
}

/// the low `n` bits set
pub open spec fn lowmask(n: int) -> u64 {
    if n >= 64 { u64::MAX } else { ((1u64 << (n as u64)) - 1) as u64 }
}

pub proof fn lemma_lowmask(n: int)
    requires 0 <= n <= 64,
    ensures
        forall|i: int| 0 <= i < 64 ==> #[trigger] wbit(lowmask(n), i) == (i < n),
        n < 64 ==> (1u64 << (n as u64)) >= 1,
{
    broadcast use group_wbit;
    if n < 64 { lemma_shl_pos(n as u64); }
}

// ---------------------------------------------------------------- rank

/// number of ones among the first `i` bits
pub open spec fn rank1(s: Seq<bool>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { rank1(s, i - 1) + if s[i - 1] { 1int } else { 0int } }
}
pub open spec fn rank0(s: Seq<bool>, i: int) -> int {
    i - rank1(s, i)
}
/// number of ones among the low `i` bits of a word
pub open spec fn pop(w: u64, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { pop(w, i - 1) + if wbit(w, i - 1) { 1int } else { 0int } }
}

pub proof fn lemma_rank_bounds(s: Seq<bool>, i: int)
    requires 0 <= i,
    ensures 0 <= rank1(s, i) <= i,
    decreases i,
{
    if i > 0 { lemma_rank_bounds(s, i - 1); }
}

pub proof fn lemma_rank_mono(s: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j,
    ensures rank1(s, i) <= rank1(s, j) <= rank1(s, i) + (j - i),
    decreases j - i,
{
    if i < j { lemma_rank_mono(s, i, j - 1); }
}

pub proof fn lemma_pop_bounds(w: u64, i: int)
    requires 0 <= i,
    ensures 0 <= pop(w, i) <= i,
    decreases i,
{
    if i > 0 { lemma_pop_bounds(w, i - 1); }
}

/// rank over a run of bits that a word holds
pub proof fn lemma_rank_word(s: Seq<bool>, p: int, w: u64, n: int)
    requires 0 <= p, 0 <= n <= 64, forall|j: int| 0 <= j < n ==> s[p + j] == wbit(w, j),
    ensures rank1(s, p + n) == rank1(s, p) + pop(w, n),
    decreases n,
{
    if n > 0 {
        lemma_rank_word(s, p, w, n - 1);
        assert(s[p + (n - 1)] == wbit(w, n - 1));
    }
}

/// masking the low `n` bits leaves their population
pub proof fn lemma_pop_masked(w: u64, m: u64, n: int, k: int)
    requires 0 <= n <= 64, 0 <= k <= 64, forall|j: int| 0 <= j < 64 ==> wbit(m, j) == (j < n && wbit(w, j)),
    ensures pop(m, k) == pop(w, if k <= n { k } else { n }),
    decreases k,
{
    if k > 0 { lemma_pop_masked(w, m, n, k - 1); }
}

// ---------------------------------------------------------------- std functions without a vstd contract
pub assume_specification [u64::checked_shl] (x: u64, n: u32) -> (r: Option<u64>)
    ensures n < 64 ==> r == Some(x << n), n >= 64 ==> r is None;
pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize)
    requires y != 0,
    ensures r as int == (x as int + y as int - 1) / (y as int);

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]);
pub assume_specification [u64::count_zeros] (x: u64) -> (r: u32)
    ensures r as int == 64 - pop(x, 64), 0 <= r <= 64;
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32)
    ensures r as int == pop(x, 64), 0 <= r <= 64;


// std::cmp::{min, max}
pub trait MinMax: Sized {
    spec fn smin(self, o: Self) -> Self;
    spec fn smax(self, o: Self) -> Self;
    fn min_(self, o: Self) -> (r: Self) ensures r == self.smin(o);
    fn max_(self, o: Self) -> (r: Self) ensures r == self.smax(o);
}
impl MinMax for usize {
    open spec fn smin(self, o: usize) -> usize { if self <= o { self } else { o } }
    open spec fn smax(self, o: usize) -> usize { if self <= o { o } else { self } }
    fn min_(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn max_(self, o: usize) -> (r: usize) { if self <= o { o } else { self } }
}
impl MinMax for u64 {
    open spec fn smin(self, o: u64) -> u64 { if self <= o { self } else { o } }
    open spec fn smax(self, o: u64) -> u64 { if self <= o { o } else { self } }
    fn min_(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
    fn max_(self, o: u64) -> (r: u64) { if self <= o { o } else { self } }
}
impl MinMax for i64 {
    open spec fn smin(self, o: i64) -> i64 { if self <= o { self } else { o } }
    open spec fn smax(self, o: i64) -> i64 { if self <= o { o } else { self } }
    fn min_(self, o: i64) -> (r: i64) { if self <= o { self } else { o } }
    fn max_(self, o: i64) -> (r: i64) { if self <= o { o } else { self } }
}
pub fn min<T: MinMax>(a: T, b: T) -> (r: T)
    ensures r == a.smin(b),
{ a.min_(b) }
pub fn max<T: MinMax>(a: T, b: T) -> (r: T)
    ensures r == a.smax(b),
{ a.max_(b) }
/// `(1 << k) - 1` does not underflow
pub broadcast proof fn one_shl(k: usize)
    requires k < 64,
    ensures #[trigger] (1u64 << k) >= 1,
{ assert((1u64 << k) >= 1) by (bit_vector) requires k < 64; }


/// `s.iter().enumerate().min_by_key(|(_, &x)| x)`: the first minimum with its index
pub fn min_enum(s: &[u64]) -> (r: Option<(usize, u64)>)
    ensures match r {
        None => s@.len() == 0,
        Some((i, x)) => i < s@.len() && x == s@[i as int] && (forall|k: int| 0 <= k < s@.len() ==> x <= #[trigger] s@[k]) && (forall|k: int| 0 <= k < i ==> x < #[trigger] s@[k]),
    },
{
    if s.len() == 0 { return None; }
    let mut b: usize = 0;
    for k in 1..s.len()
        invariant b < k, forall|q: int| 0 <= q < k ==> s@[b as int] <= #[trigger] s@[q], forall|q: int| 0 <= q < b ==> s@[b as int] < #[trigger] s@[q],
    {
        if s[k] < s[b] { b = k; }
    }
    Some((b, s[b]))
}
/// `&s[a..=b]`
pub fn slice_incl(s: &Vec<u64>, a: usize, b: usize) -> (r: &[u64])
    requires a <= b + 1, b < s@.len(),
    ensures r@ == s@.subrange(a as int, b + 1),
{ let n = s.len(); vstd::slice::slice_subrange(s.as_slice(), a, b + 1) }

/// PartialOrd::{lt, le, gt, ge} at u64 as values
pub enum CmpFn { Lt, Le, Gt, Ge }
impl CmpFn {
    pub open spec fn holds(self, a: u64, b: u64) -> bool {
        match self { CmpFn::Lt => a < b, CmpFn::Le => a <= b, CmpFn::Gt => a > b, CmpFn::Ge => a >= b }
    }
    pub fn call(&self, a: &u64, b: &u64) -> (r: bool)
        ensures r == self.holds(*a, *b),
    { match self { CmpFn::Lt => *a < *b, CmpFn::Le => *a <= *b, CmpFn::Gt => *a > *b, CmpFn::Ge => *a >= *b } }
}
pub open spec fn sorted(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
/// `s.windows(2).all(|w| w[0] != w[1])`
pub fn adj_distinct_u64(s: &[u64]) -> (r: bool)
    ensures r == (forall|i: int| 0 <= i && i + 1 < s@.len() ==> s@[i] != #[trigger] s@[i + 1]),
{
    let mut k: usize = 1;
    while k < s.len()
        invariant k >= 1, forall|i: int| 0 <= i && i + 1 < k && i + 1 < s@.len() ==> s@[i] != #[trigger] s@[i + 1],
        decreases s.len() - k,
    {
        if s[k - 1] == s[k] {
            assert(s@[(k - 2) + 1] == s@[(k - 1) + 1]);
            return false;
        }
        k = k + 1;
    }
    true
}
/// `s.windows(2).all(|w| w[0] < w[1])`
pub fn strict_u64(s: &[u64]) -> (r: bool)
    ensures r == (forall|i: int| 0 <= i && i + 1 < s@.len() ==> s@[i] < #[trigger] s@[i + 1]),
{
    let mut k: usize = 1;
    while k < s.len()
        invariant k >= 1, forall|i: int| 0 <= i && i + 1 < k && i + 1 < s@.len() ==> s@[i] < #[trigger] s@[i + 1],
        decreases s.len() - k,
    {
        if s[k - 1] >= s[k] {
            assert(s@[(k - 2) + 1] >= s@[(k - 1) + 1]);
            return false;
        }
        k = k + 1;
    }
    true
}
/// `s.windows(2).all(|w| w[0] <= w[1])`
pub fn sorted_u64(s: &[u64]) -> (r: bool)
    ensures r == (forall|i: int| 0 <= i && i + 1 < s@.len() ==> s@[i] <= #[trigger] s@[i + 1]),
{
    let mut k: usize = 1;
    while k < s.len()
        invariant k >= 1, forall|i: int| 0 <= i && i + 1 < k && i + 1 < s@.len() ==> s@[i] <= #[trigger] s@[i + 1],
        decreases s.len() - k,
    {
        if s[k - 1] > s[k] {
            assert(s@[(k - 2) + 1] > s@[(k - 1) + 1]);
            return false;
        }
        k = k + 1;
    }
    true
}
pub fn max_u64(a: u64, b: u64) -> (r: u64)
    ensures r == if a <= b { b } else { a },
{ if a <= b { b } else { a } }

// the order of Option<usize>: None is smaller than every Some
pub open spec fn opt_key(a: Option<usize>) -> int { match a { Some(x) => x as int, None => -1 } }
pub fn opt_gt(a: Option<usize>, b: Option<usize>) -> (r: bool)
    ensures r == (opt_key(a) > opt_key(b)),
{ match a { Some(x) => match b { Some(y) => x > y, None => true }, None => false } }
pub fn opt_lt(a: Option<usize>, b: Option<usize>) -> (r: bool)
    ensures r == (opt_key(a) < opt_key(b)),
{ opt_gt(b, a) }
pub fn opt_ge(a: Option<usize>, b: Option<usize>) -> (r: bool)
    ensures r == (opt_key(a) >= opt_key(b)),
{ !opt_gt(b, a) }
pub fn opt_le(a: Option<usize>, b: Option<usize>) -> (r: bool)
    ensures r == (opt_key(a) <= opt_key(b)),
{ !opt_gt(a, b) }
/// `len` and `is_empty` of a range, and the vector of its numbers
pub fn range_len(r: &core::ops::Range<usize>) -> (n: usize)
    ensures n == if r.start < r.end { r.end - r.start } else { 0int },
{
    if r.start < r.end { r.end - r.start } else { 0 }
}
pub fn range_is_empty(r: &core::ops::Range<usize>) -> (b: bool)
    ensures b == !(r.start < r.end),
{
    !(r.start < r.end)
}
pub fn range_vec(a: usize, b: usize) -> (v: Vec<usize>)
    ensures v@.len() == if a < b { b - a } else { 0int }, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == a + i,
{
    let mut v = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, a <= b ==> i <= b, a > b ==> i == a, v@.len() == i - a, forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] == a + j,
        decreases b - i,
    {
        v.push(i);
        i = i + 1;
    }
    v
}
/// assumed: boxing a vector keeps its elements
#[verifier::external_body]
pub fn into_box<T>(v: Vec<T>) -> (r: Box<[T]>)
    ensures r@ == v@,
{
    v.into_boxed_slice()
}
} // verus!
