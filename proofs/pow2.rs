use vstd::prelude::*;
use crate::base::*;
use vstd::std_specs::bits::*;
verus! {
/// powers of two
pub open spec fn p2(k: int) -> int
    decreases k,
{
    if k <= 0 { 1 } else { 2 * p2(k - 1) }
}
pub proof fn lemma_p2_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures 1 <= p2(a) <= p2(b), a < b ==> 2 * p2(a) <= p2(b),
    decreases b,
{
    if a < b { lemma_p2_mono(a, b - 1); } else if a > 0 { lemma_p2_mono(a - 1, a - 1); }
}
pub proof fn lemma_p2_shl(k: int)
    requires 0 <= k < 64,
    ensures (1u64 << (k as u64)) == p2(k), (1usize << (k as usize)) == p2(k), p2(k) <= 0x8000_0000_0000_0000,
    decreases k,
{
    let s = k as u64;
    let t = k as usize;
    if k == 0 {
        assert(1u64 << 0u64 == 1) by (bit_vector);
        assert(1usize << 0usize == 1) by (bit_vector);
    } else {
        lemma_p2_shl(k - 1);
        let s1 = (k - 1) as u64;
        let t1 = (k - 1) as usize;
        assert(1u64 << s == mul(2, 1u64 << s1) && (1u64 << s1) < 0x8000_0000_0000_0000u64 && (1u64 << s) <= 0x8000_0000_0000_0000u64) by (bit_vector) requires s < 64, s > 0, s1 == sub(s, 1);
        assert(1usize << t == mul(2, 1usize << t1) && (1usize << t1) < 0x8000_0000_0000_0000usize) by (bit_vector) requires t < 64, t > 0, t1 == sub(t, 1);
    }
}
pub proof fn lemma_p2_add(a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures p2(a + b) == p2(a) * p2(b), p2(a) >= 1, p2(b) >= 1,
    decreases a + b,
{
    if b > 0 {
        lemma_p2_add(a, b - 1);
        assert(p2(a + b) == 2 * p2(a + b - 1));
        assert(p2(a) * (2 * p2(b - 1)) == 2 * (p2(a) * p2(b - 1))) by (nonlinear_arith);
    } else if a > 0 { lemma_p2_add(a - 1, 0); }
}
pub proof fn lemma_shr(x: u64, k: int)
    requires 0 <= k < 64,
    ensures (x >> (k as u64)) * p2(k) <= x < ((x >> (k as u64)) + 1) * p2(k),
    decreases k,
{
    if k == 0 {
        assert(x >> 0u64 == x) by (bit_vector);
    } else {
        lemma_shr(x, k - 1);
        let s = k as u64;
        let s1 = (k - 1) as u64;
        let y = x >> s1;
        let z = x >> s;
        assert(z == y / 2) by { assert(x >> s == (x >> s1) / 2) by (bit_vector) requires s < 64, s1 == sub(s, 1), s > 0; }
        let q = p2(k - 1);
        assert(p2(k) == 2 * q);
        lemma_p2_mono(0, k - 1);
        assert(z * (2 * q) <= y * q) by (nonlinear_arith) requires 2 * z <= y, q >= 0, z >= 0;
        assert((y + 1) * q <= (z + 1) * (2 * q)) by (nonlinear_arith) requires y + 1 <= 2 * (z + 1), q >= 0;
    }
}
/// `k` is the exponent of the smallest power of two that is at least `x`
pub open spec fn is_clog(x: int, k: int) -> bool {
    0 <= k < 64 && x <= p2(k) && (k == 0 || p2(k - 1) < x)
}
pub open spec fn clog(x: int) -> int { choose|k: int| is_clog(x, k) }
/// floor of the binary logarithm
pub open spec fn is_flog(x: int, k: int) -> bool {
    0 <= k < 64 && p2(k) <= x < p2(k + 1)
}
/// assumed: the binary logarithm in floating point, rounded up
pub uninterp spec fn flog(x: int) -> int;
#[verifier::external_body]
pub fn f64_ceil_log2(x: u64) -> (r: u64)
    ensures r == flog(x as int), 1 <= x ==> 0 <= flog(x as int) <= 64,
{ unimplemented!() }
/// assumed of the floating point logarithm: it is monotone, exact for powers of two, and off by at most one otherwise
#[verifier::external_body]
pub proof fn axiom_flog(x: int)
    requires 1 <= x <= u64::MAX,
    ensures 0 <= flog(x) <= 64, x <= 2 * p2(flog(x)), p2(flog(x)) <= 2 * x, flog(2) == 1,
{ }
/// assumed of the floating point logarithm: exact up to 2^40, where neighbours of powers of two are far apart in f64
#[verifier::external_body]
pub proof fn axiom_flog_exact(x: int)
    requires 1 <= x <= 0x100_0000_0000,
    ensures is_clog(x, flog(x)),
{ }
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000,
    ensures is_clog(x as int, clog(x as int)), r == p2(clog(x as int));
pub assume_specification [usize::trailing_zeros] (x: usize) -> (r: u32)
    ensures x == 0 ==> r == 64, x != 0 ==> r < 64, forall|k: int| 0 <= k < 64 && x == #[trigger] p2(k) ==> r == k;
pub assume_specification [usize::leading_zeros] (x: usize) -> (r: u32)
    ensures x == 0 ==> r == 64, x != 0 ==> r < 64 && is_flog(x as int, 63 - r);
} // verus!
