use vstd::prelude::*;
use crate::base::{wbit, lemma_wbit_def, pop, rank1};
use crate::exc::*;
use crate::lutspec::*;
verus! {
pub assume_specification [i64::abs] (x: i64) -> (r: i64)
    requires x != i64::MIN,
    ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [u8::count_ones] (x: u8) -> (r: u32)
    ensures r == pop(x as u64, 8), 0 <= r <= 8;
pub assume_specification [u8::count_zeros] (x: u8) -> (r: u32)
    ensures r == 8 - pop(x as u64, 8), 0 <= r <= 8;
//@@ item src/trees/bp/lookup_query.rs const LOOKUP_BLOCK_SIZE
//@@ item src/trees/bp/lookup_query.rs type LookupBlockType
//@@ item src/trees/bp/lookup_query.rs type SignedLookupBlockType
//@@ item src/trees/bp/lookup_query.rs const LOOKUP_MAX_VALUE
//@@ item src/trees/bp/lookup_query.rs const ENCODING_MASK
//@@ item src/trees/bp/lookup_query.rs const MINIMUM_EXCESS_POSITION
//@@ item src/trees/bp/lookup_query.rs const QUERY_BASE_POSITION
// ---------------------------------------------------------------- encoding
pub open spec fn emax(e: u64) -> int { (e & 31) as int }
pub open spec fn emin(e: u64) -> int { ((e >> 5u64) & 31) as int }
pub open spec fn eq3(e: u64, k: int) -> int { ((e >> ((10 + 3 * k) as u64)) & 7) as int }
pub proof fn lemma_enc0(mi: u64, ma: u64)
    ensures ({
        let e = ((mi & 31) << 5u64) | (ma & 31);
        &&& mi <= 31 ==> emin(e) == mi
        &&& ma <= 31 ==> emax(e) == ma
        &&& e >> 10u64 == 0
    }),
{
    let e = ((mi & 31) << 5u64) | (ma & 31);
    assert((ma <= 31 ==> e & 31 == ma) && (mi <= 31 ==> (e >> 5u64) & 31 == mi) && e >> 10u64 == 0) by (bit_vector) requires e == ((mi & 31) << 5u64) | (ma & 31);
}
/// `k` answers are encoded
pub open spec fn encs(e: u64, k: int, mi: int, ma: int, m: Seq<i8>) -> bool {
    &&& emin(e) == mi && emax(e) == ma
    &&& e >> ((10 + 3 * k) as u64) == 0
    &&& forall|j: int| 0 <= j < k ==> #[trigger] eq3(e, j) == if m[j] == -1 { 7 } else { m[j] as int }
}
pub proof fn lemma_encq(e: u64, k: int, mi: int, ma: int, m: Seq<i8>)
    requires 0 <= k <= 16, encs(e, k, mi, ma, m), -1 <= m[k] <= 7,
    ensures ({
        let y = (m[k] & 7) as u64;
        encs(e | (y << ((10 + 3 * k) as u64)), k + 1, mi, ma, m)
    }),
{
    let q = m[k];
    let y = (q & 7) as u64;
    assert(y == if q == -1 { 7u64 } else { q as u64 } && y <= 7) by (bit_vector) requires -1 <= q <= 7, y == (q & 7) as u64;
    let s = (10 + 3 * k) as u64;
    let x = e | (y << s);
    assert((x >> s) & 7 == y && x & 31 == e & 31 && (x >> 5u64) & 31 == (e >> 5u64) & 31) by (bit_vector) requires e >> s == 0, y <= 7, 10 <= s <= 58, x == e | (y << s);
    let s3 = (s + 3) as u64;
    assert(x >> s3 == 0) by (bit_vector) requires e >> s == 0, y <= 7, 10 <= s <= 58, x == e | (y << s), s3 == add(s, 3);
    assert(10 + 3 * (k + 1) == s3);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] eq3(x, j) == if m[j] == -1 { 7 } else { m[j] as int } by {
        if j < k {
            let t = (10 + 3 * j) as u64;
            assert((x >> t) & 7 == (e >> t) & 7) by (bit_vector) requires y <= 7, 10 <= s <= 58, t <= 58, s >= add(t, 3), x == e | (y << s);
            assert(eq3(e, j) == if m[j] == -1 { 7 } else { m[j] as int });
        }
    }
}
pub proof fn lemma_minmax_bits(a: i8, b: i8)
    requires -20 <= a <= 20, -20 <= b <= 20,
    ensures b + ((a - b) as i8 & (-((((a - b) as i8) as u8 >> 7u64) as i8)) as i8) == imin(a as int, b as int),
        a - ((a - b) as i8 & (-((((a - b) as i8) as u8 >> 7u64) as i8)) as i8) == imax(a as int, b as int),
        -40 <= ((a - b) as i8 & (-((((a - b) as i8) as u8 >> 7u64) as i8)) as i8) <= 40,
        0 <= ((((a - b) as i8) as u8 >> 7u64) as i8) <= 1,
{
    assert(b + ((a - b) as i8 & (-((((a - b) as i8) as u8 >> 7u64) as i8)) as i8) == (if a <= b { a as int } else { b as int })) by (bit_vector) requires -20 <= a <= 20, -20 <= b <= 20;
    assert(a - ((a - b) as i8 & (-((((a - b) as i8) as u8 >> 7u64) as i8)) as i8) == (if a <= b { b as int } else { a as int })) by (bit_vector) requires -20 <= a <= 20, -20 <= b <= 20;
    assert(0 <= ((((a - b) as i8) as u8 >> 7u64) as i8) <= 1) by (bit_vector) requires -20 <= a <= 20, -20 <= b <= 20;
}
pub open spec fn entf(e: u64, b: Seq<bool>) -> bool {
    &&& is_min(b, 0, 8, emin(e) - 8) && is_max(b, 0, 8, emax(e) - 8)
    &&& forall|k: int| 0 <= k <= 16 && qf(b, 8, k - 8) != -1 ==> #[trigger] eq3(e, k) == qf(b, 8, k - 8)
}
pub open spec fn entb(e: u64, b: Seq<bool>) -> bool {
    forall|k: int| 0 <= k <= 16 && qb(b, 8, 0, k - 8) != -1 ==> #[trigger] eq3(e, k) == qb(b, 8, 0, k - 8)
}
pub open spec fn tabf(t: [u64; 256]) -> bool { forall|v: int| 0 <= v < 256 ==> entf(#[trigger] t[v], bl(v as u64, 8)) }
pub open spec fn tabb(t: [u64; 256]) -> bool { forall|v: int| 0 <= v < 256 ==> entb(#[trigger] t[v], bl(v as u64, 8)) }
// ---------------------------------------------------------------- the code
//@@ fn src/trees/bp/lookup_query.rs min keepconst key=lookup_query.rs::min
//@ props C17 C18 C19 C22
//@ spec
    requires -20 <= a <= 20, -20 <= b <= 20,
    ensures r == imin(a as int, b as int),
//@ start
    proof { lemma_minmax_bits(a, b); }
//@@ end
//@@ fn src/trees/bp/lookup_query.rs max keepconst key=lookup_query.rs::max
//@ props C17 C18 C19 C22
//@ spec
    requires -20 <= a <= 20, -20 <= b <= 20,
    ensures r == imax(a as int, b as int),
//@ start
    proof { lemma_minmax_bits(a, b); }
//@@ end
pub proof fn lemma_vbit(v: u32, i: int)
    requires 0 <= i < 8, v < 256,
    ensures ((v >> i) & 1 == 1) == wbit(v as u64, i), bl(v as u64, 8)[i] == wbit(v as u64, i),
{
    lemma_wbit_def(v as u64, i);
    let w = v as u64;
    let k = i as u64;
    let j = i as u32;
    assert(((v >> j) & 1 == 1) == ((w >> k) & 1 == 1)) by (bit_vector) requires w == v as u64, k < 8, j < 8, k == j as u64;
}
//@@ fn src/trees/bp/lookup_query.rs calculate_values_fwd keepconst
//@ props C17 C18 C19 C22
//@ spec
    requires v < 256, *old(minimum_excess) == 9, *old(maximum_excess) == -9, qfs(old(query_map)@, bl(v as u64, 8), 8, 0),
    ensures qfs(final(query_map)@, bl(v as u64, 8), 8, 8), mms(bl(v as u64, 8), 8, *final(minimum_excess) as int, *final(maximum_excess) as int, 8),
//@ start
    let ghost b = bl(v as u64, 8);
//@ loop 0
    invariant
        b == bl(v as u64, 8), v < 256, i <= 8, total_excess == ex(b, i as int), -8 <= total_excess <= 8,
        qfs(query_map@, b, 8, i as int), mms(b, i as int, *minimum_excess as int, *maximum_excess as int, 8),
    decreases 8 - i,
//@ body 0
    proof {
        lemma_vbit(v, i as int);
        lemma_mms(b, i as int, *minimum_excess as int, *maximum_excess as int, 8);
        lemma_ex_bound(b, 0, i as int);
    }
    let ghost m0 = query_map@;
//@ bodyend 0
    proof { lemma_qfs(m0, query_map@, b, i - 1, total_excess as int); }
//@@ end
pub proof fn lemma_qfs(m: Seq<i8>, m2: Seq<i8>, b: Seq<bool>, i: int, t: int)
    requires qfs(m, b, 8, i), 0 <= i < 8, t == ex(b, i + 1), -8 <= t <= 8,
        m2 == if m[t + 8] == -1 { m.update(t + 8, i as i8) } else { m },
    ensures qfs(m2, b, 8, i + 1),
{
    assert forall|k: int| 0 <= k <= 16 implies #[trigger] m2[k] == qf(b, i + 1, k - 8) by { assert(m[k] == qf(b, i, k - 8)); }
}
pub proof fn lemma_qbs(m: Seq<i8>, m2: Seq<i8>, b: Seq<bool>, i: int, t: int)
    requires qbs(m, b, 8, i + 1), 0 <= i < 8, t == ex(b, i) - ex(b, 8), -8 <= t <= 8,
        m2 == if m[t + 8] == -1 { m.update(t + 8, i as i8) } else { m },
    ensures qbs(m2, b, 8, i),
{
    assert forall|k: int| 0 <= k <= 16 implies #[trigger] m2[k] == qb(b, 8, i, k - 8) by { assert(m[k] == qb(b, 8, i + 1, k - 8)); }
}
//@@ fn src/trees/bp/lookup_query.rs calculate_values_bwd keepconst
//@ props C17 C18 C19 C22
//@ spec
    requires v < 256, *old(minimum_excess) == 9, *old(maximum_excess) == -9, qbs(old(query_map)@, bl(v as u64, 8), 8, 8),
    ensures qbs(final(query_map)@, bl(v as u64, 8), 8, 0), -9 <= *final(minimum_excess) <= 9, -9 <= *final(maximum_excess) <= 9,
//@ start
    let ghost b = bl(v as u64, 8);
//@ loop 0
    invariant
        b == bl(v as u64, 8), v < 256, -1 <= i < 8, total_excess == ex(b, i + 1) - ex(b, 8), -8 <= total_excess <= 8,
        qbs(query_map@, b, 8, i + 1), -9 <= *minimum_excess <= 9, -9 <= *maximum_excess <= 9,
    decreases i + 1,
//@ body 0
    proof {
        lemma_vbit(v, i as int);
        lemma_ex_step(b, i as int);
        lemma_ex_bound(b, i as int, 8);
    }
    let ghost m0 = query_map@;
//@ bodyend 0
    proof { lemma_qbs(m0, query_map@, b, i + 1, total_excess as int); }
//@@ end
pub open spec fn blank(m: Seq<i8>) -> bool { m.len() == 17 && forall|k: int| 0 <= k < 17 ==> #[trigger] m[k] == -1 }
pub proof fn lemma_ent(e: u64, b: Seq<bool>, mi: int, ma: int, m: Seq<i8>)
    requires encs(e, 17, mi, ma, m),
    ensures qfs(m, b, 8, 8) && mms(b, 8, mi - 8, ma - 8, 8) ==> entf(e, b), qbs(m, b, 8, 0) ==> entb(e, b),
{
    assert forall|k: int| 0 <= k <= 16 && qfs(m, b, 8, 8) && qf(b, 8, k - 8) != -1 implies #[trigger] eq3(e, k) == qf(b, 8, k - 8) by { assert(m[k] == qf(b, 8, k - 8)); }
    assert forall|k: int| 0 <= k <= 16 && qbs(m, b, 8, 0) && qb(b, 8, 0, k - 8) != -1 implies #[trigger] eq3(e, k) == qb(b, 8, 0, k - 8) by { assert(m[k] == qb(b, 8, 0, k - 8)); }
}
pub proof fn lemma_map_range(m: Seq<i8>, b: Seq<bool>)
    ensures qfs(m, b, 8, 8) || qbs(m, b, 8, 0) ==> forall|k: int| 0 <= k < 17 ==> -1 <= #[trigger] m[k] <= 7,
{
    assert forall|k: int| 0 <= k < 17 && (qfs(m, b, 8, 8) || qbs(m, b, 8, 0)) implies -1 <= #[trigger] m[k] <= 7 by { lemma_qf(b, 8, k - 8); lemma_qb(b, 8, 0, k - 8); }
}
//@@ fn src/trees/bp/lookup_query.rs calculate_lookup_table keepconst key=lookup_query.rs::calculate_lookup_table
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    ensures fwd ==> tabf(r), !fwd ==> tabb(r),
//@ loop 0
    invariant
        v <= 256, blank(query_map@),
        forall|u: int| 0 <= u < v && fwd ==> entf(#[trigger] lookup[u], bl(u as u64, 8)),
        forall|u: int| 0 <= u < v && !fwd ==> entb(#[trigger] lookup[u], bl(u as u64, 8)),
    decreases 256 - v,
//@ body 0
    let ghost b = bl(v as u64, 8);
    proof {
        assert(qfs(query_map@, b, 8, 0));
        assert(qbs(query_map@, b, 8, 8));
    }
//@ before encoded
    let ghost m = query_map@;
    proof {
        if fwd { lemma_minmax(b, 8, minimum_excess as int, maximum_excess as int, 0); }
        lemma_map_range(m, b);
        lemma_enc0((minimum_excess as i32 + 8) as u64, (maximum_excess as i32 + 8) as u64);
    }
//@ beforeloop 1
    let ghost (mi, ma) = (emin(encoded), emax(encoded));
    assert(fwd ==> mi == minimum_excess + 8 && ma == maximum_excess + 8);
//@ loop 1
    invariant
        relative_off <= 17, query_map@.len() == 17,
        forall|k: int| 0 <= k < relative_off ==> #[trigger] query_map@[k] == -1,
        forall|k: int| relative_off <= k < 17 ==> #[trigger] query_map@[k] == m[k],
        encs(encoded, relative_off as int, mi, ma, m),
    decreases 17 - relative_off,
//@ body 1
    proof { lemma_encq(encoded, relative_off as int, mi, ma, m); }
//@ afterloop 1
    proof { lemma_ent(encoded, b, mi, ma, m); }
//@@ end
//@@ item src/trees/bp/lookup_query.rs static PAREN_BLOCK_LOOKUP_FWD tabf(PAREN_BLOCK_LOOKUP_FWD)
//@@ item src/trees/bp/lookup_query.rs static PAREN_BLOCK_LOOKUP_BWD tabb(PAREN_BLOCK_LOOKUP_BWD)
//@@ fn src/trees/bp/lookup_query.rs answer_query
//@ props C17 C18 C19 C22
//@ spec
    requires -8 <= relative_excess <= 8,
    ensures r == eq3(value, relative_excess + 8),
//@@ end
//@@ fn src/trees/bp/lookup_query.rs get_minimum_excess key=lookup_query.rs::get_minimum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == emin(value) - 8,
//@ start
    proof { assert((value >> 5u64) & 31 <= 31) by (bit_vector); }
//@@ end
//@@ fn src/trees/bp/lookup_query.rs get_maximum_excess key=lookup_query.rs::get_maximum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == emax(value) - 8,
//@ start
    proof { assert(value & 31 <= 31) by (bit_vector); }
//@@ end
//@@ fn src/trees/bp/lookup_query.rs lookup_total_excess key=lookup_query.rs::lookup_total_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == ex(bl(block as u64, 8), 8), -8 <= r <= 8,
//@ start
    proof { lemma_bl_pop(block as u64, 8, 8); }
//@@ end
//@@ fn src/trees/bp/lookup_query.rs lookup_maximum_excess key=lookup_query.rs::lookup_maximum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures is_max(bl(block as u64, 8), 0, 8, r as int),
//@@ end
//@@ fn src/trees/bp/lookup_query.rs lookup_minimum_excess key=lookup_query.rs::lookup_minimum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures is_min(bl(block as u64, 8), 0, 8, r as int),
//@@ end
/// the two results of a block search
pub proof fn lemma_search(b: Seq<bool>, rel: int)
    ensures forall|mi: int, ma: int| #[trigger] is_min(b, 0, 8, mi) && #[trigger] is_max(b, 0, 8, ma) ==> {
            &&& (mi <= rel <= ma) == (qf(b, 8, rel) != -1)
            &&& rel != 0 ==> (rel + ex(b, 8) == 0 || mi <= rel + ex(b, 8) <= ma) == (qb(b, 8, 0, rel) != -1)
        },
        !(-8 <= rel <= 8) ==> qf(b, 8, rel) == -1 && qb(b, 8, 0, rel) == -1,
        qf(b, 8, rel) == -1 ==> fwd_ans(b, 8, rel, Err(()), rel - ex(b, 8)),
        qf(b, 8, rel) != -1 ==> 0 <= qf(b, 8, rel) < 8 && fwd_ans(b, 8, rel, Ok(qf(b, 8, rel) as u64), 0),
        qb(b, 8, 0, rel) == -1 ==> bwd_ans(b, 8, rel, Err(()), rel + ex(b, 8)),
        qb(b, 8, 0, rel) != -1 ==> 0 <= qb(b, 8, 0, rel) < 8 && bwd_ans(b, 8, rel, Ok(qb(b, 8, 0, rel) as u64), 0),
{
    assert forall|mi: int, ma: int| #[trigger] is_min(b, 0, 8, mi) && #[trigger] is_max(b, 0, 8, ma) implies ({
            &&& (mi <= rel <= ma) == (qf(b, 8, rel) != -1)
            &&& rel != 0 ==> (rel + ex(b, 8) == 0 || mi <= rel + ex(b, 8) <= ma) == (qb(b, 8, 0, rel) != -1)
        }) by { lemma_minmax(b, 8, mi, ma, rel); }
    lemma_qf(b, 8, rel);
    lemma_qb(b, 8, 0, rel);
    if qf(b, 8, rel) != -1 { lemma_ex_bound(b, 0, qf(b, 8, rel) + 1); assert(ex(b, 0) == 0); }
    if qb(b, 8, 0, rel) != -1 { lemma_ex_bound(b, qb(b, 8, 0, rel), 8); }
}
//@@ fn src/trees/bp/lookup_query.rs process_block_fwd key=lookup_query.rs::process_block_fwd
//@ props C17 C18 C19 C22
//@ spec
    requires -0x4000_0000_0000_0000 <= *old(relative_excess) <= 0x4000_0000_0000_0000,
    ensures fwd_ans(bl(block as u64, LOOKUP_BLOCK_SIZE as int), LOOKUP_BLOCK_SIZE as int, *old(relative_excess) as int, r, *final(relative_excess) as int),
//@ start
    proof { lemma_search(bl(block as u64, 8), *relative_excess as int); }
//@@ end
//@@ fn src/trees/bp/lookup_query.rs process_block_bwd key=lookup_query.rs::process_block_bwd
//@ props C17 C18 C19 C22
//@ spec
    requires -0x4000_0000_0000_0000 <= *old(relative_excess) <= 0x4000_0000_0000_0000, *old(relative_excess) != 0,
    ensures bwd_ans(bl(block as u64, LOOKUP_BLOCK_SIZE as int), LOOKUP_BLOCK_SIZE as int, *old(relative_excess) as int, r, *final(relative_excess) as int),
//@ start
    proof { lemma_search(bl(block as u64, 8), *relative_excess as int); }
//@@ end
} // verus!
