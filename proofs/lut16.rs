use vstd::prelude::*;
use crate::base::{wbit, lemma_wbit_def, pop, rank1};
use crate::exc::*;
use crate::lutspec::*;
use crate::cnt16::*;
//@@ feature bp_u16_lookup
verus! {
//@@ item src/trees/bp/lookup.rs const LOOKUP_BLOCK_SIZE
//@@ item src/trees/bp/lookup.rs type LookupBlockType
//@@ item src/trees/bp/lookup.rs type SignedLookupBlockType
//@@ item src/trees/bp/lookup.rs type EncodedTableType
//@@ item src/trees/bp/lookup.rs const LOOKUP_MAX_VALUE
//@@ item src/trees/bp/lookup.rs const ENCODING_OFFSET
//@@ item src/trees/bp/lookup.rs const ENCODING_MASK
//@@ item src/trees/bp/lookup.rs const MINIMUM_EXCESS_POSITION
// ---------------------------------------------------------------- encoding
pub open spec fn emax(e: u16) -> int { (e & 63) as int }
pub open spec fn emin(e: u16) -> int { ((e >> 6usize) & 63) as int }
pub proof fn lemma_enc0(mi: u16, ma: u16)
    ensures ({
        let e = ((mi & 63) << 6usize) | (ma & 63);
        &&& mi <= 63 ==> emin(e) == mi
        &&& ma <= 63 ==> emax(e) == ma
    }),
{
    let e = ((mi & 63) << 6usize) | (ma & 63);
    assert((ma <= 63 ==> e & 63 == ma) && (mi <= 63 ==> (e >> 6usize) & 63 == mi)) by (bit_vector) requires e == ((mi & 63) << 6usize) | (ma & 63);
}
pub proof fn lemma_minmax_bits(a: i16, b: i16)
    requires -40 <= a <= 40, -40 <= b <= 40,
    ensures b + ((a - b) as i16 & (-((((a - b) as i16) as u16 >> 15u64) as i16)) as i16) == imin(a as int, b as int),
        a - ((a - b) as i16 & (-((((a - b) as i16) as u16 >> 15u64) as i16)) as i16) == imax(a as int, b as int),
        -80 <= ((a - b) as i16 & (-((((a - b) as i16) as u16 >> 15u64) as i16)) as i16) <= 80,
        0 <= ((((a - b) as i16) as u16 >> 15u64) as i16) <= 1,
{
    assert(b + ((a - b) as i16 & (-((((a - b) as i16) as u16 >> 15u64) as i16)) as i16) == (if a <= b { a as int } else { b as int })) by (bit_vector) requires -40 <= a <= 40, -40 <= b <= 40;
    assert(a - ((a - b) as i16 & (-((((a - b) as i16) as u16 >> 15u64) as i16)) as i16) == (if a <= b { b as int } else { a as int })) by (bit_vector) requires -40 <= a <= 40, -40 <= b <= 40;
    assert(0 <= ((((a - b) as i16) as u16 >> 15u64) as i16) <= 1) by (bit_vector) requires -40 <= a <= 40, -40 <= b <= 40;
}
pub open spec fn ent(e: u16, b: Seq<bool>) -> bool { is_min(b, 0, 16, emin(e) - 16) && is_max(b, 0, 16, emax(e) - 16) }
pub open spec fn tab(t: [u16; 65536]) -> bool { forall|v: int| 0 <= v < 65536 ==> ent(#[trigger] t[v], bl(v as u64, 16)) }
pub proof fn lemma_vbit(v: u32, i: int)
    requires 0 <= i < 16, v < 65536,
    ensures ((v >> i) & 1 == 1) == wbit(v as u64, i), bl(v as u64, 16)[i] == wbit(v as u64, i),
{
    lemma_wbit_def(v as u64, i);
    let w = v as u64;
    let k = i as u64;
    let j = i as u32;
    assert(((v >> j) & 1 == 1) == ((w >> k) & 1 == 1)) by (bit_vector) requires w == v as u64, k < 16, j < 16, k == j as u64;
}
pub proof fn lemma_wb(v: u16, i: u64)
    requires i < 16,
    ensures ((v >> i) & 1 == 1) == wbit(v as u64, i as int), bl(v as u64, 16)[i as int] == wbit(v as u64, i as int), (v >> i) & 1 <= 1,
{
    lemma_wbit_def(v as u64, i as int);
    let w = v as u64;
    assert(((v >> i) & 1 == 1) == ((w >> i) & 1 == 1)) by (bit_vector) requires w == v as u64, i < 16;
    assert((v >> i) & 1 <= 1) by (bit_vector);
}
// ---------------------------------------------------------------- the code
//@@ fn src/trees/bp/lookup.rs min keepconst key=lookup.rs::min
//@ props C17 C18 C19 C22
//@ spec
    requires -40 <= a <= 40, -40 <= b <= 40,
    ensures r == imin(a as int, b as int),
//@ start
    proof { lemma_minmax_bits(a, b); }
//@@ end
//@@ fn src/trees/bp/lookup.rs max keepconst key=lookup.rs::max
//@ props C17 C18 C19 C22
//@ spec
    requires -40 <= a <= 40, -40 <= b <= 40,
    ensures r == imax(a as int, b as int),
//@ start
    proof { lemma_minmax_bits(a, b); }
//@@ end
//@@ fn src/trees/bp/lookup.rs calculate_lookup_table keepconst key=lookup.rs::calculate_lookup_table
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    ensures tab(r),
//@ loop 0
    invariant
        v <= 65536,
        forall|u: int| 0 <= u < v ==> ent(#[trigger] lookup[u], bl(u as u64, 16)),
    decreases 65536 - v,
//@ body 0
    let ghost b = bl(v as u64, 16);
//@ loop 1
    invariant
        i <= 16, total_excess == ex(b, i as int), -16 <= total_excess <= 16,
        mms(b, i as int, minimum_excess as int, maximum_excess as int, 16),
    decreases 16 - i,
//@ body 1
    proof {
        lemma_vbit(v, i as int);
        lemma_mms(b, i as int, minimum_excess as int, maximum_excess as int, 16);
        lemma_ex_bound(b, 0, i as int);
    }
//@ before encoded
    proof {
        lemma_minmax(b, 16, minimum_excess as int, maximum_excess as int, 0);
        lemma_enc0((minimum_excess as i32 + 16) as u16, (maximum_excess as i32 + 16) as u16);
    }
//@@ end
//@@ item src/trees/bp/lookup.rs static PAREN_BLOCK_LOOKUP tab(PAREN_BLOCK_LOOKUP)
//@@ fn src/trees/bp/lookup.rs get_minimum_excess key=lookup.rs::get_minimum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == emin(value) - 16,
//@ start
    proof { assert((value >> 6usize) & 63 <= 63) by (bit_vector); }
//@@ end
//@@ fn src/trees/bp/lookup.rs get_maximum_excess key=lookup.rs::get_maximum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == emax(value) - 16,
//@ start
    proof { assert(value & 63 <= 63) by (bit_vector); }
//@@ end
//@@ fn src/trees/bp/lookup.rs lookup_total_excess key=lookup.rs::lookup_total_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures r == ex(bl(block as u64, 16), 16), -16 <= r <= 16,
//@ start
    proof { lemma_bl_pop(block as u64, 16, 16); }
//@@ end
//@@ fn src/trees/bp/lookup.rs lookup_maximum_excess key=lookup.rs::lookup_maximum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures is_max(bl(block as u64, 16), 0, 16, r as int),
//@@ end
//@@ fn src/trees/bp/lookup.rs lookup_minimum_excess key=lookup.rs::lookup_minimum_excess
//@ props C17 C18 C19 C22
//@ spec
    ensures is_min(bl(block as u64, 16), 0, 16, r as int),
//@@ end
/// what minimum and maximum say about a search
pub proof fn lemma_search(b: Seq<bool>, rel: int)
    ensures forall|mi: int, ma: int| #[trigger] is_min(b, 0, 16, mi) && #[trigger] is_max(b, 0, 16, ma) ==> {
            &&& (mi <= rel <= ma) == (qf(b, 16, rel) != -1)
            &&& rel != 0 ==> (rel + ex(b, 16) == 0 || mi <= rel + ex(b, 16) <= ma) == (qb(b, 16, 0, rel) != -1)
        },
        qf(b, 16, rel) == -1 ==> fwd_ans(b, 16, rel, Err(()), rel - ex(b, 16)),
        qf(b, 16, rel) != -1 ==> 0 <= qf(b, 16, rel) < 16 && ex(b, qf(b, 16, rel) + 1) == rel && -16 <= rel <= 16,
        qb(b, 16, 0, rel) == -1 ==> bwd_ans(b, 16, rel, Err(()), rel + ex(b, 16)),
        qb(b, 16, 0, rel) != -1 ==> 0 <= qb(b, 16, 0, rel) < 16 && ex(b, qb(b, 16, 0, rel)) - ex(b, 16) == rel && -16 <= rel <= 16,
        ex(b, 0) == 0,
{
    assert forall|mi: int, ma: int| #[trigger] is_min(b, 0, 16, mi) && #[trigger] is_max(b, 0, 16, ma) implies ({
            &&& (mi <= rel <= ma) == (qf(b, 16, rel) != -1)
            &&& rel != 0 ==> (rel + ex(b, 16) == 0 || mi <= rel + ex(b, 16) <= ma) == (qb(b, 16, 0, rel) != -1)
        }) by { lemma_minmax(b, 16, mi, ma, rel); }
    lemma_qf(b, 16, rel);
    lemma_qb(b, 16, 0, rel);
    assert(ex(b, 0) == 0);
    if qf(b, 16, rel) != -1 { lemma_ex_bound(b, 0, qf(b, 16, rel) + 1); }
    if qb(b, 16, 0, rel) != -1 { lemma_ex_bound(b, qb(b, 16, 0, rel), 16); }
}
//@@ fn src/trees/bp/lookup.rs process_block_fwd key=lookup.rs::process_block_fwd
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    requires -0x4000_0000_0000_0000 <= *old(relative_excess) <= 0x4000_0000_0000_0000,
    ensures fwd_ans(bl(block as u64, LOOKUP_BLOCK_SIZE as int), LOOKUP_BLOCK_SIZE as int, *old(relative_excess) as int, r, *final(relative_excess) as int),
//@ start
    let ghost b = bl(block as u64, 16);
    let ghost rel = *relative_excess as int;
    proof { lemma_search(b, rel); }
//@ loop 0
    invariant
        *relative_excess == rel - ex(b, i as int), -16 <= ex(b, i as int) <= 16,
        forall|j: int| 0 < j <= i ==> #[trigger] ex(b, j) != rel,
//@ body 0
    proof {
        lemma_wb(block, i);
        lemma_ex_step(b, i as int);
        lemma_ex_bound(b, 0, i + 1);
    }
//@@ end
//@@ fn src/trees/bp/lookup.rs process_block_bwd key=lookup.rs::process_block_bwd
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    requires -0x4000_0000_0000_0000 <= *old(relative_excess) <= 0x4000_0000_0000_0000, *old(relative_excess) != 0,
    ensures bwd_ans(bl(block as u64, LOOKUP_BLOCK_SIZE as int), LOOKUP_BLOCK_SIZE as int, *old(relative_excess) as int, r, *final(relative_excess) as int),
//@ start
    let ghost b = bl(block as u64, 16);
    let ghost rel = *relative_excess as int;
    proof { lemma_search(b, rel); }
//@ loop 0
    invariant
        i__lo == 0, i__s <= 16,
        *relative_excess == rel + ex(b, 16) - ex(b, i__s as int), -16 <= ex(b, 16) - ex(b, i__s as int) <= 16,
        forall|j: int| i__s <= j < 16 ==> #[trigger] ex(b, j) - ex(b, 16) != rel,
    decreases i__s,
//@ body 0
    proof {
        lemma_wb(block, i);
        lemma_ex_step(b, i as int);
        lemma_ex_bound(b, i as int, 16);
    }
//@@ end
} // verus!
