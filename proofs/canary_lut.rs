// must be rejected: consequences that do NOT follow from the contracts
use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::lutspec::*;
use crate::lut::*;
verus! {
pub fn canary_fwd(w: u8)
{
    let mut e = 2i64;
    let r = process_block_fwd(w, &mut e);
    assert(r is Err ==> e != 4);
}
} // verus!
