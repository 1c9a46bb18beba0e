use vstd::prelude::*;
use crate::base::*;
verus! {
pub open spec fn unused16() -> bool { true }
pub assume_specification [u16::count_ones] (x: u16) -> (r: u32)
    ensures r == pop(x as u64, 16), 0 <= r <= 16;
pub assume_specification [u16::count_zeros] (x: u16) -> (r: u32)
    ensures r == 16 - pop(x as u64, 16), 0 <= r <= 16;
} // verus!
