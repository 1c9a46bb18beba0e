use vstd::prelude::*;
use crate::ef::*;
use crate::efiter::*;
verus! {
pub fn canary_efiter(v: &EliasFanoVec)
    requires v.wf(), v@.len() >= 3,
{
    let mut it = v.iter();
    let a = it.next();
    let b = it.next_back();
    let c = it.nth(0);
    assert(c == Some(v@[2]));
}
pub fn canary_efiter_last(v: EliasFanoVec)
    requires v.wf(), v@.len() >= 3,
{
    let it = v.into_iter_own();
    let c = it.last();
    assert(c == Some(v@[v@.len() - 2]));
}
}
