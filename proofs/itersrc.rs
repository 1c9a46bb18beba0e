use vstd::prelude::*;
verus! {
/// what the functions rely on of `IntoIterator<Item = T>`: a finite sequence, yielded in order by `next`
pub trait Src<T>: Sized {
    spec fn rem(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().skip(1),
        };
    fn into_iter(self) -> (r: Self)
        ensures r.rem() == self.rem();
    /// nothing is assumed of the hint
    fn size_hint(&self) -> (r: (usize, Option<usize>));
}
/// `Into<u64>`
pub trait IntoU64: Sized {
    spec fn val(self) -> u64;
    fn into(self) -> (r: u64)
        ensures r == self.val();
}
/// `iter.into_iter().map(Into::into).collect()`
pub fn collect_into<E: IntoU64, I: Src<E>>(iter: I) -> (r: Vec<u64>)
    ensures r@ == vals(iter.rem()),
{
    let ghost all = iter.rem();
    let mut v: Vec<u64> = Vec::new();
    let mut it = iter.into_iter();
    loop
        invariant all.len() == v@.len() + it.rem().len(), it.rem() == all.skip(v@.len() as int), v@ == vals(all).take(v@.len() as int), v@.len() <= all.len(),
        ensures v@ == vals(all),
        decreases it.rem().len(),
    {
        match it.next() { None => { assert(vals(all).take(v@.len() as int) =~= vals(all)); break; }, Some(x) => {
            let ghost k = v@.len() as int;
            v.push(x.into());
            assert(v@ =~= vals(all).take(k + 1));
            assert(all.skip(k).skip(1) =~= all.skip(k + 1));
        } }
    }
    v
}
pub open spec fn vals<E: IntoU64>(s: Seq<E>) -> Seq<u64> { s.map_values(|x: E| x.val()) }
/// `iter.into_iter().collect()`
pub fn collect_src<T, I: Src<T>>(iter: I) -> (r: Vec<T>)
    ensures r@ == iter.rem(),
{
    let ghost all = iter.rem();
    let mut v: Vec<T> = Vec::new();
    let mut it = iter.into_iter();
    loop
        invariant all.len() == v@.len() + it.rem().len(), it.rem() == all.skip(v@.len() as int), v@ == all.take(v@.len() as int), v@.len() <= all.len(),
        ensures v@ == all,
        decreases it.rem().len(),
    {
        match it.next() { None => { assert(all.take(v@.len() as int) =~= all); break; }, Some(x) => {
            let ghost k = v@.len() as int;
            v.push(x);
            assert(v@ =~= all.take(k + 1));
            assert(all.skip(k).skip(1) =~= all.skip(k + 1));
        } }
    }
    v
}
impl IntoU64 for u64 {
    open spec fn val(self) -> u64 { self as u64 }
    fn into(self) -> (r: u64) { self as u64 }
}
impl IntoU64 for u32 {
    open spec fn val(self) -> u64 { self as u64 }
    fn into(self) -> (r: u64) { self as u64 }
}
impl IntoU64 for u16 {
    open spec fn val(self) -> u64 { self as u64 }
    fn into(self) -> (r: u64) { self as u64 }
}
impl IntoU64 for u8 {
    open spec fn val(self) -> u64 { self as u64 }
    fn into(self) -> (r: u64) { self as u64 }
}
} // verus!
