use vstd::prelude::*;
verus! {
// Contracts of std functions the code does not use today. This module is added only when a changed function
// calls a std function that neither vstd nor the other modules specify.
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize)
    ensures r == if x >= y { x - y } else { y - x };
pub assume_specification [u64::abs_diff] (x: u64, y: u64) -> (r: u64)
    ensures r == if x >= y { x - y } else { y - x };
pub assume_specification [i64::abs_diff] (x: i64, y: i64) -> (r: u64)
    ensures r == if x >= y { x - y } else { y - x };
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64)
    ensures r == if x >= 0 { x as int } else { -x };
pub assume_specification [i64::signum] (x: i64) -> (r: i64)
    ensures r == if x > 0 { 1int } else if x == 0 { 0 } else { -1 };
pub assume_specification [i64::saturating_add] (x: i64, y: i64) -> (r: i64)
    ensures r == if x + y > i64::MAX { i64::MAX as int } else if x + y < i64::MIN { i64::MIN as int } else { x + y };
pub assume_specification [i64::saturating_sub] (x: i64, y: i64) -> (r: i64)
    ensures r == if x - y > i64::MAX { i64::MAX as int } else if x - y < i64::MIN { i64::MIN as int } else { x - y };
pub assume_specification [usize::next_multiple_of] (x: usize, y: usize) -> (r: usize)
    requires y > 0, ((x + y - 1) / y as int) * y <= usize::MAX,
    ensures r == ((x + y - 1) / y as int) * y;
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T, U> [Option::<T>::and] (a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == if a is Some { b } else { None };
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some && b is None { a } else if a is None && b is Some { b } else { None };
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == if a is Some && b is Some { Some((a->0, b->0)) } else { None };
pub assume_specification<T: Copy> [Option::<&T>::copied] (a: Option<&T>) -> (r: Option<T>)
    ensures r == (match a { Some(v) => Some(*v), None => None });
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>)
    ensures r == if b { Some(v) } else { None };
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(v) => v, Err(_) => d });
pub assume_specification<T> [core::mem::replace] (a: &mut T, v: T) -> (r: T)
    ensures r == *old(a), *final(a) == v;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
}
