//! Double-ended iterator conformance: compares against the list of elements under random interleavings.
use crate::ck;
use crate::util::*;
use std::fmt::Debug;

/// forward-only operations and size hints; `mode` selects the mix of calls
pub fn interleave<T: PartialEq + Debug + Clone, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(
    mut it: I,
    el: &[T],
    seed: u64,
    name: &str,
) -> Result<u64, String> {
    let mut r = Rng::new(seed);
    let mut n = 0u64;
    let (mut lo, mut hi) = (0usize, el.len());
    let mode = r.below(8);
    let big = r.range(1, 4 + el.len() / 4);
    let mut log = String::new();
    let budget = if mode < 2 { el.len() + 3 } else { 40 + el.len().min(4000) };
    let stop = if r.chance(1, 3) { r.below(budget + 1) } else { budget };
    for step in 0..budget {
        if step == stop {
            break;
        }
        ck!(n, it.len(), hi - lo, "{name}: len after ...{log}");
        ck!(n, it.size_hint(), (hi - lo, Some(hi - lo)), "{name}: size_hint after ...{log}");
        let op = match mode {
            0 => 0,
            1 => 1,
            2 => r.below(2),
            3 => [0, 0, 0, 2][r.below(4)],
            4 => [1, 1, 1, 3][r.below(4)],
            _ => r.below(4),
        };
        let k = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => hi - lo,
            3 => (hi - lo).saturating_sub(1),
            4 => r.below(big),
            5 => usize::MAX - r.below(2),
            6 => r.below(3000),
            _ => r.below(10),
        };
        // keep long-jumping calls rare so that iterators live long enough
        let k = if k >= hi - lo && r.chance(9, 10) { k % 5 } else { k };
        if log.len() > 500 {
            log = log[log.len() - 300..].to_string();
        }
        match op {
            0 => {
                log += "next ";
                let want = if lo < hi { Some(el[lo].clone()) } else { None };
                lo = (lo + 1).min(hi);
                ck!(n, it.next(), want, "{name}: after ...{log}");
            }
            1 => {
                log += "next_back ";
                let want = if lo < hi { Some(el[hi - 1].clone()) } else { None };
                if lo < hi {
                    hi -= 1;
                }
                ck!(n, it.next_back(), want, "{name}: after ...{log}");
            }
            2 => {
                log += &format!("nth({k}) ");
                let want = if k < hi - lo { Some(el[lo + k].clone()) } else { None };
                lo = if k < hi - lo { lo + k + 1 } else { hi };
                ck!(n, it.nth(k), want, "{name}: after ...{log}");
            }
            _ => {
                log += &format!("nth_back({k}) ");
                let want = if k < hi - lo { Some(el[hi - 1 - k].clone()) } else { None };
                hi = if k < hi - lo { hi - 1 - k } else { lo };
                ck!(n, it.nth_back(k), want, "{name}: after ...{log}");
            }
        }
    }
    ck!(n, it.len(), hi - lo, "{name}: len after ...{log}");
    match r.below(4) {
        0 => ck!(n, it.count(), hi - lo, "{name}: count after ...{log}"),
        1 => {
            let want = if lo < hi { Some(el[hi - 1].clone()) } else { None };
            ck!(n, it.last(), want, "{name}: last after ...{log}");
        }
        2 => {
            let rest: Vec<T> = it.collect();
            ck!(n, rest == el[lo..hi], true, "{name}: collect of rest after ...{log}");
        }
        _ => {
            let rest: Vec<T> = it.rev().collect();
            let want: Vec<T> = el[lo..hi].iter().rev().cloned().collect();
            ck!(n, rest == want, true, "{name}: reversed collect of rest after ...{log}");
        }
    }
    Ok(n)
}

pub fn exhausted<T: PartialEq + Debug, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, len: usize, name: &str) -> Result<u64, String> {
    let mut n = 0;
    for _ in 0..len {
        it.next();
    }
    for _ in 0..3 {
        ck!(n, it.next(), None, "{name}: next after exhaustion");
        ck!(n, it.next_back(), None, "{name}: next_back after exhaustion");
        ck!(n, it.nth(0), None, "{name}: nth after exhaustion");
        ck!(n, it.nth_back(1), None, "{name}: nth_back after exhaustion");
        ck!(n, it.len(), 0, "{name}: len after exhaustion");
    }
    Ok(n)
}
