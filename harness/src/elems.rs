//! C20: element iterators
use crate::ck;
use crate::ef::{gen_seq, EKINDS};
use crate::iters::*;
use crate::util::*;
use vers_vecs::{BitVec, EliasFanoVec, RsVec, WaveletMatrix};

pub fn cases(_prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let reps = if thorough { 300 } else { 25 };
    for s in 0..reps {
        let sd = seed * 23 + s;
        for len in [0usize, 1, 2, 3, 10, 63, 64, 65, 128, 200, 600] {
            for k in ["r2", "zeros", "ones"] {
                out.push(format!("t=bv;kind={k};len={len};seed={sd}"));
            }
        }
        for k in EKINDS {
            for n in [0usize, 1, 2, 3, 4, 5, 8, 16, 17, 40, 64, 65, 128, 200, 600, 2000] {
                out.push(format!("t=ef;kind={k};n={n};seed={sd}"));
            }
        }
        for k in [1usize, 2, 5, 8, 63, 64, 65, 100] {
            for n in [0usize, 1, 2, 3, 9, 33, 64, 100] {
                out.push(format!("t=wm;k={k};n={n};seed={sd}"));
            }
        }
    }
    out
}

pub fn run(_prop: &str, c: &Case) -> Result<u64, String> {
    let seed = c.n("seed") as u64;
    match c.s("t") {
        "bv" => {
            let bits = gen_bits(c.s("kind"), c.n("len"), seed);
            let el: Vec<u64> = bits.iter().map(|b| *b as u64).collect();
            let bv = mk_bv(&bits, (seed as usize + el.len()) % HOWS);
            let rs = RsVec::from_bit_vec(bv.clone());
            let mut n = 0;
            n += exhausted(bv.iter(), el.len(), "BitVec::iter")?;
            n += exhausted(rs.iter(), el.len(), "RsVec::iter")?;
            ck!(n, (&bv).into_iter().eq(el.iter().copied()), true, "(&BitVec).into_iter");
            ck!(n, (&rs).into_iter().eq(el.iter().copied()), true, "(&RsVec).into_iter");
            for k in 0..12 {
                let s = seed * 1000 + k;
                n += interleave(bv.iter(), &el, s, "BitVec::iter")?;
                n += interleave(bv.clone().into_iter(), &el, s + 100, "BitVec::into_iter")?;
                n += interleave(rs.iter(), &el, s + 200, "RsVec::iter")?;
                n += interleave(rs.clone().into_iter(), &el, s + 300, "RsVec::into_iter")?;
            }
            Ok(n)
        }
        "ef" => {
            let el = gen_seq(c.s("kind"), c.n("n"), seed);
            let ef = EliasFanoVec::from_slice(&el);
            let mut n = 0;
            n += exhausted(ef.iter(), el.len(), "EliasFanoVec::iter")?;
            n += exhausted(ef.clone().into_iter(), el.len(), "EliasFanoVec::into_iter")?;
            ck!(n, ef.iter().eq(el.iter().copied()), true, "EliasFanoVec::iter enumeration");
            ck!(n, ef.iter().rev().eq(el.iter().rev().copied()), true, "EliasFanoVec::iter reverse enumeration");
            ck!(n, (&ef).into_iter().eq(el.iter().copied()), true, "(&EliasFanoVec).into_iter");
            let mut r = Rng::new(seed);
            for k in 0..10 {
                let s = seed * 1000 + k;
                n += interleave(ef.iter(), &el, s, "EliasFanoVec::iter")?;
                n += interleave(ef.clone().into_iter(), &el, s + 100, "EliasFanoVec::into_iter")?;
                // min, max, last of the remaining elements
                let a = r.below(el.len() + 1);
                let b = r.below(el.len() - a + 1);
                let hi = el.len() - b;
                macro_rules! part {
                    ($mk:expr, $name:expr) => {{
                        let mk = || {
                            let mut it = $mk;
                            // consume a elements from the front and b from the back, by single steps or skips
                            if (k + a as u64) % 2 == 0 {
                                (0..a).for_each(|_| {
                                    it.next();
                                });
                            } else if a > 0 {
                                it.nth(a - 1);
                            }
                            if (k + b as u64) % 2 == 0 {
                                (0..b).for_each(|_| {
                                    it.next_back();
                                });
                            } else if b > 0 {
                                it.nth_back(b - 1);
                            }
                            it
                        };
                        let rest = &el[a..hi];
                        ck!(n, mk().min(), rest.iter().min().copied(), "{}: min of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().max(), rest.iter().max().copied(), "{}: max of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().last(), rest.last().copied(), "{}: last of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().count(), rest.len(), "{}: count of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().len(), rest.len(), "{}: len of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().eq(rest.iter().copied()), true, "{}: rest of elements {a}..{hi} of {}", $name, el.len());
                        ck!(n, mk().rev().eq(rest.iter().rev().copied()), true, "{}: reversed rest of elements {a}..{hi} of {}", $name, el.len());
                    }};
                }
                part!(ef.iter(), "EliasFanoVec::iter");
                part!(ef.clone().into_iter(), "EliasFanoVec::into_iter");
            }
            Ok(n)
        }
        "wm" => {
            let (k, len) = (c.n("k"), c.n("n"));
            let mut r = Rng::new(seed + 64 * k as u64);
            let few = r.chance(1, 2);
            let pool: Vec<Vec<bool>> = (0..4).map(|_| (0..k).map(|_| r.chance(1, 2)).collect()).collect();
            let sy: Vec<Vec<bool>> = (0..len).map(|_| if few { r.pick(&pool).clone() } else { (0..k).map(|_| r.chance(1, 2)).collect() }).collect();
            let flat: Vec<bool> = sy.iter().flatten().copied().collect();
            let wm = WaveletMatrix::from_bit_vec(&mk_bv(&flat, 0), k as u16);
            let mut so = sy.clone();
            so.sort_by_key(|s| s.iter().rev().copied().collect::<Vec<bool>>());
            let el: Vec<BitVec> = sy.iter().map(|s| mk_bv(s, 0)).collect();
            let els: Vec<BitVec> = so.iter().map(|s| mk_bv(s, 0)).collect();
            let mut n = 0;
            let num = |v: &Vec<Vec<bool>>| -> Vec<u64> { v.iter().map(|s| word_at(s, 0, k.min(64))).collect() };
            let (un, us) = (num(&sy), num(&so));
            ck!(n, wm.iter_u64().is_some(), k <= 64, "iter_u64 availability, k={k}");
            ck!(n, wm.iter_sorted_u64().is_some(), k <= 64, "iter_sorted_u64 availability, k={k}");
            ck!(n, wm.clone().into_iter_u64().is_some(), k <= 64, "into_iter_u64 availability, k={k}");
            ck!(n, wm.clone().into_iter_sorted_u64().is_some(), k <= 64, "into_iter_sorted_u64 availability, k={k}");
            for q in 0..4 {
                let s = seed * 1000 + q;
                n += interleave(wm.iter(), &el, s, "WaveletMatrix::iter")?;
                n += interleave(wm.clone().into_iter(), &el, s + 50, "WaveletMatrix::into_iter")?;
                n += interleave(wm.iter_sorted(), &els, s + 100, "WaveletMatrix::iter_sorted")?;
                n += interleave(wm.clone().into_iter_sorted(), &els, s + 150, "WaveletMatrix::into_iter_sorted")?;
                if k <= 64 {
                    n += interleave(wm.iter_u64().unwrap(), &un, s + 200, "WaveletMatrix::iter_u64")?;
                    n += interleave(wm.clone().into_iter_u64().unwrap(), &un, s + 250, "WaveletMatrix::into_iter_u64")?;
                    n += interleave(wm.iter_sorted_u64().unwrap(), &us, s + 300, "WaveletMatrix::iter_sorted_u64")?;
                    n += interleave(wm.clone().into_iter_sorted_u64().unwrap(), &us, s + 350, "WaveletMatrix::into_iter_sorted_u64")?;
                }
            }
            Ok(n)
        }
        _ => panic!("CASE-SYNTAX"),
    }
}
