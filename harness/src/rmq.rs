use crate::ck;
use crate::util::*;
use std::ops::Bound;
use vers_vecs::{BinaryRmq, FastRmq};

const AK: &[&str] = &["rand", "small", "bin", "inc", "dec", "const", "saw", "vee", "hill", "max", "rare", "blockmin"];

fn gen(kind: &str, n: usize, seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed ^ ((n as u64) << 16));
    (0..n)
        .map(|i| match kind {
            "rand" => r.next(),
            "small" => r.next() % 5,
            "bin" => r.next() % 2,
            "inc" => i as u64,
            "dec" => (n - i) as u64,
            "const" => 7,
            "saw" => (i % 37) as u64,
            "vee" => (i as i64 - (n / 2) as i64).unsigned_abs(),
            "hill" => u64::MAX - (i as i64 - (n / 2) as i64).unsigned_abs(),
            "max" => *r.pick(&[u64::MAX, u64::MAX, u64::MAX - 1, 0]),
            "rare" => {
                if r.chance(1, 200) {
                    r.next() % 10
                } else {
                    1000 + r.next() % 10
                }
            }
            _ => {
                if i % 128 == 0 || i % 128 == 127 {
                    r.next() % 8
                } else {
                    4 + r.next() % 8
                }
            }
        })
        .collect()
}

pub fn cases(_prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let reps = if thorough { 120 } else { 8 };
    for s in 0..reps {
        for k in AK {
            for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 130, 191, 255, 256, 257, 258, 300, 383, 384, 385, 511, 512, 513]) {
                if n > 40 && s == 0 || n <= 40 || s > 0 {
                    out.push(format!("t=all;kind={k};n={n};seed={}", seed * 91 + s));
                }
            }
            for n in [1000usize, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 16_384 + 128, 40_000] {
                out.push(format!("t=some;kind={k};n={n};seed={}", seed * 91 + s));
            }
        }
    }
    for k in ["dec", "vee", "rand"] {
        for n in [70_000usize, 140_000] {
            out.push(format!("t=some;kind={k};n={n};seed={seed}"));
        }
    }
    if thorough {
        for k in ["dec", "vee", "rand"] {
            for n in [1usize << 17, (1 << 20) + 7] {
                out.push(format!("t=some;kind={k};n={n};seed={seed}"));
            }
        }
    }
    out
}

trait Rmq {
    fn q(&self, i: usize, j: usize) -> usize;
    fn r(&self, a: Bound<usize>, b: Bound<usize>) -> usize;
}
impl Rmq for BinaryRmq {
    fn q(&self, i: usize, j: usize) -> usize {
        self.range_min(i, j)
    }
    fn r(&self, a: Bound<usize>, b: Bound<usize>) -> usize {
        self.range_min_with_range((a, b))
    }
}
impl Rmq for FastRmq {
    fn q(&self, i: usize, j: usize) -> usize {
        self.range_min(i, j)
    }
    fn r(&self, a: Bound<usize>, b: Bound<usize>) -> usize {
        self.range_min_with_range((a, b))
    }
}

pub fn run(prop: &str, c: &Case) -> Result<u64, String> {
    let v = gen(c.s("kind"), c.n("n"), c.n("seed") as u64);
    let mut n = 0;
    if prop == "C12" {
        let s = BinaryRmq::from_vec(v.clone());
        ck!(n, s[..] == v[..], true, "stored data");
        ck!(n, s.len(), v.len(), "len");
        let t: BinaryRmq = v.iter().copied().collect();
        ck!(n, t.range_min(0, v.len() - 1), s.range_min(0, v.len() - 1), "FromIterator");
        let t = BinaryRmq::from(v.clone());
        ck!(n, t[..] == v[..], true, "stored data (From)");
        n += go(&s, &v, c)?;
        let (a, b) = (v.len() / 3, v.len() - v.len() / 3);
        if a < b {
            ck!(n, min_ok(&v, a, b - 1, s.range_min_with_range(a..b)), true, "a..b");
            ck!(n, min_ok(&v, a, b - 1, s.range_min_with_range(a..=b - 1)), true, "a..=b");
        }
        ck!(n, min_ok(&v, 0, v.len() - 1, s.range_min_with_range(..)), true, "..");
        ck!(n, min_ok(&v, a, v.len() - 1, s.range_min_with_range(a..)), true, "a..");
        ck!(n, min_ok(&v, 0, a, s.range_min_with_range(..=a)), true, "..=a");
    } else {
        let s = FastRmq::from_vec(v.clone());
        ck!(n, s[..] == v[..], true, "stored data");
        ck!(n, s.len(), v.len(), "len");
        ck!(n, s.is_empty(), v.is_empty(), "is_empty");
        let t: FastRmq = v.iter().copied().collect();
        ck!(n, t.range_min(0, v.len() - 1), s.range_min(0, v.len() - 1), "FromIterator");
        let t = FastRmq::from(v.clone());
        ck!(n, t[..] == v[..], true, "stored data (From)");
        n += go(&s, &v, c)?;
        let (a, b) = (v.len() / 3, v.len() - v.len() / 3);
        if a < b {
            ck!(n, min_ok(&v, a, b - 1, s.range_min_with_range(a..b)), true, "a..b");
            ck!(n, min_ok(&v, a, b - 1, s.range_min_with_range(a..=b - 1)), true, "a..=b");
        }
        ck!(n, min_ok(&v, 0, v.len() - 1, s.range_min_with_range(..)), true, "..");
        ck!(n, min_ok(&v, a, v.len() - 1, s.range_min_with_range(a..)), true, "a..");
        ck!(n, min_ok(&v, 0, a, s.range_min_with_range(..=a)), true, "..=a");
    }
    Ok(n)
}

fn min_ok(v: &[u64], i: usize, j: usize, got: usize) -> bool {
    got >= i && got <= j && v[i..=j].iter().all(|x| *x >= v[got])
}

fn go<S: Rmq>(s: &S, v: &[u64], c: &Case) -> Result<u64, String> {
    let mut n = 0;
    let l = v.len();
    let one = |i: usize, j: usize, m: u64, got: usize, what: &str| -> Result<(), String> {
        if got < i || got > j || v[got] != m {
            return Err(format!("{what}({i},{j}) of {l} elements: got index {got} (value {:?}), minimum is {m}", v.get(got)));
        }
        Ok(())
    };
    if c.s("t") == "all" {
        for i in 0..l {
            let mut m = u64::MAX;
            for j in i..l {
                m = m.min(v[j]);
                n += 1;
                one(i, j, m, s.q(i, j), "range_min")?;
            }
        }
    } else {
        let mut starts: Vec<usize> = vec![0, 1, 2, l / 2, l - 1];
        let mut r = Rng::new(l as u64);
        let k = 60;
        for _ in 0..k {
            starts.push(r.below(l));
            starts.push((r.below(l) / 128) * 128);
            starts.push(((r.below(l) / 128) * 128 + 127).min(l - 1));
        }
        for i in starts {
            let mut m = u64::MAX;
            for j in i..l {
                m = m.min(v[j]);
                if j - i < 600 || j % 128 < 2 || j % 128 > 126 || j % 61 == 0 || j + 130 > l || (j - i).is_power_of_two() || (j - i + 1).is_power_of_two() {
                    n += 1;
                    one(i, j, m, s.q(i, j), "range_min")?;
                }
            }
        }
    }
    // range forms
    let mut r = Rng::new(l as u64 + 5);
    for _ in 0..40 {
        let i = r.below(l);
        let j = r.range(i, l - 1);
        let m = *v[i..=j].iter().min().unwrap();
        one(i, j, m, s.r(Bound::Included(i), Bound::Included(j)), "range ..=")?;
        one(i, j, m, s.r(Bound::Included(i), Bound::Excluded(j + 1)), "range ..")?;
        if i > 0 {
            one(i, j, m, s.r(Bound::Excluded(i - 1), Bound::Included(j)), "range (ex, in)")?;
            one(i, j, m, s.r(Bound::Excluded(i - 1), Bound::Excluded(j + 1)), "range (ex, ex)")?;
        }
        n += 4;
        let m0 = *v[..=j].iter().min().unwrap();
        one(0, j, m0, s.r(Bound::Unbounded, Bound::Included(j)), "range ..=j")?;
        one(0, j, m0, s.r(Bound::Unbounded, Bound::Excluded(j + 1)), "range ..j")?;
        let m1 = *v[i..].iter().min().unwrap();
        one(i, l - 1, m1, s.r(Bound::Included(i), Bound::Unbounded), "range i..")?;
        let ma = *v.iter().min().unwrap();
        one(0, l - 1, ma, s.r(Bound::Unbounded, Bound::Unbounded), "range ..")?;
        // ranges reaching beyond the data are clamped, empty ranges do not panic
        one(i, l - 1, m1, s.r(Bound::Included(i), Bound::Excluded(l + 1 + r.below(200))), "range i..beyond")?;
        one(i, l - 1, m1, s.r(Bound::Included(i), Bound::Included(usize::MAX)), "range i..=MAX")?;
        one(i, l - 1, m1, s.r(Bound::Included(i), Bound::Excluded(usize::MAX)), "range i..MAX")?;
        one(l - 1, l - 1, v[l - 1], s.r(Bound::Included(l + r.below(200)), Bound::Unbounded), "range beyond..")?;
        let e = s.r(Bound::Included(i), Bound::Excluded(i));
        if e >= l {
            return Err(format!("empty range {i}..{i} of {l} elements: index {e} out of bounds"));
        }
        n += 9;
    }
    Ok(n)
}
