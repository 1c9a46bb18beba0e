use crate::ck;
use crate::util::*;
use vers_vecs::{BitVec, WaveletMatrix};

/// A symbol of up to 200 bits, least significant bit first; compared by value.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Sym(Vec<bool>);
impl Sym {
    fn from_u64(x: u64, k: usize) -> Sym {
        Sym((0..k).map(|i| i < 64 && (x >> i) & 1 == 1).collect())
    }
    fn bv(&self, how: usize) -> BitVec {
        mk_bv(&self.0, how)
    }
    fn key(&self) -> Vec<bool> {
        self.0.iter().rev().copied().collect()
    }
    fn num(&self) -> u64 {
        word_at(&self.0, 0, self.0.len().min(64))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}

const SK: &[&str] = &["rand", "few", "skew", "const", "two", "sorted", "rev", "top", "low", "runs"];

fn gen(kind: &str, k: usize, n: usize, seed: u64) -> Vec<Sym> {
    let mut r = Rng::new(seed ^ ((n as u64) << 20) ^ ((k as u64) << 40));
    let rs = |r: &mut Rng| Sym((0..k).map(|_| r.chance(1, 2)).collect());
    let pool: Vec<Sym> = (0..match kind {
        "const" => 1,
        "two" => 2,
        _ => 6,
    })
        .map(|_| rs(&mut r))
        .collect();
    let mut cur = rs(&mut r);
    let mut v: Vec<Sym> = (0..n)
        .map(|_| match kind {
            "few" | "const" | "two" => r.pick(&pool).clone(),
            "skew" => {
                if r.chance(9, 10) {
                    pool[0].clone()
                } else {
                    rs(&mut r)
                }
            }
            "top" => {
                // differ only in the highest bits
                let mut s = pool[0].clone();
                let d = r.below(k.min(3));
                s.0[k - 1 - d] = r.chance(1, 2);
                s
            }
            "low" => {
                let mut s = pool[0].clone();
                let d = r.below(k.min(3));
                s.0[d] = r.chance(1, 2);
                s
            }
            "runs" => {
                if r.chance(1, 12) {
                    cur = rs(&mut r);
                }
                cur.clone()
            }
            _ => rs(&mut r),
        })
        .collect();
    match kind {
        "sorted" => v.sort(),
        "rev" => {
            v.sort();
            v.reverse();
        }
        _ => {}
    }
    v
}

pub fn cases(prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let reps = if thorough { 24 } else { if prop == "C14" { 8 } else { 2 } };
    let ks: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 130];
    let ns: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 31, 33, 63, 64, 65, 100];
    for s in 0..reps {
        for kind in SK {
            for k in ks {
                for n in ns {
                    if *k > 9 && *n > 8 && *n != 33 && *n != 65 && !thorough {
                        continue;
                    }
                    out.push(format!("t={prop};kind={kind};k={k};n={n};seed={}", seed * 13 + s));
                }
            }
            for (k, n) in [(1, 600), (2, 700), (3, 1100), (8, 9000), (12, 5000), (64, 600), (70, 530), (4, 20_000)] {
                out.push(format!("t={prop};kind={kind};k={k};n={n};seed={}", seed * 13 + s));
            }
        }
    }
    out
}

pub fn run(prop: &str, c: &Case) -> Result<u64, String> {
    let (k, n, seed) = (c.n("k"), c.n("n"), c.n("seed") as u64);
    let syms = gen(c.s("kind"), k, n, seed);
    let flat: Vec<bool> = syms.iter().flat_map(|s| s.0.iter().copied()).collect();
    let wm = WaveletMatrix::from_bit_vec(&mk_bv(&flat, (k + n) % HOWS), k as u16);
    match prop {
        "C14" => {
            let mut e = access(&wm, &syms, k, "from_bit_vec")?;
            if k <= 64 {
                let nums: Vec<u64> = syms.iter().map(|s| s.num()).collect();
                e += access(&WaveletMatrix::from_slice(&nums, k as u16), &syms, k, "from_slice")?;
                if k <= 12 {
                    e += access(&WaveletMatrix::from_bit_vec_pc(&mk_bv(&flat, 0), k as u16), &syms, k, "from_bit_vec_pc")?;
                    e += access(&WaveletMatrix::from_slice_pc(&nums, k as u16), &syms, k, "from_slice_pc")?;
                }
            }
            Ok(e)
        }
        "C15" => {
            let mut e = rank_select(&wm, &syms, k, seed)?;
            if k <= 9 {
                let nums: Vec<u64> = syms.iter().map(|s| s.num()).collect();
                e += rank_select(&WaveletMatrix::from_slice_pc(&nums, k as u16), &syms, k, seed + 1)?;
            }
            Ok(e)
        }
        "C16" => order(&wm, &syms, k, seed),
        _ => panic!("CASE-SYNTAX"),
    }
}

fn access(wm: &WaveletMatrix, s: &[Sym], k: usize, name: &str) -> Result<u64, String> {
    let mut n = 0;
    ck!(n, wm.len(), s.len(), "{name} k={k}: len");
    ck!(n, wm.is_empty(), s.is_empty(), "{name} k={k}: is_empty");
    ck!(n, wm.bits_per_element(), k, "{name} k={k}: bits_per_element");
    #[allow(deprecated)]
    ck!(n, wm.bit_len(), k as u16, "{name} k={k}: bit_len");
    for (i, x) in s.iter().enumerate() {
        ck!(n, wm.get_value(i), Some(x.bv(0)), "{name} k={k}: get_value({i}) of {}", s.len());
        ck!(n, wm.get_value_unchecked(i), x.bv(0), "{name} k={k}: get_value_unchecked({i}) of {}", s.len());
        if k <= 64 {
            ck!(n, wm.get_u64(i), Some(x.num()), "{name} k={k}: get_u64({i}) of {}", s.len());
            ck!(n, wm.get_u64_unchecked(i), x.num(), "{name} k={k}: get_u64_unchecked({i}) of {}", s.len());
        } else {
            ck!(n, wm.get_u64(i), None, "{name} k={k}: get_u64({i}) of {}", s.len());
        }
    }
    for i in [s.len(), s.len() + 1, usize::MAX] {
        ck!(n, wm.get_value(i), None, "{name} k={k}: get_value({i}) of {}", s.len());
        ck!(n, wm.get_u64(i), None, "{name} k={k}: get_u64({i}) of {}", s.len());
    }
    Ok(n)
}

/// interesting ranges: (start, end)
fn ranges(l: usize, r: &mut Rng, cnt: usize) -> Vec<(usize, usize)> {
    let mut v = vec![(0, l), (0, 0), (0, l / 2), (l / 2, l), (l.saturating_sub(1), l), (0, 1.min(l))];
    for _ in 0..cnt {
        let a = r.below(l + 1);
        let b = r.range(a, l);
        v.push((a, b));
        let w = r.below(6);
        v.push((a, (a + w).min(l)));
    }
    v
}

fn symbols(s: &[Sym], k: usize, r: &mut Rng) -> Vec<Sym> {
    let mut v = vec![Sym(vec![false; k]), Sym(vec![true; k]), Sym((0..k).map(|_| r.chance(1, 2)).collect())];
    for _ in 0..5 {
        if !s.is_empty() {
            let x = r.pick(s).clone();
            let mut y = x.clone();
            let d = r.below(k);
            y.0[d] = !y.0[d];
            let mut z = x.clone();
            z.0[0] = !z.0[0];
            v.push(x);
            v.push(y);
            v.push(z);
        }
    }
    v
}

fn rank_select(wm: &WaveletMatrix, s: &[Sym], k: usize, seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let l = s.len();
    let mut r = Rng::new(seed * 7 + l as u64 + k as u64);
    let sy = symbols(s, k, &mut r);
    for (si, x) in sy.iter().enumerate() {
        let b = x.bv(si % HOWS);
        let u = x.num();
        let occ: Vec<usize> = (0..l).filter(|&i| s[i] == *x).collect();
        let cnt = |a: usize, e: usize| occ.partition_point(|p| *p < e) - occ.partition_point(|p| *p < a);
        for (a, e) in ranges(l, &mut r, if l <= 100 { 30 } else { 60 }) {
            let want = if a < l { Some(cnt(a, e)) } else { None };
            ck!(n, wm.rank_range(a..e, &b), want, "rank_range({a}..{e}, {u:#x}) k={k} l={l}");
            ck!(n, wm.rank_offset(a, e, &b), want, "rank_offset({a},{e}, {u:#x}) k={k} l={l}");
            if let Some(w) = want {
                ck!(n, wm.rank_range_unchecked(a..e, &b), w, "rank_range_unchecked({a}..{e}, {u:#x}) k={k} l={l}");
                ck!(n, wm.rank_offset_unchecked(a, e, &b), w, "rank_offset_unchecked({a},{e}, {u:#x}) k={k} l={l}");
            }
            ck!(n, wm.rank(e, &b), Some(cnt(0, e)), "rank({e}, {u:#x}) k={k} l={l}");
            ck!(n, wm.rank_unchecked(e, &b), cnt(0, e), "rank_unchecked({e}, {u:#x}) k={k} l={l}");
            if k <= 64 {
                ck!(n, wm.rank_range_u64(a..e, u), want, "rank_range_u64({a}..{e}, {u:#x}) k={k} l={l}");
                ck!(n, wm.rank_offset_u64(a, e, u), want, "rank_offset_u64({a},{e}, {u:#x}) k={k} l={l}");
                ck!(n, wm.rank_u64(e, u), Some(cnt(0, e)), "rank_u64({e}, {u:#x}) k={k} l={l}");
                ck!(n, wm.rank_u64_unchecked(e, u), cnt(0, e), "rank_u64_unchecked({e}, {u:#x}) k={k} l={l}");
                if let Some(w) = want {
                    ck!(n, wm.rank_range_u64_unchecked(a..e, u), w, "rank_range_u64_unchecked({a}..{e}, {u:#x}) k={k} l={l}");
                    ck!(n, wm.rank_offset_u64_unchecked(a, e, u), w, "rank_offset_u64_unchecked({a},{e}, {u:#x}) k={k} l={l}");
                }
            } else {
                ck!(n, wm.rank_range_u64(a..e, u), None, "rank_range_u64 k={k} l={l}");
                ck!(n, wm.rank_offset_u64(a, e, u), None, "rank_offset_u64 k={k} l={l}");
                ck!(n, wm.rank_u64(e, u), None, "rank_u64 k={k} l={l}");
            }
            // invalid ranges
            if a < e {
                let (x0, x1) = (e, a);
                #[allow(clippy::reversed_empty_ranges)]
                {
                    ck!(n, wm.rank_range(x0..x1, &b), None, "rank_range inverted {x0}..{x1}");
                }
                ck!(n, wm.rank_offset(x0, x1, &b), None, "rank_offset inverted {x0}..{x1}");
                #[allow(clippy::reversed_empty_ranges)]
                {
                    ck!(n, wm.rank_range_u64(x0..x1, u), None, "rank_range_u64 inverted {x0}..{x1}");
                }
                ck!(n, wm.rank_offset_u64(x0, x1, u), None, "rank_offset_u64 inverted {x0}..{x1}");
            }
            // selects
            let base = occ.partition_point(|p| *p < a);
            for q in [0, 1, 2, r.below(l + 2), occ.len().saturating_sub(base), occ.len().saturating_sub(base + 1), usize::MAX] {
                let want = if a < l && q < occ.len() - base { Some(occ[base + q]) } else { None };
                ck!(n, wm.select_offset(a, q, &b), want, "select_offset({a},{q},{u:#x}) k={k} l={l}");
                if k <= 64 {
                    ck!(n, wm.select_offset_u64(a, q, u), want, "select_offset_u64({a},{q},{u:#x}) k={k} l={l}");
                } else {
                    ck!(n, wm.select_offset_u64(a, q, u), None, "select_offset_u64 k={k} l={l}");
                }
                if let Some(w) = want {
                    ck!(n, wm.select_offset_unchecked(a, q, &b), w, "select_offset_unchecked({a},{q},{u:#x}) k={k} l={l}");
                    if k <= 64 {
                        ck!(n, wm.select_offset_u64_unchecked(a, q, u), w, "select_offset_u64_unchecked({a},{q},{u:#x}) k={k} l={l}");
                    }
                }
            }
        }
        for q in 0..occ.len().min(200) + 2 {
            let q = if q < 200 { q } else { occ.len() + q - 200 };
            let want = occ.get(q).copied();
            ck!(n, wm.select(q, &b), want, "select({q},{u:#x}) k={k} l={l}");
            if k <= 64 {
                ck!(n, wm.select_u64(q, u), want, "select_u64({q},{u:#x}) k={k} l={l}");
            } else {
                ck!(n, wm.select_u64(q, u), None, "select_u64 k={k}");
            }
            if let Some(w) = want {
                ck!(n, wm.select_unchecked(q, &b), w, "select_unchecked({q},{u:#x}) k={k} l={l}");
                if k <= 64 {
                    ck!(n, wm.select_u64_unchecked(q, u), w, "select_u64_unchecked({q},{u:#x}) k={k} l={l}");
                }
            }
        }
        for (a, e) in [(0, l + 1), (l, l), (l, l + 1), (l + 1, l + 1), (0, usize::MAX)] {
            ck!(n, wm.rank_range(a..e, &b), None, "rank_range({a}..{e}) l={l}");
            ck!(n, wm.rank_range_u64(a..e, u), None, "rank_range_u64({a}..{e}) l={l}");
            ck!(n, wm.rank_offset(a, e, &b), None, "rank_offset({a},{e}) l={l}");
            ck!(n, wm.rank_offset_u64(a, e, u), None, "rank_offset_u64({a},{e}) l={l}");
        }
        ck!(n, wm.rank(l + 1, &b), None, "rank(len+1)");
        ck!(n, wm.rank_u64(l + 1, u), None, "rank_u64(len+1)");
        ck!(n, wm.select_offset(l, 0, &b), None, "select_offset(len,0)");
        ck!(n, wm.select_offset_u64(l, 0, u), None, "select_offset_u64(len,0)");
        // wrong symbol width
        for w in [k - 1, k + 1, k + 64] {
            let bad = BitVec::from_zeros(w);
            ck!(n, wm.rank_range(0..l, &bad), None, "rank_range with {w} bit symbol, k={k}");
            ck!(n, wm.rank(l, &bad), None, "rank with {w} bit symbol, k={k}");
            ck!(n, wm.rank_offset(0, l, &bad), None, "rank_offset with {w} bit symbol, k={k}");
            ck!(n, wm.select(0, &bad), None, "select with {w} bit symbol, k={k}");
            ck!(n, wm.select_offset(0, 0, &bad), None, "select_offset with {w} bit symbol, k={k}");
        }
    }
    Ok(n)
}

fn order(wm: &WaveletMatrix, s: &[Sym], k: usize, seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let l = s.len();
    let mut r = Rng::new(seed * 11 + l as u64 + k as u64);
    let mut all = s.to_vec();
    all.sort();
    let opt = |x: Option<&Sym>| x.map(|y| y.bv(0));
    let num = |x: Option<&Sym>| if k <= 64 { x.map(|y| y.num()) } else { None };
    for q in (0..l.min(300)).chain([l / 2, l.saturating_sub(1), l, l + 1, usize::MAX]) {
        ck!(n, wm.get_sorted(q), opt(all.get(q)), "get_sorted({q}) k={k} l={l}");
        ck!(n, wm.get_sorted_u64(q), num(all.get(q)), "get_sorted_u64({q}) k={k} l={l}");
        if q < l {
            ck!(n, wm.get_sorted_unchecked(q), all[q].bv(0), "get_sorted_unchecked({q}) k={k} l={l}");
            if k <= 64 {
                ck!(n, wm.get_sorted_u64_unchecked(q), all[q].num(), "get_sorted_u64_unchecked({q}) k={k} l={l}");
            }
        }
    }
    let sy = symbols(s, k, &mut r);
    for (a, e) in ranges(l, &mut r, if l <= 100 { 40 } else { 25 }) {
        let mut v = s[a..e].to_vec();
        v.sort();
        let m = e - a;
        let mut qs = vec![0, m / 2, m.saturating_sub(1), m, m + 1, usize::MAX];
        for _ in 0..4 {
            qs.push(r.below(m + 1));
        }
        for q in qs {
            let w = v.get(q);
            ck!(n, wm.quantile(a..e, q), opt(w), "quantile({a}..{e},{q}) k={k} l={l}");
            ck!(n, wm.quantile_u64(a..e, q), num(w), "quantile_u64({a}..{e},{q}) k={k} l={l}");
            if let Some(w) = w {
                ck!(n, wm.quantile_unchecked(a..e, q), w.bv(0), "quantile_unchecked({a}..{e},{q}) k={k} l={l}");
                if k <= 64 {
                    ck!(n, wm.quantile_u64_unchecked(a..e, q), w.num(), "quantile_u64_unchecked({a}..{e},{q}) k={k} l={l}");
                }
            }
        }
        let med = if m == 0 { None } else { v.get((m - 1) / 2) };
        ck!(n, wm.range_min(a..e), opt(v.first()), "range_min({a}..{e}) k={k} l={l}");
        ck!(n, wm.range_max(a..e), opt(v.last()), "range_max({a}..{e}) k={k} l={l}");
        ck!(n, wm.range_median(a..e), opt(med), "range_median({a}..{e}) k={k} l={l}");
        ck!(n, wm.range_min_u64(a..e), num(v.first()), "range_min_u64({a}..{e}) k={k} l={l}");
        ck!(n, wm.range_max_u64(a..e), num(v.last()), "range_max_u64({a}..{e}) k={k} l={l}");
        ck!(n, wm.range_median_u64(a..e), num(med), "range_median_u64({a}..{e}) k={k} l={l}");
        if m > 0 {
            ck!(n, wm.range_min_unchecked(a..e), v[0].bv(0), "range_min_unchecked({a}..{e}) k={k} l={l}");
            ck!(n, wm.range_max_unchecked(a..e), v[m - 1].bv(0), "range_max_unchecked({a}..{e}) k={k} l={l}");
            ck!(n, wm.range_median_unchecked(a..e), v[(m - 1) / 2].bv(0), "range_median_unchecked({a}..{e}) k={k} l={l}");
            if k <= 64 {
                ck!(n, wm.range_min_u64_unchecked(a..e), v[0].num(), "range_min_u64_unchecked({a}..{e}) k={k} l={l}");
                ck!(n, wm.range_max_u64_unchecked(a..e), v[m - 1].num(), "range_max_u64_unchecked({a}..{e}) k={k} l={l}");
                ck!(n, wm.range_median_u64_unchecked(a..e), v[(m - 1) / 2].num(), "range_median_u64_unchecked({a}..{e}) k={k} l={l}");
            }
        }
        for (i, x) in sy.iter().enumerate() {
            let lt = v.partition_point(|y| y < x);
            let le = v.partition_point(|y| y <= x);
            let pred = if le > 0 { v.get(le - 1) } else { None };
            let succ = v.get(lt);
            let b = x.bv(i % HOWS);
            let u = x.num();
            ck!(n, wm.predecessor(a..e, &b), opt(pred), "predecessor({a}..{e},{u:#x}) k={k} l={l}");
            ck!(n, wm.successor(a..e, &b), opt(succ), "successor({a}..{e},{u:#x}) k={k} l={l}");
            ck!(n, wm.predecessor_u64(a..e, u), num(pred), "predecessor_u64({a}..{e},{u:#x}) k={k} l={l}");
            ck!(n, wm.successor_u64(a..e, u), num(succ), "successor_u64({a}..{e},{u:#x}) k={k} l={l}");
        }
        if a < e {
            let z = Sym::from_u64(0, k).bv(0);
            let (x0, x1) = (e, a);
            #[allow(clippy::reversed_empty_ranges)]
            {
                ck!(n, wm.quantile(x0..x1, 0), None, "quantile inverted");
                ck!(n, wm.quantile_u64(x0..x1, 0), None, "quantile_u64 inverted");
                ck!(n, wm.range_min(x0..x1), None, "range_min inverted");
                ck!(n, wm.range_max(x0..x1), None, "range_max inverted");
                ck!(n, wm.range_median(x0..x1), None, "range_median inverted");
                ck!(n, wm.range_min_u64(x0..x1), None, "range_min_u64 inverted");
                ck!(n, wm.range_max_u64(x0..x1), None, "range_max_u64 inverted");
                ck!(n, wm.range_median_u64(x0..x1), None, "range_median_u64 inverted");
                ck!(n, wm.predecessor(x0..x1, &z), None, "predecessor inverted");
                ck!(n, wm.successor(x0..x1, &z), None, "successor inverted");
            }
        }
    }
    let z = Sym::from_u64(0, k).bv(0);
    let o = Sym(vec![true; k]).bv(1);
    for (a, e) in [(0, l + 1), (l, l), (l, l + 1), (l + 1, l + 2), (0, usize::MAX)] {
        ck!(n, wm.quantile(a..e, 0), None, "quantile({a}..{e}) l={l}");
        ck!(n, wm.quantile_u64(a..e, 0), None, "quantile_u64({a}..{e}) l={l}");
        ck!(n, wm.range_min(a..e), None, "range_min({a}..{e}) l={l}");
        ck!(n, wm.range_max(a..e), None, "range_max({a}..{e}) l={l}");
        ck!(n, wm.range_median(a..e), None, "range_median({a}..{e}) l={l}");
        ck!(n, wm.range_min_u64(a..e), None, "range_min_u64({a}..{e}) l={l}");
        ck!(n, wm.range_max_u64(a..e), None, "range_max_u64({a}..{e}) l={l}");
        ck!(n, wm.range_median_u64(a..e), None, "range_median_u64({a}..{e}) l={l}");
        ck!(n, wm.predecessor(a..e, &o), None, "predecessor({a}..{e}) l={l}");
        ck!(n, wm.successor(a..e, &z), None, "successor({a}..{e}) l={l}");
        ck!(n, wm.predecessor_u64(a..e, u64::MAX), None, "predecessor_u64({a}..{e}) l={l}");
        ck!(n, wm.successor_u64(a..e, 0), None, "successor_u64({a}..{e}) l={l}");
    }
    for w in [k - 1, k + 1] {
        let bad = BitVec::from_zeros(w);
        ck!(n, wm.predecessor(0..l, &bad), None, "predecessor with {w} bit symbol, k={k}");
        ck!(n, wm.successor(0..l, &bad), None, "successor with {w} bit symbol, k={k}");
    }
    Ok(n)
}
