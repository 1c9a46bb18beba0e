use crate::ck;
use crate::util::*;
use vers_vecs::{EliasFanoVec, SparseRSVec};

pub const EKINDS: &[&str] = &[
    "const", "dense", "stride", "u1", "u2", "u64x", "u32", "umax", "clust", "clustbig", "dups", "extreme", "exp", "offs", "ends", "onebig", "lowrun", "steps", "denseoff",
];

pub fn gen_seq(kind: &str, n: usize, seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed ^ 0xEF ^ ((n as u64) << 24));
    let bounded = |r: &mut Rng, u: u64| -> Vec<u64> {
        let mut v: Vec<u64> = (0..n).map(|_| if u == u64::MAX { r.next() } else { r.next() % (u + 1) }).collect();
        v.sort_unstable();
        v
    };
    let mut v: Vec<u64> = match kind {
        "const" => vec![r.next() >> r.below(64); n],
        "dense" => (0..n as u64).collect(),
        "denseoff" => {
            let o = r.next() >> 1;
            (0..n as u64).map(|i| o + i).collect()
        }
        "stride" => {
            let s = r.range(2, 5000) as u64;
            let o = r.next() >> 20;
            (0..n as u64).map(|i| o + i * s).collect()
        }
        "u1" => bounded(&mut r, n as u64),
        "u2" => bounded(&mut r, 2 * n as u64 + 3),
        "u64x" => bounded(&mut r, 64 * n as u64 + 1),
        "u32" => bounded(&mut r, 1 << 32),
        "umax" => bounded(&mut r, u64::MAX),
        "clust" | "clustbig" => {
            // clusters of values sharing upper bits, separated by big gaps
            let k = if kind == "clust" { 5 } else { 2 };
            let spread = r.range(1, 400) as u64;
            let c: Vec<u64> = (0..k).map(|_| r.next() >> (8 + r.below(20))).collect();
            (0..n).map(|_| *r.pick(&c) + r.next() % spread).collect()
        }
        "dups" => {
            let c: Vec<u64> = (0..(n / 40 + 1)).map(|_| r.next() % (n as u64 * 10 + 1)).collect();
            (0..n).map(|_| *r.pick(&c)).collect()
        }
        "extreme" => (0..n).map(|_| *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1])).collect(),
        "exp" => (0..n).map(|i| 1u64 << (i * 64 / n.max(1))).collect(),
        "offs" => (0..n).map(|_| u64::MAX - (r.next() % (5 * n as u64 + 1))).collect(),
        "ends" => (0..n).map(|i| if i * 2 < n { i as u64 } else { u64::MAX - (n - i) as u64 }).collect(),
        "onebig" => (0..n).map(|i| if i + 1 == n { r.next() } else { r.next() % 100 }).collect(),
        "lowrun" => {
            // one long run in a single bucket, then sparse values
            (0..n).map(|i| if i % 10 < 8 { 1_000_000 + r.next() % 5000 } else { r.next() >> 20 }).collect()
        }
        "steps" => {
            let mut c = r.next() >> 30;
            (0..n)
                .map(|_| {
                    if r.chance(1, 20) {
                        c += r.next() >> (24 + r.below(30));
                    } else {
                        c += r.below(3) as u64;
                    }
                    c
                })
                .collect()
        }
        _ => panic!("CASE-SYNTAX: kind {kind}"),
    };
    v.sort_unstable();
    v
}

pub fn cases(prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = Vec::new();
    let reps = if thorough { 300 } else { 25 };
    match prop {
        "C09" | "C10" => {
            for s in 0..reps {
                for k in EKINDS {
                    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 511, 513, 1000, 3000] {
                        out.push(format!("t={prop};kind={k};n={n};seed={}", seed * 31 + s));
                    }
                }
            }
            for n in 1..40 {
                for s in 0..if thorough { 5000 } else { 400 } {
                    out.push(format!("t={prop};kind=small;n={n};seed={}", seed * 1000 + s));
                }
            }
            for k in EKINDS {
                out.push(format!("t={prop};kind={k};n=20000;seed={seed}"));
            }
            for k in ["dense", "clust", "u2", "lowrun"] {
                out.push(format!("t={prop};kind={k};n=200000;seed={seed}"));
            }
            out.push(format!("t={prop};kind=dense;n=0;seed={seed}"));
        }
        "C11" => {
            for s in 0..reps {
                for k in KINDS {
                    for n in [0usize, 1, 2, 63, 64, 65, 127, 128, 200, 511, 512, 513, 1000, 4000] {
                        out.push(format!("t=bv;kind={k};n={n};how={};seed={}", (s as usize + n) % HOWS, seed * 17 + s));
                    }
                }
                for k in EKINDS {
                    for n in [0usize, 1, 2, 5, 17, 64, 100, 500] {
                        out.push(format!("t=pos;kind={k};n={n};seed={}", seed * 17 + s));
                    }
                }
            }
            for k in ["r64", "r1024", "runs9000", "r2", "sblk"] {
                out.push(format!("t=bv;kind={k};n=40000;how=0;seed={seed}"));
            }
        }
        _ => unreachable!(),
    }
    out
}

pub fn run(prop: &str, c: &Case) -> Result<u64, String> {
    let seed = c.n("seed") as u64;
    match (prop, c.s("t")) {
        ("C09", _) => access(&seq(c)),
        ("C10", _) => search(&seq(c), seed),
        ("C11", "bv") => {
            let bits = gen_bits(c.s("kind"), c.n("n"), seed);
            let bv = mk_bv(&bits, c.n("how"));
            let inv: Vec<bool> = bits.iter().map(|b| !b).collect();
            let pos: Vec<u64> = (0..bits.len()).filter(|&i| bits[i]).map(|i| i as u64).collect();
            let ipos: Vec<u64> = (0..bits.len()).filter(|&i| !bits[i]).map(|i| i as u64).collect();
            let len = bits.len() as u64;
            let mut n = sparse(&SparseRSVec::from_bitvec(&bv), &pos, len, seed, "from_bitvec")?;
            n += sparse(&SparseRSVec::from_bitvec_inverted(&bv), &ipos, len, seed, "from_bitvec_inverted")?;
            n += sparse(&SparseRSVec::new(&pos, len), &pos, len, seed, "new")?;
            // the conversions represent the vector or its inversion
            let f = SparseRSVec::from(&bv);
            if len > 0 {
                let p = if f.get(0) == Some(bits[0] as u64) { &pos } else { &ipos };
                n += sparse(&f, p, len, seed, "From<&BitVec>")?;
                n += sparse(&SparseRSVec::from(bv), p, len, seed, "From<BitVec>")?;
            }
            let _ = inv;
            Ok(n)
        }
        ("C11", "pos") => {
            let mut p = gen_seq(c.s("kind"), c.n("n"), seed);
            p.dedup();
            p.retain(|x| *x < u64::MAX - 10);
            let last = p.last().copied().unwrap_or(0);
            let mut n = 0;
            for extra in [1u64, 2, 9] {
                n += sparse(&SparseRSVec::new(&p, last + extra), &p, last + extra, seed, "new")?;
            }
            Ok(n)
        }
        _ => panic!("CASE-SYNTAX"),
    }
}

fn seq(c: &Case) -> Vec<u64> {
    let (n, seed) = (c.n("n"), c.n("seed") as u64);
    if c.s("kind") == "small" {
        let mut r = Rng::new(seed * 64 + n as u64);
        let u = 1 + r.below(3 * n + 4) as u64;
        let o = if r.chance(1, 3) { r.next() >> 1 } else { 0 };
        let sh = if r.chance(1, 3) { r.below(20) } else { 0 };
        let mut v: Vec<u64> = (0..n).map(|_| o + ((r.next() % u) << sh)).collect();
        v.sort_unstable();
        v
    } else {
        gen_seq(c.s("kind"), n, seed)
    }
}

fn access(s: &[u64]) -> Result<u64, String> {
    let mut n = 0;
    let ef = EliasFanoVec::from_slice(s);
    let l = s.len();
    ck!(n, ef.len(), l, "len");
    ck!(n, ef.is_empty(), l == 0, "is_empty");
    for i in 0..l {
        ck!(n, ef.get(i), Some(s[i]), "get({i}) of {l}");
        ck!(n, ef.get_unchecked(i), s[i], "get_unchecked({i}) of {l}");
        ck!(n, ef.select(i), Some(s[i]), "select({i}) of {l}");
        let d = if i == 0 { s[0] } else { s[i] - s[i - 1] };
        ck!(n, ef.delta(i), Some(d), "delta({i}) of {l}");
    }
    for i in [l, l + 1, l + 100, usize::MAX] {
        ck!(n, ef.get(i), None, "get({i}) of {l}");
        ck!(n, ef.select(i), None, "select({i}) of {l}");
        ck!(n, ef.delta(i), None, "delta({i}) of {l}");
    }
    Ok(n)
}

fn queries(s: &[u64], seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let mut q = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63];
    let step = (s.len() / 6000).max(1);
    for i in (0..s.len()).step_by(step) {
        q.push(s[i]);
        q.push(s[i].saturating_add(1));
        q.push(s[i].saturating_sub(1));
        if i > 0 {
            q.push(s[i - 1] + (s[i] - s[i - 1]) / 2);
            q.push(s[i - 1] + r.next() % (s[i] - s[i - 1]).saturating_add(1));
        }
    }
    for sh in 0..64 {
        q.push(r.next() >> sh);
        if let (Some(a), Some(b)) = (s.first(), s.last()) {
            q.push(a.saturating_add(1 << sh));
            q.push(b.saturating_sub(1 << sh));
        }
    }
    q
}

fn search(s: &[u64], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let ef = EliasFanoVec::from_slice(s);
    let l = s.len();
    for q in queries(s, seed) {
        let lt = s.partition_point(|x| *x < q);
        let le = s.partition_point(|x| *x <= q);
        let pred = if le > 0 { Some(s[le - 1]) } else { None };
        let succ = if lt < l { Some(s[lt]) } else { None };
        ck!(n, ef.predecessor(q), pred, "predecessor({q}) in {l} elements");
        ck!(n, ef.successor(q), succ, "successor({q}) in {l} elements");
        ck!(n, ef.rank(q), lt as u64, "rank({q}) in {l} elements");
        if let Some(p) = pred {
            ck!(n, ef.predecessor_unchecked(q), p, "predecessor_unchecked({q}) in {l} elements");
        }
        if let Some(p) = succ {
            ck!(n, ef.successor_unchecked(q), p, "successor_unchecked({q}) in {l} elements");
        }
    }
    Ok(n)
}

fn sparse(sv: &SparseRSVec, pos: &[u64], len: u64, seed: u64, name: &str) -> Result<u64, String> {
    let mut n = 0;
    ck!(n, sv.len(), len, "{name}: len");
    ck!(n, sv.is_empty(), len == 0, "{name}: is_empty");
    let mut q: Vec<u64> = if len <= 5000 { (0..len).collect() } else { queries(pos, seed) };
    q.extend([len, len.saturating_add(1), len.saturating_add(64), u64::MAX]);
    for i in q {
        let r1 = pos.partition_point(|x| *x < i);
        let set = r1 < pos.len() && pos[r1] == i;
        if i < len {
            ck!(n, sv.is_set(i), Some(set), "{name}: is_set({i}) of {len}");
            ck!(n, sv.get(i), Some(set as u64), "{name}: get({i}) of {len}");
            ck!(n, sv.is_set_unchecked(i), set, "{name}: is_set_unchecked({i}) of {len}");
            ck!(n, sv.get_unchecked(i), set as u64, "{name}: get_unchecked({i}) of {len}");
        } else {
            ck!(n, sv.is_set(i), None, "{name}: is_set({i}) of {len}");
            ck!(n, sv.get(i), None, "{name}: get({i}) of {len}");
        }
        ck!(n, sv.rank1(i), r1 as u64, "{name}: rank1({i}) of {len}");
        ck!(n, sv.rank0(i), i.min(len) - r1 as u64, "{name}: rank0({i}) of {len}");
    }
    for (k, p) in pos.iter().enumerate() {
        ck!(n, sv.select1(k), *p, "{name}: select1({k}) of {len}");
    }
    for k in [pos.len(), pos.len() + 1, usize::MAX] {
        ck!(n, sv.select1(k), len, "{name}: select1({k}) of {len}");
    }
    ck!(n, sv.iter1().eq(pos.iter().copied()), true, "{name}: iter1 of {len}");
    Ok(n)
}
