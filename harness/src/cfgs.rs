//! C22: digests of the answers of every structure whose code differs between builds; check.py compares them.
use crate::util::*;
use std::cell::Cell;
use vers_vecs::{BitVec, BpTree, EliasFanoVec, FastRmq, IsAncestor, LevelTree, RsVec, SparseRSVec, SubtreeSize, Tree, WaveletMatrix};

pub struct D(pub u64, pub u64);
impl D {
    fn add(&mut self, x: u64) {
        self.1 += 1;
        self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01B3).rotate_left(23) ^ (x >> 7);
    }
    fn us(&mut self, x: usize) {
        self.add(x as u64)
    }
    fn op(&mut self, x: Option<usize>) {
        self.add(x.map_or(u64::MAX - 1, |v| v as u64))
    }
}

thread_local!(pub static DIGEST: Cell<u64> = const { Cell::new(0) });

pub fn cases(thorough: bool, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let reps = if thorough { 20 } else { 2 };
    for s in 0..reps {
        let sd = seed * 77 + s;
        for k in KINDS {
            for len in [0usize, 1, 15, 16, 17, 31, 33, 63, 64, 65, 100, 511, 512, 513, 1000, 8191, 8192, 8193, 8704, 9000, 16_384, 16_385, 20_000, 66_000, 131_073] {
                out.push(format!("t=rs;len={};kind={k};how={};seed={sd}", len + 512 * s as usize, (s as usize + len) % HOWS));
            }
        }
        for b in [1usize, 4, 7, 8, 12, 16, 17, 24, 32, 64, 100, 512, 1024] {
            for k in crate::bp::TK {
                for n in [1usize, 2, 3, 8, 17, 40, 65, 300, 900 + b] {
                    out.push(format!("t=tree;kind={k};n={n};b={b};seed={sd}"));
                }
            }
            for k in ["zeros", "ones", "alt", "alt2", "r2", "r16", "r16n", "runs300", "halfz", "halfo", "one1", "one0"] {
                for len in [1usize, 7, 8, 9, 16, 17, 33, 64, 130, 1200 + b] {
                    out.push(format!("t=bits;kind={k};len={len};b={b};seed={sd}"));
                }
            }
        }
        for k in crate::ef::EKINDS {
            for n in [1usize, 2, 10, 64, 100, 600, 5000] {
                out.push(format!("t=ef;kind={k};n={n};seed={sd}"));
            }
        }
        for n in [1usize, 2, 63, 64, 65, 128, 129, 300, 700, 3000] {
            for m in [2u64, 5, 1000, u64::MAX] {
                out.push(format!("t=rmq;n={n};m={m};seed={sd}"));
                out.push(format!("t=wave;n={n};m={m};seed={sd}"));
            }
        }
    }
    out
}

pub fn run(c: &Case) -> Result<u64, String> {
    let mut d = D(0xcbf2_9ce4_8422_2325, 0);
    let seed = c.n("seed") as u64;
    match c.s("t") {
        "rs" => rs(&mut d, &gen_bits(c.s("kind"), c.n("len"), seed), c.n("how"))?,
        "tree" => crate::bp::digest(&mut d, &crate::bp::gen_tree(c.s("kind"), c.n("n"), seed), c.n("b"), seed),
        "bits" => crate::bp::digest(&mut d, &gen_bits(c.s("kind"), c.n("len"), seed), c.n("b"), seed),
        "ef" => ef(&mut d, crate::ef::gen_seq(c.s("kind"), c.n("n"), seed), seed),
        "rmq" => rmq(&mut d, c.n("n"), c.s("m").parse().unwrap(), seed),
        "wave" => wave(&mut d, c.n("n"), c.s("m").parse().unwrap(), seed),
        _ => panic!("CASE-SYNTAX"),
    }
    DIGEST.with(|x| x.set(d.0));
    Ok(d.1)
}

fn rs(d: &mut D, bits: &[bool], how: usize) -> Result<(), String> {
    let v = RsVec::from_bit_vec(mk_bv(bits, how));
    let ones = bits.iter().filter(|b| **b).count();
    for i in 0..ones + 3 {
        d.us(v.select1(i));
    }
    for i in 0..bits.len() - ones + 3 {
        d.us(v.select0(i));
    }
    for i in (0..=bits.len()).step_by(if bits.len() > 5000 { 37 } else { 1 }) {
        d.us(v.rank1(i));
        d.us(v.rank0(i));
    }
    for p in v.iter0() {
        d.us(p);
    }
    for p in v.iter1() {
        d.us(p);
    }
    let (mut a, mut b) = (v.iter0(), v.iter1());
    let mut r = Rng::new(bits.len() as u64);
    for _ in 0..200 {
        let k = r.below(700);
        match r.below(4) {
            0 => (d.op(a.next()), d.op(b.next_back())),
            1 => (d.op(a.next_back()), d.op(b.next())),
            2 => (d.op(a.nth(k)), d.op(b.nth_back(k))),
            _ => (d.op(a.nth_back(k)), d.op(b.nth(k))),
        };
    }
    #[cfg(all(feature = "simd", target_feature = "avx512bw"))]
    {
        if !v.bit_set_iter0().eq(v.iter0()) {
            return Err(format!("bit_set_iter0 and iter0 enumerate different positions of {} bits", bits.len()));
        }
        if !v.bit_set_iter1().eq(v.iter1()) {
            return Err(format!("bit_set_iter1 and iter1 enumerate different positions of {} bits", bits.len()));
        }
    }
    let o = RsVec::from_bit_vec(mk_bv(bits, (how + 1) % HOWS));
    d.us((v == o) as usize);
    d.us(v.sparse_equals::<true>(&o) as usize);
    d.us(v.sparse_equals::<false>(&o) as usize);
    Ok(())
}

pub fn bp<const B: usize>(d: &mut D, bits: &[bool], seed: u64) {
    let l = bits.len();
    let t: BpTree<B> = BpTree::from_bit_vector(mk_bv(bits, (seed as usize + l) % HOWS));
    let mut r = Rng::new(seed);
    let mut ex = 0i64;
    let mut bal = true;
    for &b in bits {
        ex += if b { 1 } else { -1 };
        bal &= ex >= 0;
    }
    bal &= ex == 0;
    d.us(t.size());
    let mut i = 0;
    while i < l {
        d.add(t.excess(i) as u64);
        for e in [-1i64, 1, 0, -2, 2, 3, -3, 9, -9, 15, -15, 17, -17, (r.below(300) as i64) - 150] {
            d.op(t.fwd_search(i, e));
            d.op(t.bwd_search(i, e));
        }
        d.op(t.enclose(i));
        if bits[i] {
            d.op(t.close(i));
        } else {
            d.op(t.open(i));
        }
        if bal && bits[i] {
            for x in [t.parent(i), t.first_child(i), t.last_child(i), t.next_sibling(i), t.previous_sibling(i), t.subtree_size(i), t.level_next(i), t.level_prev(i), t.level_ancestor(i, 1), t.level_ancestor(i, 7), Some(t.node_index(i))] {
                d.op(x);
            }
            d.add(t.depth(i));
            d.us(t.is_leaf(i) as usize);
            d.add(t.is_ancestor(0, i).map_or(2, u64::from));
            for c in t.children(i).take(30) {
                d.us(c);
            }
        }
        i += if l < 1500 { 1 } else { r.range(1, 9) };
    }
    if bal && l > 0 {
        for k in 0..20 {
            d.op(t.level_leftmost(k * k));
            d.op(t.level_rightmost(k * k));
        }
        for k in (0..t.size()).step_by(1 + t.size() / 400) {
            d.us(t.node_handle(k));
        }
        for x in t.dfs_post_iter() {
            d.us(x);
        }
    }
}

fn ef(d: &mut D, mut v: Vec<u64>, seed: u64) {
    v.sort_unstable();
    let e = EliasFanoVec::from_slice(&v);
    let mut r = Rng::new(seed);
    let mut qs: Vec<u64> = v.iter().flat_map(|x| [x.saturating_sub(1), *x, x.saturating_add(1)]).collect();
    qs.extend((0..100).map(|_| r.next() >> r.below(64)));
    for i in 0..v.len() {
        d.add(e.get(i).unwrap_or(1));
    }
    for q in qs {
        d.add(e.predecessor(q).unwrap_or(3));
        d.add(e.successor(q).unwrap_or(5));
        d.add(e.rank(q));
    }
    for x in e.iter() {
        d.add(x);
    }
    v.dedup();
    if let Some(l) = v.last().filter(|l| **l < u64::MAX) {
        let s = SparseRSVec::new(&v, l + 1);
        for (i, x) in v.iter().enumerate() {
            d.add(s.select1(i));
            d.add(s.rank1(*x));
            d.add(s.rank0(*x));
            d.us(s.is_set(*x).map_or(2, usize::from));
        }
    }
}

fn rmq(d: &mut D, n: usize, m: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let v: Vec<u64> = (0..n).map(|_| r.next() % m).collect();
    let q = FastRmq::from_vec(v);
    for _ in 0..(if n < 80 { n * n * 2 } else { 6000 }) {
        let (a, b) = (r.below(n), r.below(n));
        d.us(q.range_min(a.min(b), a.max(b)));
    }
}

fn wave(d: &mut D, n: usize, m: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let v: Vec<u64> = (0..n).map(|_| r.next() % m).collect();
    let bits = if m == 2 { 1 } else if m == 5 { 3 } else if m == 1000 { 10 } else { 64 };
    let w = WaveletMatrix::from_slice(&v, bits);
    for i in 0..n {
        d.add(w.get_u64(i).unwrap_or(0));
        d.us(w.rank_u64(i, v[i]).unwrap_or(0));
        d.op(w.select_u64(r.below(4), v[i]));
    }
    for _ in 0..300 {
        let (a, b) = (r.below(n + 1), r.below(n + 1));
        let (a, b) = (a.min(b), a.max(b));
        if a < b {
            d.add(w.quantile_u64(a..b, r.below(b - a)).unwrap_or(7));
            d.add(w.range_min_u64(a..b).unwrap_or(7));
            d.add(w.range_max_u64(a..b).unwrap_or(7));
            let x = v[r.below(n)];
            d.add(w.predecessor_u64(a..b, x).unwrap_or(7));
            d.add(w.successor_u64(a..b, x).unwrap_or(7));
            d.us(w.rank_range_u64(a..b, x).unwrap_or(7));
        }
    }
    let _ = BitVec::new();
}
