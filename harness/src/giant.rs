//! One vector of more than 2^32 bits per property (deeper search only): positions, counts and ranks that do not fit 32 bits.
use crate::ck;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use vers_vecs::{BitVec, BpTree, IsAncestor, LevelTree, RsVec, SubtreeSize, Tree};

static ONE_AT_A_TIME: Mutex<()> = Mutex::new(());
const LIMBS: usize = (1 << 26) + 300;
const LEN: usize = LIMBS * 64 - 13;

/// The positions that differ from the background bit.
fn marks() -> Vec<usize> {
    let mut v = vec![];
    for base in [0usize, 1 << 16, 1 << 24, 1 << 30, (1 << 31) - 200, 1 << 31, (1 << 32) - 9000, (1 << 32) - 70, 1 << 32, (1 << 32) + 8190, LEN - 600] {
        for d in [0usize, 1, 2, 63, 64, 65, 130, 511, 512] {
            v.push(base + d);
        }
    }
    v.push(LEN - 1);
    v.sort_unstable();
    v.dedup();
    v
}

fn vector(m: &[usize], bg: bool) -> BitVec {
    let mut l = vec![if bg { u64::MAX } else { 0 }; LIMBS];
    for &p in m {
        l[p / 64] ^= 1 << (p % 64);
    }
    let mut bv = BitVec::from_vec(l);
    bv.drop_last(13);
    bv
}

struct Rec(Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |a, &x| a.rotate_left(5) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
    fn write(&mut self, b: &[u8]) {
        b.iter().for_each(|&x| self.write_u64(x.into()));
    }
    fn write_u64(&mut self, x: u64) {
        self.0[0] = self.0[0].rotate_left(5) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}

pub fn case(prop: &str) -> String {
    format!("t=giant;prop={prop}")
}

pub fn run(prop: &str) -> Result<u64, String> {
    let _one = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let m = marks();
    let mut n = 0;
    for bg in [false, true] {
        let is = |p: usize| (m.binary_search(&p).is_ok() != bg) as u64;
        let below = |p: usize| m.partition_point(|&x| x < p);
        // the k-th position that is not marked
        let kth_rest = |k: usize| {
            let mut p = k;
            for &x in &m {
                if x <= p {
                    p += 1;
                }
            }
            p
        };
        let mut probes: Vec<usize> = m.iter().flat_map(|&p| [p.saturating_sub(1), p, p + 1, p + 40, p + 700]).collect();
        probes.retain(|&p| p < LEN);
        let word = |p: usize, w: usize| (0..w).fold(0u64, |a, k| a | is(p + k) << k);
        let mut bv = vector(&m, bg);
        match prop {
            "C01" => {
                ck!(n, bv.len(), LEN, "len of 2^32+ bits");
                for &p in &probes {
                    ck!(n, bv.get(p), Some(is(p)), "get({p})");
                    for w in [1usize, 7, 33, 64] {
                        ck!(n, bv.get_bits(p, w), if p + w <= LEN { Some(word(p, w)) } else { None }, "get_bits({p},{w})");
                    }
                }
                ck!(n, bv.get(LEN), None, "get(len)");
                ck!(n, bv.count_ones(), if bg { (LEN - m.len()) as u64 } else { m.len() as u64 }, "count_ones");
                ck!(n, bv.count_zeros(), if bg { m.len() as u64 } else { (LEN - m.len()) as u64 }, "count_zeros");
                for &p in &m {
                    bv.flip_bit(p);
                    ck!(n, bv.get(p), Some(bg as u64), "get({p}) after flip_bit");
                    bv.set(p, !bg as u64).unwrap();
                    ck!(n, bv.get(p), Some(is(p)), "get({p}) after set");
                }
                bv.append_bits(0x5A5A, 16);
                ck!(n, bv.get_bits(LEN, 16), Some(0x5A5A), "appended bits");
                ck!(n, bv.len(), LEN + 16, "len after append_bits");
                bv.drop_last(16);
                let (a, b) = bv.split_at((1 << 32) + 77).unwrap();
                ck!(n, (a.len(), b.len()), ((1 << 32) + 77, LEN - (1 << 32) - 77), "split_at lengths");
                for p in (1 << 32) + 78..LEN {
                    ck!(n, b.get(p - (1 << 32) - 77), Some(is(p)), "split_at right half");
                }
            }
            "C02" => {
                let mask = BitVec::from_zeros(LEN);
                let mv = bv.mask_xor(&mask).unwrap();
                for &p in &probes {
                    ck!(n, mv.get(p), Some(is(p)), "masked get({p})");
                    ck!(n, mv.get_bits(p, 40), if p + 40 <= LEN { Some(word(p, 40)) } else { None }, "masked get_bits({p})");
                }
                ck!(n, mv.count_ones(), if bg { (LEN - m.len()) as u64 } else { m.len() as u64 }, "masked count_ones");
            }
            "C03" => {
                let mut o = bv.clone();
                ck!(n, bv == o, true, "equal vectors");
                let h = |b: &BitVec| {
                    let mut r = Rec(vec![0]);
                    b.hash(&mut r);
                    r.finish()
                };
                ck!(n, h(&bv), h(&o), "hashes of equal vectors");
                for p in [1usize << 31, 1 << 32, (1 << 32) + 100, LEN - 1] {
                    o.flip_bit(p);
                    ck!(n, bv == o, false, "vectors that differ at {p}");
                    o.flip_bit(p);
                }
            }
            "C04" => {
                for p in [1usize << 31, (1 << 32) - 5, 1 << 32, LEN - 700] {
                    let mut it = bv.iter();
                    ck!(n, it.nth(p), Some(is(p)), "iter().nth({p})");
                    for q in p + 1..p + 600 {
                        ck!(n, it.next(), Some(is(q)), "iter() at {q}");
                    }
                    ck!(n, it.len(), LEN - p - 600, "iter().len() after {p}");
                    ck!(n, it.next_back(), Some(is(LEN - 1)), "iter().next_back()");
                }
            }
            _ => {
                let rs = RsVec::from_bit_vec(bv);
                let rank = |p: usize| if bg { p - below(p) } else { below(p) };
                match prop {
                    "C05" => {
                        ck!(n, rs.len(), LEN, "len");
                        for &p in probes.iter().chain(&[LEN, LEN + 1, LEN + 9000, usize::MAX]) {
                            let q = p.min(LEN);
                            ck!(n, rs.rank1(p), rank(q), "rank1({p})");
                            ck!(n, rs.rank0(p), q - rank(q), "rank0({p})");
                        }
                    }
                    "C06" => {
                        for (k, &p) in m.iter().enumerate() {
                            ck!(n, if bg { rs.select0(k) } else { rs.select1(k) }, p, "select of mark {k}");
                            for q in [p.saturating_sub(1), p, p + 600] {
                                let k = q - below(q);
                                let want = kth_rest(k);
                                if want < LEN {
                                    ck!(n, if bg { rs.select1(k) } else { rs.select0(k) }, want, "select of rest {k}");
                                }
                            }
                        }
                        let (a, b) = if bg { (LEN - m.len(), m.len()) } else { (m.len(), LEN - m.len()) };
                        ck!(n, rs.select1(a), LEN, "select1(ones)");
                        ck!(n, rs.select0(b), LEN, "select0(zeros)");
                    }
                    "C07" => {
                        for &p in &probes {
                            ck!(n, rs.get(p), Some(is(p)), "get({p})");
                            for w in [1usize, 7, 33, 64] {
                                ck!(n, rs.get_bits(p, w), if p + w <= LEN { Some(word(p, w)) } else { None }, "get_bits({p},{w})");
                            }
                        }
                        let mut m2 = m.clone();
                        let last = m2.len() - 4;
                        m2[last] += 3;
                        let o = RsVec::from_bit_vec(vector(&m2, bg));
                        ck!(n, rs == o, false, "vectors that differ behind 2^32");
                        ck!(n, rs.full_equals(&o), false, "full_equals of vectors that differ behind 2^32");
                        ck!(n, if bg { rs.sparse_equals::<true>(&o) } else { rs.sparse_equals::<false>(&o) }, false, "sparse_equals of vectors that differ behind 2^32");
                        drop(o);
                        let o = RsVec::from_bit_vec(vector(&m, bg));
                        ck!(n, rs == o, true, "equal vectors");
                        ck!(n, rs.full_equals(&o), true, "full_equals of equal vectors");
                    }
                    _ => {
                        let marked: Vec<usize> = if bg { rs.iter0().collect() } else { rs.iter1().collect() };
                        ck!(n, marked == m, true, "enumeration of the marks");
                        let back: Vec<usize> = if bg { rs.iter0().rev().collect() } else { rs.iter1().rev().collect() };
                        ck!(n, back.iter().rev().eq(m.iter()), true, "reverse enumeration of the marks");
                        for k in [1usize << 31, (1 << 32) - 600, 1 << 32, (1 << 32) + 5000] {
                            let want: Vec<usize> = (k..k + 700).map(kth_rest).collect();
                            let got: Vec<Option<usize>> = if bg {
                                let mut it = rs.iter1();
                                std::iter::once(it.nth(k)).chain((1..700).map(|_| it.next())).collect()
                            } else {
                                let mut it = rs.iter0();
                                std::iter::once(it.nth(k)).chain((1..700).map(|_| it.next())).collect()
                            };
                            ck!(n, got.iter().zip(&want).all(|(g, w)| *g == Some(*w)), true, "nth({k}) and the next 700 of the rest");
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

/// `K` opening parentheses, `L` leaves, `K` closing ones: depths, sizes and positions that do not fit 32 bits.
pub fn run_tree(prop: &str) -> Result<u64, String> {
    const K: usize = (1 << 31) + 1024;
    const L: usize = 64;
    const ALL: usize = 2 * (K + L);
    let _one = ONE_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    let mut n = 0;
    let mut l = vec![u64::MAX; K / 64];
    l.extend([0x5555_5555_5555_5555; 2 * L / 64]);
    l.resize(l.len() + K / 64, 0);
    let t: BpTree = BpTree::from_bit_vector(BitVec::from_vec(l));
    let inner = [0usize, 1, 100, 511, 512, 1 << 16, 1 << 30, (1 << 31) - 1, 1 << 31, K - 2, K - 1];
    let leaf = |j: usize| K + 2 * j;
    match prop {
        "C17" => {
            for i in inner {
                let c = ALL - 1 - i;
                ck!(n, t.excess(i), i as i64 + 1, "excess({i})");
                ck!(n, t.excess(c), i as i64, "excess({c})");
                ck!(n, t.close(i), Some(c), "close({i})");
                ck!(n, t.open(c), Some(i), "open({c})");
                ck!(n, t.enclose(i), i.checked_sub(1), "enclose({i})");
                ck!(n, t.enclose(c), i.checked_sub(1), "enclose({c})");
                for j in inner {
                    if j > i {
                        ck!(n, t.fwd_search(i, (j - i) as i64), Some(j), "fwd_search({i}, {})", j - i);
                        ck!(n, t.bwd_search(j, i as i64 - j as i64), Some(i), "bwd_search({j}, -{})", j - i);
                    }
                    ck!(n, t.fwd_search(ALL - 1 - i, K as i64 + 2), None, "fwd_search({}, {})", ALL - 1 - i, K + 2);
                }
            }
            for j in [0, 1, 40, L - 1] {
                ck!(n, t.close(leaf(j)), Some(leaf(j) + 1), "close of leaf {j}");
                ck!(n, t.enclose(leaf(j)), Some(K - 1), "enclose of leaf {j}");
                ck!(n, t.fwd_search(leaf(j), -(K as i64) - 1), Some(ALL - 1), "fwd_search from leaf {j}");
            }
        }
        "C18" => {
            ck!(n, t.root(), Some(0), "root");
            for i in inner {
                ck!(n, t.parent(i), i.checked_sub(1), "parent({i})");
                ck!(n, t.first_child(i), Some(i + 1), "first_child({i})");
                ck!(n, t.last_child(i), Some(if i == K - 1 { leaf(L - 1) } else { i + 1 }), "last_child({i})");
                ck!(n, (t.next_sibling(i), t.previous_sibling(i)), (None, None), "siblings of {i}");
                ck!(n, t.depth(i), i as u64, "depth({i})");
                ck!(n, t.is_leaf(i), false, "is_leaf({i})");
                ck!(n, t.subtree_size(i), Some(K + L - i), "subtree_size({i})");
                ck!(n, t.is_ancestor(i, leaf(5)), Some(true), "is_ancestor({i}, leaf)");
                ck!(n, t.is_ancestor(leaf(5), i), Some(false), "is_ancestor(leaf, {i})");
                ck!(n, (t.node_index(i), t.node_handle(i)), (i, i), "index and handle of {i}");
            }
            for j in [0, 1, 40, L - 1] {
                let p = leaf(j);
                ck!(n, t.parent(p), Some(K - 1), "parent of leaf {j}");
                ck!(n, t.previous_sibling(p), if j > 0 { Some(p - 2) } else { None }, "previous_sibling of leaf {j}");
                ck!(n, t.next_sibling(p), if j + 1 < L { Some(p + 2) } else { None }, "next_sibling of leaf {j}");
                ck!(n, (t.depth(p), t.is_leaf(p), t.subtree_size(p)), (K as u64, true, Some(1)), "depth, is_leaf, subtree_size of leaf {j}");
                ck!(n, (t.node_index(p), t.node_handle(K + j)), (K + j, p), "index and handle of leaf {j}");
            }
        }
        _ => {
            ck!(n, t.size(), K + L, "size");
            for i in inner {
                for a in inner {
                    if a < i {
                        ck!(n, t.level_ancestor(i, (i - a) as u64), Some(a), "level_ancestor({i}, {})", i - a);
                    }
                }
                ck!(n, t.level_ancestor(i, i as u64 + 1), None, "level_ancestor({i}, {})", i + 1);
                ck!(n, (t.level_next(i), t.level_prev(i)), (None, None), "level neighbours of {i}");
                ck!(n, (t.level_leftmost(i as u64), t.level_rightmost(i as u64)), (Some(i), Some(i)), "level ends at level {i}");
                ck!(n, t.children(i).next(), Some(i + 1), "children({i})");
            }
            ck!(n, (t.level_leftmost(K as u64), t.level_rightmost(K as u64)), (Some(leaf(0)), Some(leaf(L - 1))), "ends of the last level");
            ck!(n, (t.level_leftmost(K as u64 + 1), t.level_rightmost(K as u64 + 1)), (None, None), "ends of the level behind the last");
            let kids: Vec<usize> = (0..L).map(leaf).collect();
            ck!(n, t.children(K - 1).eq(kids.iter().copied()), true, "children of the deepest inner node");
            ck!(n, t.rev_children(K - 1).eq(kids.iter().rev().copied()), true, "rev_children of the deepest inner node");
            let sub: Vec<usize> = (K - 3..K).chain(kids.iter().copied()).collect();
            ck!(n, t.subtree_iter(K - 3).eq(sub.iter().copied()), true, "subtree_iter({})", K - 3);
            let post: Vec<usize> = kids.iter().copied().chain((K - 3..K).rev()).collect();
            ck!(n, t.subtree_post_iter(K - 3).eq(post.iter().copied()), true, "subtree_post_iter({})", K - 3);
            ck!(n, t.dfs_post_iter().take(L + 4).eq(kids.iter().copied().chain((K - 4..K).rev())), true, "dfs_post_iter");
            for j in [0, 1, 40, L - 1] {
                let p = leaf(j);
                ck!(n, t.level_next(p), if j + 1 < L { Some(p + 2) } else { None }, "level_next of leaf {j}");
                ck!(n, t.level_prev(p), if j > 0 { Some(p - 2) } else { None }, "level_prev of leaf {j}");
                ck!(n, t.level_ancestor(p, K as u64), Some(0), "level_ancestor of leaf {j}");
            }
        }
    }
    Ok(n)
}
