use crate::ck;
use crate::util::*;
use vers_vecs::{BitVec, BpBuilder, BpTree, IsAncestor, LevelTree, RsVec, SubtreeSize, Tree, TreeBuilder};

const SIZES: &[usize] = &[1, 2, 3, 4, 7, 8, 12, 16, 17, 24, 32, 64, 100, 128, 512, 1024];
pub const TK: &[&str] = &["path", "star", "cater", "catrev", "rand", "randdeep", "randwide", "binary", "comb", "broom", "zig"];

macro_rules! with_size {
    ($b:expr, $f:ident, $($a:expr),*) => {
        match $b {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 12 => $f::<12>($($a),*), 16 => $f::<16>($($a),*),
            17 => $f::<17>($($a),*), 24 => $f::<24>($($a),*), 32 => $f::<32>($($a),*), 64 => $f::<64>($($a),*),
            100 => $f::<100>($($a),*), 128 => $f::<128>($($a),*), 512 => $f::<512>($($a),*), 1024 => $f::<1024>($($a),*),
            _ => panic!("CASE-SYNTAX: block size"),
        }
    };
}

/// balanced parentheses of a tree with n nodes
pub fn gen_tree(kind: &str, n: usize, seed: u64) -> Vec<bool> {
    let mut r = Rng::new(seed ^ ((n as u64) << 22));
    if n == 0 {
        return vec![];
    }
    let mut v = Vec::with_capacity(2 * n);
    match kind {
        "path" => {
            v.resize(n, true);
            v.resize(2 * n, false);
        }
        "star" => {
            v.push(true);
            for _ in 1..n {
                v.extend([true, false]);
            }
            v.push(false);
        }
        "cater" | "catrev" => {
            // every path node has one leaf before (cater) or after (catrev) its path child
            let m = n / 2;
            for _ in 0..m {
                v.push(true);
                if kind == "cater" {
                    v.extend([true, false]);
                }
            }
            if n % 2 == 1 {
                v.extend([true, false]);
            }
            for _ in 0..m {
                if kind == "catrev" {
                    v.extend([true, false]);
                }
                v.push(false);
            }
        }
        "broom" => {
            let m = n / 2 + 1;
            v.resize(m, true);
            for _ in m..n {
                v.extend([true, false]);
            }
            v.extend(std::iter::repeat(false).take(m));
        }
        "zig" => {
            // root with chains of growing length
            v.push(true);
            let mut left = n - 1;
            let mut c = 1;
            while left > 0 {
                let k = c.min(left);
                v.extend(std::iter::repeat(true).take(k));
                v.extend(std::iter::repeat(false).take(k));
                left -= k;
                c += r.range(1, 7);
            }
            v.push(false);
        }
        _ => {
            // random walk that stays at depth >= 1 until all nodes are placed
            let (num, den) = match kind {
                "rand" => (1, 2),
                "randdeep" => (4, 5),
                "randwide" => (1, 4),
                "binary" => (1, 2),
                "comb" => (9, 10),
                _ => panic!("CASE-SYNTAX: kind {kind}"),
            };
            v.push(true);
            let mut depth = 1usize;
            let mut placed = 1;
            let cap = match kind {
                "binary" => 12,
                "randwide" => 6,
                _ => usize::MAX,
            };
            let mut phase_up = true;
            while placed < n {
                let up = if kind == "comb" {
                    if r.chance(1, 60) {
                        phase_up = !phase_up;
                    }
                    r.chance(if phase_up { 9 } else { 1 }, 10)
                } else {
                    r.chance(num, den)
                };
                if (up && depth < cap) || depth == 1 {
                    v.push(true);
                    depth += 1;
                    placed += 1;
                } else {
                    v.push(false);
                    depth -= 1;
                }
            }
            v.extend(std::iter::repeat(false).take(depth));
        }
    }
    v
}

pub fn cases(prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let reps = if thorough { 60 } else { 5 };
    for s in 0..reps {
        let sd = seed * 19 + s;
        if prop == "C17" {
            for b in SIZES {
                for k in ["zeros", "ones", "alt", "alt2", "r2", "r16", "r16n", "halfz", "halfo", "runs300", "wrd", "one1", "one0"] {
                    for len in [0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 130, 200] {
                        if len > 64 && !(thorough || len % 2 == (*b) % 2) {
                            continue;
                        }
                        out.push(format!("t=bits;kind={k};len={len};b={b};seed={sd}"));
                    }
                    out.push(format!("t=bits;kind={k};len={};b={b};seed={sd}", 1200 + b));
                }
                for k in TK {
                    for n in [1usize, 2, 3, 5, 16, 33, 64, 100] {
                        out.push(format!("t=tree;kind={k};n={n};b={b};seed={sd}"));
                    }
                    out.push(format!("t=tree;kind={k};n={};b={b};seed={sd}", 900 + b));
                }
            }
            for b in [8, 16, 64, 512, 1024, 7, 100] {
                for k in ["r2", "runs300", "runs9000", "halfo", "halfz", "ones", "r16n"] {
                    out.push(format!("t=bits;kind={k};len=40000;b={b};seed={sd}"));
                }
                for k in TK {
                    out.push(format!("t=tree;kind={k};n=20000;b={b};seed={sd}"));
                }
                if s == 0 {
                    out.push(format!("t=bits;kind=ones;len=200000;b={b};seed={sd}"));
                    out.push(format!("t=tree;kind=path;n=100000;b={b};seed={sd}"));
                }
            }
        } else {
            for b in SIZES {
                for k in TK {
                    for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 150] {
                        if n > 40 && !thorough && (n + b) % 3 != 0 {
                            continue;
                        }
                        out.push(format!("t=tree;kind={k};n={n};b={b};seed={sd}"));
                    }
                    out.push(format!("t=tree;kind={k};n={};b={b};seed={sd}", 700 + b));
                }
                for n in 1..30 {
                    for q in 0..2 {
                        out.push(format!("t=tree;kind=rand;n={n};b={b};seed={}", sd * 100 + q));
                    }
                }
            }
            for b in [8, 64, 512, 1024, 100] {
                for k in TK {
                    out.push(format!("t=tree;kind={k};n=12000;b={b};seed={sd}"));
                }
            }
            if s == 0 || thorough && s < 6 {
                // deeper than 2^16, wider than 2^16
                for (k, b) in [("path", 512), ("broom", 64), ("catrev", 512), ("star", 512), ("comb", 100), ("randdeep", 8)] {
                    out.push(format!("t=tree;kind={k};n=150000;b={b};seed={sd}"));
                }
            }
            // sequences that encode no tree: the operations do not panic
            for b in [1usize, 4, 8, 16, 64, 512] {
                for k in ["zeros", "ones", "alt", "alt2", "r2", "r16", "r16n", "halfz", "halfo", "one1", "one0"] {
                    for len in [1usize, 2, 3, 4, 9, 16, 17, 40, 130] {
                        out.push(format!("t=bits;kind={k};len={len};b={b};seed={sd}"));
                    }
                }
            }
            if prop == "C19" {
                for q in 0..(200 * reps) {
                    out.push(format!("t=build;seed={}", sd * 1000 + q));
                }
            }
        }
    }
    out
}

/// digest of the answers of a tree (C22)
pub fn digest(d: &mut crate::cfgs::D, bits: &[bool], b: usize, seed: u64) {
    use crate::cfgs::bp;
    with_size!(b, bp, d, bits, seed)
}

pub fn run(prop: &str, c: &Case) -> Result<u64, String> {
    let seed = c.n("seed") as u64;
    if c.s("t") == "build" {
        return builder(seed);
    }
    let bits = if c.s("t") == "tree" { gen_tree(c.s("kind"), c.n("n"), seed) } else { gen_bits(c.s("kind"), c.n("len"), seed) };
    let b = c.n("b");
    if prop != "C17" && c.s("t") == "bits" {
        return with_size!(b, unbalanced, &bits, seed);
    }
    match prop {
        "C17" => with_size!(b, searches, &bits, seed),
        "C18" => with_size!(b, navigation, &bits, seed),
        "C19" => with_size!(b, traversals, &bits, seed),
        _ => panic!("CASE-SYNTAX"),
    }
}

fn searches<const B: usize>(bits: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let l = bits.len();
    let t: BpTree<B> = BpTree::from_bit_vector(mk_bv(bits, (seed as usize + l) % HOWS));
    // prefix excess: ex[i] = excess of the first i parentheses
    let mut ex = vec![0i64; l + 1];
    for i in 0..l {
        ex[i + 1] = ex[i] + if bits[i] { 1 } else { -1 };
    }
    // positions by excess value for fast oracles
    let lo = *ex.iter().min().unwrap();
    let hi = *ex.iter().max().unwrap();
    let mut at: Vec<Vec<usize>> = vec![vec![]; (hi - lo + 1) as usize];
    for (i, e) in ex.iter().enumerate() {
        at[(e - lo) as usize].push(i);
    }
    let find = |e: i64| -> &[usize] {
        if e < lo || e > hi {
            &[]
        } else {
            &at[(e - lo) as usize]
        }
    };
    // smallest i > index with ex[i+1] == ex[index+1]+r
    let fwd = |index: usize, r: i64| -> Option<usize> {
        let f = find(ex[index + 1].checked_add(r)?);
        let p = f.partition_point(|&i| i <= index + 1);
        f.get(p).map(|i| i - 1)
    };
    let bwd = |index: usize, r: i64| -> Option<usize> {
        let f = find(ex[index].checked_add(r)?);
        let p = f.partition_point(|&i| i < index);
        if p == 0 {
            None
        } else {
            Some(f[p - 1])
        }
    };
    let mut rng = Rng::new(seed);
    let step = if l <= 2600 { 1 } else { 7 };
    let mut i = 0;
    while i < l {
        ck!(n, t.excess(i), ex[i + 1], "B={B} len={l}: excess({i})");
        let mut rs = vec![-1i64, 1, 0, -2, 2, 3, -3, (rng.below(40) as i64) - 20];
        let w = rng.below(l);
        rs.push(ex[w + 1] - ex[i + 1]);
        if rng.chance(1, 20) {
            rs.extend([l as i64, -(l as i64), 1 << 40, -(1 << 40), hi - ex[i + 1], lo - ex[i + 1], hi - ex[i + 1] + 1, lo - ex[i + 1] - 1, hi - ex[i], lo - ex[i]]);
        }
        for r in rs {
            ck!(n, t.fwd_search(i, r), fwd(i, r), "B={B} len={l}: fwd_search({i},{r})");
            ck!(n, t.bwd_search(i, r), bwd(i, r), "B={B} len={l}: bwd_search({i},{r})");
        }
        if bits[i] {
            ck!(n, t.close(i), fwd(i, -1), "B={B} len={l}: close({i})");
        } else {
            ck!(n, t.open(i), bwd(i, -1), "B={B} len={l}: open({i})");
        }
        ck!(n, t.enclose(i), bwd(i, if bits[i] { -1 } else { -2 }), "B={B} len={l}: enclose({i})");
        i += if step == 1 { 1 } else { rng.range(1, step) };
    }
    for i in [l, l + 1, usize::MAX] {
        for r in [-1i64, 0, 1] {
            ck!(n, t.fwd_search(i, r), None, "B={B} len={l}: fwd_search({i},{r})");
            ck!(n, t.bwd_search(i, r), None, "B={B} len={l}: bwd_search({i},{r})");
        }
        ck!(n, t.close(i), None, "B={B} len={l}: close({i})");
        ck!(n, t.open(i), None, "B={B} len={l}: open({i})");
        ck!(n, t.enclose(i), None, "B={B} len={l}: enclose({i})");
    }
    let bv: BitVec = BpTree::<B>::from(mk_bv(bits, 0)).into();
    ck!(n, bv == mk_bv(bits, 0), true, "round trip through BpTree");
    ck!(n, t.into_parentheses_vec() == RsVec::from_bit_vec(mk_bv(bits, 0)), true, "into_parentheses_vec");
    Ok(n)
}

/// explicit tree from balanced parentheses
struct Model {
    nodes: Vec<usize>,       // open position by preorder index
    close: Vec<usize>,       // by preorder index
    parent: Vec<Option<usize>>,
    children: Vec<Vec<usize>>,
    depth: Vec<u64>,
    size: Vec<usize>,
    post: Vec<usize>,        // preorder indices in post-order
    levels: Vec<Vec<usize>>, // preorder indices per depth
    level_pos: Vec<usize>,   // position of node in its level
}

fn model(bits: &[bool]) -> Model {
    let mut m = Model { nodes: vec![], close: vec![], parent: vec![], children: vec![], depth: vec![], size: vec![], post: vec![], levels: vec![], level_pos: vec![] };
    let mut st: Vec<usize> = vec![];
    for (i, &b) in bits.iter().enumerate() {
        if b {
            let id = m.nodes.len();
            m.nodes.push(i);
            m.close.push(0);
            m.parent.push(st.last().copied());
            if let Some(&p) = st.last() {
                m.children[p].push(id);
            }
            m.children.push(vec![]);
            m.depth.push(st.len() as u64);
            m.size.push(0);
            if m.levels.len() <= st.len() {
                m.levels.push(vec![]);
            }
            m.level_pos.push(m.levels[st.len()].len());
            m.levels[st.len()].push(id);
            st.push(id);
        } else {
            let id = st.pop().unwrap();
            m.close[id] = i;
            m.size[id] = m.nodes.len() - id;
            m.post.push(id);
        }
    }
    m
}

fn sample(n: usize, r: &mut Rng) -> Vec<usize> {
    if n <= 1800 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..if n < 50000 { 1200 } else { 100 }).map(|_| r.below(n)).collect();
        v.extend([0, 1, 2, n - 1, n - 2, n / 2]);
        v
    }
}

fn navigation<const B: usize>(bits: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let m = model(bits);
    let l = bits.len();
    let t: BpTree<B> = BpTree::from_bit_vector(mk_bv(bits, (seed as usize + l) % HOWS));
    let c = m.nodes.len();
    let h = |x: Option<usize>| x.map(|i| m.nodes[i]);
    ck!(n, t.root(), if c > 0 { Some(0) } else { None }, "B={B}: root of {c} nodes");
    ck!(n, t.size(), c, "B={B}: size of {c} nodes");
    ck!(n, t.is_empty(), c == 0, "B={B}: is_empty of {c} nodes");
    let mut r = Rng::new(seed);
    for i in sample(c, &mut r) {
        let p = m.nodes[i];
        ck!(n, t.node_index(p), i, "B={B}: node_index({p}) of {c} nodes");
        ck!(n, t.node_handle(i), p, "B={B}: node_handle({i}) of {c} nodes");
        ck!(n, t.parent(p), h(m.parent[i]), "B={B}: parent({p}) of {c} nodes");
        ck!(n, t.first_child(p), h(m.children[i].first().copied()), "B={B}: first_child({p}) of {c} nodes");
        ck!(n, t.last_child(p), h(m.children[i].last().copied()), "B={B}: last_child({p}) of {c} nodes");
        let sib = m.parent[i].map_or(&[][..], |q| &m.children[q][..]);
        let pos = sib.binary_search(&i).unwrap_or(0);
        ck!(n, t.next_sibling(p), h(sib.get(pos + 1).copied().filter(|_| !sib.is_empty())), "B={B}: next_sibling({p}) of {c} nodes");
        ck!(n, t.previous_sibling(p), if pos > 0 { h(Some(sib[pos - 1])) } else { None }, "B={B}: previous_sibling({p}) of {c} nodes");
        ck!(n, t.is_leaf(p), m.children[i].is_empty(), "B={B}: is_leaf({p}) of {c} nodes");
        ck!(n, t.depth(p), m.depth[i], "B={B}: depth({p}) of {c} nodes");
        ck!(n, t.subtree_size(p), Some(m.size[i]), "B={B}: subtree_size({p}) of {c} nodes");
        ck!(n, t.close(p), Some(m.close[i]), "B={B}: close({p}) of {c} nodes");
        ck!(n, t.open(m.close[i]), Some(p), "B={B}: open({}) of {c} nodes", m.close[i]);
        ck!(n, t.enclose(p), h(m.parent[i]), "B={B}: enclose({p}) of {c} nodes");
        let js: Vec<usize> = if c <= 40 { (0..c).collect() } else { vec![r.below(c), i, (i + 1).min(c - 1), i.saturating_sub(1), (i + m.size[i]).min(c - 1), i + m.size[i] - 1, m.parent[i].unwrap_or(0), 0, c - 1] };
        for j in js {
            let want = j >= i && j < i + m.size[i];
            ck!(n, t.is_ancestor(p, m.nodes[j]), Some(want), "B={B}: is_ancestor({p},{}) of {c} nodes", m.nodes[j]);
        }
    }
    Ok(n)
}

fn unbalanced<const B: usize>(bits: &[bool], seed: u64) -> Result<u64, String> {
    let l = bits.len();
    let t: BpTree<B> = BpTree::from_bit_vector(mk_bv(bits, (seed as usize + l) % HOWS));
    let mut n = 0;
    let c = bits.iter().filter(|b| **b).count();
    ck!(n, t.size(), c, "B={B}: size");
    ck!(n, t.is_empty(), l == 0, "B={B}: is_empty");
    ck!(n, t.root(), Some(0), "B={B}: root");
    {
        let nodes: Vec<usize> = (0..l).filter(|&i| bits[i]).collect();
        for (k, &p) in nodes.iter().enumerate() {
            assert_eq!((t.node_index(p), t.node_handle(k)), (k, p));
            let _ = (t.parent(p), t.first_child(p), t.last_child(p), t.next_sibling(p), t.previous_sibling(p), t.is_leaf(p), t.depth(p), t.subtree_size(p));
            let _ = (t.is_ancestor(p, nodes[c - 1]), t.is_ancestor(nodes[0], p), t.level_next(p), t.level_prev(p), t.level_ancestor(p, 1), t.level_ancestor(p, 3));
            assert!(t.subtree_iter(p).count() <= c && t.children(p).take(2).count() <= c);
        }
        for d in 0..4 {
            let _ = (t.level_leftmost(d), t.level_rightmost(d));
        }
        ck!(n, t.dfs_iter().eq(nodes.iter().copied()), true, "B={B}: dfs_iter");
    }
    Ok(n)
}

fn traversals<const B: usize>(bits: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let m = model(bits);
    let l = bits.len();
    // build through the builder
    let mut bld: BpBuilder<B> = if seed % 2 == 0 { BpBuilder::new() } else { BpBuilder::with_capacity(l as u64) };
    for &b in bits {
        if b {
            bld.enter_node();
        } else {
            bld.leave_node();
        }
    }
    let t = match bld.build() {
        Ok(t) => t,
        Err(e) => return Err(format!("builder rejected balanced sequence of {l} parentheses with {e}")),
    };
    let c = m.nodes.len();
    ck!(n, t.size(), c, "B={B}: size");
    ck!(n, t.dfs_iter().eq(m.nodes.iter().copied()), true, "B={B}: dfs_iter of {c} nodes");
    ck!(n, t.iter().eq(m.nodes.iter().copied()), true, "B={B}: iter of {c} nodes");
    ck!(n, t.dfs_post_iter().eq(m.post.iter().map(|&i| m.nodes[i])), true, "B={B}: dfs_post_iter of {c} nodes");
    let mut r = Rng::new(seed);
    let idx = sample(c, &mut r);
    // post-order index of every node: position in m.post
    let mut ppos = vec![0; c];
    for (k, &i) in m.post.iter().enumerate() {
        ppos[i] = k;
    }
    let mut work = 0usize;
    for &i in &idx {
        let p = m.nodes[i];
        let sz = m.size[i];
        if work < 400_000 || sz < 50 {
            work += sz;
            ck!(n, t.subtree_iter(p).eq(m.nodes[i..i + sz].iter().copied()), true, "B={B}: subtree_iter({p}) of {c} nodes");
            let k = ppos[i];
            ck!(n, t.subtree_post_iter(p).eq(m.post[k + 1 - sz..=k].iter().map(|&i| m.nodes[i])), true, "B={B}: subtree_post_iter({p}) of {c} nodes");
        }
        if work < 800_000 || m.children[i].len() < 50 {
            work += m.children[i].len();
            ck!(n, t.children(p).eq(m.children[i].iter().map(|&j| m.nodes[j])), true, "B={B}: children({p}) of {c} nodes");
            ck!(n, t.rev_children(p).eq(m.children[i].iter().rev().map(|&j| m.nodes[j])), true, "B={B}: rev_children({p}) of {c} nodes");
        }
        let d = m.depth[i] as usize;
        let lv = &m.levels[d];
        let k = m.level_pos[i];
        ck!(n, t.level_next(p), lv.get(k + 1).map(|&j| m.nodes[j]), "B={B}: level_next({p}) of {c} nodes");
        ck!(n, t.level_prev(p), if k > 0 { Some(m.nodes[lv[k - 1]]) } else { None }, "B={B}: level_prev({p}) of {c} nodes");
        // ancestors
        let mut steps = vec![0usize, 1, 2, d, d + 1, d / 2];
        steps.push(r.below(d + 3));
        for s in steps {
            let mut a = Some(i);
            for _ in 0..s {
                a = a.and_then(|x| m.parent[x]);
                if a.is_none() {
                    break;
                }
            }
            ck!(n, t.level_ancestor(p, s as u64), a.map(|x| m.nodes[x]), "B={B}: level_ancestor({p},{s}) of {c} nodes");
        }
    }
    let lvls: Vec<usize> = if m.levels.len() < 300 { (0..m.levels.len() + 3).collect() } else { (0..200).map(|_| r.below(m.levels.len() + 2)).chain([0, 1, m.levels.len() - 1, m.levels.len()]).collect() };
    for d in lvls {
        let lv = m.levels.get(d);
        ck!(n, t.level_leftmost(d as u64), lv.map(|v| m.nodes[v[0]]), "B={B}: level_leftmost({d}) of {c} nodes");
        ck!(n, t.level_rightmost(d as u64), lv.map(|v| m.nodes[*v.last().unwrap()]), "B={B}: level_rightmost({d}) of {c} nodes");
    }
    ck!(n, t.clone().into_iter().eq(m.nodes.iter().copied()), true, "B={B}: into_iter of {c} nodes");
    let bv: BitVec = t.into();
    ck!(n, bv == mk_bv(bits, 0), true, "B={B}: builder yields the sequence of calls");
    Ok(n)
}

fn builder(seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let mut r = Rng::new(seed);
    let mut b: BpBuilder<16> = BpBuilder::new();
    let len = r.below(300);
    let mut ex = 0i64;
    let mut bits = vec![];
    let p = r.range(1, 9);
    for _ in 0..len {
        let up = r.chance(p, 10);
        if up {
            b.enter_node();
            ex += 1;
        } else {
            b.leave_node();
            ex -= 1;
        }
        bits.push(up);
    }
    if r.chance(1, 3) {
        while ex != 0 {
            let up = ex < 0;
            if up {
                b.enter_node();
            } else {
                b.leave_node();
            }
            ex += if up { 1 } else { -1 };
            bits.push(up);
        }
    }
    match b.build() {
        Ok(t) => {
            ck!(n, ex, 0, "unbalanced sequence accepted");
            let bv: BitVec = t.into();
            ck!(n, bv == mk_bv(&bits, 0), true, "builder yields the sequence of calls");
        }
        Err(e) => ck!(n, e, ex, "excess reported for unbalanced sequence"),
    }
    Ok(n)
}
