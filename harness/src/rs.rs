use crate::ck;
use crate::iters::*;
use crate::util::*;
use vers_vecs::{BitVec, RsVec};

pub fn cases(prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = Vec::new();
    let mut lens = boundary_lens();
    lens.extend([100_000, 131_072, 131_073, 200_001]);
    match prop {
        "C05" | "C06" => {
            for (i, len) in lens.iter().enumerate() {
                let kinds: Vec<&str> = if *len <= 130 && !thorough {
                    ["zeros", "ones", "r2", "one1", "one0", "ends", "endz", "last1", "last0", "r16"].to_vec()
                } else {
                    KINDS.to_vec()
                };
                for k in kinds {
                    out.push(format!("t={prop};len={len};kind={k};how={};seed={}", i % HOWS, seed));
                }
            }
            let reps = if thorough { 200 } else { 25 };
            for s in 0..reps {
                for k in ["runs300", "runs9000", "sblk", "blk", "blktail", "r1024", "r1024n", "r64"] {
                    for len in [300_000usize, 70_001, 12_345] {
                        out.push(format!("t={prop};len={};kind={k};how={};seed={}", len + 97 * s, s % HOWS, seed * 100 + s as u64));
                    }
                }
            }
            for k in ["runs9000", "sblk", "r1024", "r1024n", "one1", "one0", "halfz", "halfo", "r64", "r64n"] {
                out.push(format!("t={prop};len={};kind={k};how=1;seed={}", 1_500_000 + 13, seed));
            }
            if thorough {
                for k in KINDS {
                    out.push(format!("t={prop};len={};kind={k};how=5;seed={}", 6_000_011, seed));
                }
            }
        }
        "C07" => {
            for (i, len) in lens.iter().enumerate() {
                for k in ["r2", "r16", "r64n", "wrd", "zeros", "ones", "blk"] {
                    out.push(format!("t=C07;len={len};kind={k};how={};seed={}", i % HOWS, seed));
                }
            }
            for len in [4_000_000usize, 4_000_001, 4_100_033] {
                for k in ["r64", "r64n", "r2", "zeros", "ones", "runs9000", "one1", "one0"] {
                    out.push(format!("t=bigeq;len={len};kind={k};how=1;seed={seed}"));
                }
            }
        }
        "C08" => {
            let kinds = ["zeros", "ones", "r2", "r16", "r16n", "r64", "r64n", "r1024", "r1024n", "blk", "sblk", "runs300", "runs9000", "one1", "one0", "ends", "endz", "blktail", "halfz", "halfo"];
            let reps = if thorough { 60 } else { 6 };
            for s in 0..reps {
                for k in kinds {
                    for len in [0usize, 1, 2, 63, 64, 65, 100, 511, 512, 513, 1000, 1024, 4000, 8191, 8192, 8193, 10_000, 16_384, 20_000, 33_000, 66_000] {
                        if len < 64 && s > 0 {
                            continue;
                        }
                        out.push(format!("t=C08;len={len};kind={k};how={};seed={};reps=6", s % HOWS, seed * 50 + s as u64));
                    }
                }
            }
            for k in ["r1024", "r1024n", "runs9000", "sblk", "r64"] {
                out.push(format!("t=C08;len=400000;kind={k};how=0;seed={seed};reps=12"));
            }
        }
        _ => unreachable!(),
    }
    out
}

pub fn run(_prop: &str, c: &Case) -> Result<u64, String> {
    let bits = gen_bits(c.s("kind"), c.n("len"), c.n("seed") as u64);
    let bv = mk_bv(&bits, c.n("how"));
    match c.s("t") {
        "C05" => rank(&RsVec::from_bit_vec(bv), &bits),
        "C06" => select(&RsVec::from_bit_vec(bv), &bits),
        "C07" => access(bv, &bits, c.n("seed") as u64),
        "bigeq" => bigeq(bv, &bits, c.n("seed") as u64),
        "C08" => select_iters(RsVec::from_bit_vec(bv), &bits, c.n("seed") as u64, c.n("reps")),
        _ => panic!("CASE-SYNTAX"),
    }
}

fn rank(rs: &RsVec, bits: &[bool]) -> Result<u64, String> {
    let mut n = 0;
    let ones = ones_upto(bits);
    ck!(n, rs.len(), bits.len(), "len");
    ck!(n, rs.is_empty(), bits.is_empty(), "is_empty");
    for i in 0..=bits.len() {
        ck!(n, rs.rank1(i), ones[i], "rank1({i}) of {} bits", bits.len());
        ck!(n, rs.rank0(i), i - ones[i], "rank0({i}) of {} bits", bits.len());
    }
    let t = ones[bits.len()];
    for d in [1, 2, 63, 64, 512, 8192, 100_000] {
        ck!(n, rs.rank1(bits.len() + d), t, "rank1(len+{d}) of {} bits", bits.len());
        ck!(n, rs.rank0(bits.len() + d), bits.len() - t, "rank0(len+{d}) of {} bits", bits.len());
    }
    ck!(n, rs.rank1(usize::MAX), t, "rank1(MAX)");
    ck!(n, rs.rank0(usize::MAX), bits.len() - t, "rank0(MAX)");
    Ok(n)
}

fn select(rs: &RsVec, bits: &[bool]) -> Result<u64, String> {
    let mut n = 0;
    let (mut c0, mut c1) = (0, 0);
    for (i, &b) in bits.iter().enumerate() {
        if b {
            ck!(n, rs.select1(c1), i, "select1({c1}) of {} bits", bits.len());
            c1 += 1;
        } else {
            ck!(n, rs.select0(c0), i, "select0({c0}) of {} bits", bits.len());
            c0 += 1;
        }
    }
    for d in [0usize, 1, 2, 63, 512, 8191, 8192, 8193, 100_000] {
        ck!(n, rs.select1(c1 + d), bits.len(), "select1(ones+{d}) of {} bits", bits.len());
        ck!(n, rs.select0(c0 + d), bits.len(), "select0(zeros+{d}) of {} bits", bits.len());
    }
    ck!(n, rs.select1(usize::MAX), bits.len(), "select1(MAX)");
    ck!(n, rs.select0(usize::MAX), bits.len(), "select0(MAX)");
    Ok(n)
}

fn access(bv: BitVec, bits: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let len = bits.len();
    let rs = RsVec::from(bv);
    for (i, &b) in bits.iter().enumerate() {
        ck!(n, rs.get(i), Some(b as u64), "get({i}) of {len} bits");
        ck!(n, rs.get_unchecked(i), b as u64, "get_unchecked({i}) of {len} bits");
    }
    for i in [len, len + 1, len + 63, len + 64, len + 9000, usize::MAX] {
        ck!(n, rs.get(i), None, "get({i}) of {len} bits");
    }
    for p in 0..=len {
        if len > 200 && p % 64 > 1 && p % 64 < 62 && p + 66 < len && p % 37 != 0 {
            continue;
        }
        if len > 9000 && p % 512 > 66 && p + 70 < len && p % 61 != 0 {
            continue;
        }
        for w in 0..=66usize {
            let want = if w > 64 || p + w > len { None } else { Some(word_at(bits, p, w)) };
            ck!(n, rs.get_bits(p, w), want, "get_bits({p},{w}) of {len} bits");
            if let Some(x) = want {
                ck!(n, rs.get_bits_unchecked(p, w), x, "get_bits_unchecked({p},{w}) of {len} bits");
            }
        }
    }
    for p in [len + 1, usize::MAX, usize::MAX - 63] {
        for w in [1usize, 64] {
            ck!(n, rs.get_bits(p, w), None, "get_bits({p},{w}) of {len} bits");
        }
    }
    // equality against the same bits with different residue, and against vectors differing in one bit
    let mut r = Rng::new(seed + len as u64);
    for k in 0..HOWS {
        let o = RsVec::from_bit_vec(mk_bv(bits, k));
        n += eq4(&rs, &o, true, &format!("same {len} bits"))?;
    }
    let mut ps: Vec<usize> = vec![0, 1, len / 2, len.saturating_sub(1), len.saturating_sub(2), len.saturating_sub(len % 64 + 1), len - len % 64, len - len % 512];
    for _ in 0..6 {
        ps.push(r.below(len.max(1)));
    }
    for p in ps {
        if p >= len {
            continue;
        }
        let mut o = bits.to_vec();
        o[p] = !o[p];
        let ov = RsVec::from_bit_vec(mk_bv(&o, p % HOWS));
        n += eq4(&rs, &ov, false, &format!("{len} bits differing at {p}"))?;
        // swap two different bits: equal counts, different content
        let q = r.below(len);
        if bits[p] != bits[q] {
            let mut o = bits.to_vec();
            o.swap(p, q);
            let ov = RsVec::from_bit_vec(mk_bv(&o, q % HOWS));
            n += eq4(&rs, &ov, false, &format!("{len} bits, bits {p} and {q} swapped"))?;
        }
        if p + 1 < len && bits[p] != bits[p + 1] {
            let mut o = bits.to_vec();
            o.swap(p, p + 1);
            let ov = RsVec::from_bit_vec(mk_bv(&o, q % HOWS));
            n += eq4(&rs, &ov, false, &format!("{len} bits, bits {p} and {} swapped", p + 1))?;
        }
    }
    let mut o = bits.to_vec();
    o.push(false);
    n += eq4(&rs, &RsVec::from_bit_vec(mk_bv(&o, 0)), false, "length differs")?;
    o[len] = true;
    n += eq4(&rs, &RsVec::from_bit_vec(mk_bv(&o, 1)), false, "length differs")?;
    let back = rs.into_bit_vec();
    ck!(n, back == mk_bv(bits, 0), true, "into_bit_vec of {len} bits equals the original");
    n += crate::bitvec::same(&back, bits, "into_bit_vec")?;
    // the result is a fully functional bit vector again
    let mut back = back;
    back.append_bits(0b101, 3);
    let mut m = bits.to_vec();
    m.extend([true, false, true]);
    ck!(n, back == mk_bv(&m, 0), true, "into_bit_vec + append_bits");
    Ok(n)
}

fn eq4(a: &RsVec, b: &RsVec, want: bool, ctx: &str) -> Result<u64, String> {
    let mut n = 0;
    ck!(n, a == b, want, "==: {ctx}");
    ck!(n, b == a, want, "== (swapped): {ctx}");
    ck!(n, a.full_equals(b), want, "full_equals: {ctx}");
    ck!(n, a.sparse_equals::<true>(b), want, "sparse_equals::<true>: {ctx}");
    ck!(n, a.sparse_equals::<false>(b), want, "sparse_equals::<false>: {ctx}");
    Ok(n)
}

fn bigeq(bv: BitVec, bits: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    let len = bits.len();
    let rs = RsVec::from_bit_vec(bv);
    let o = RsVec::from_bit_vec(mk_bv(bits, 5));
    ck!(n, rs == o, true, "== of the same {len} bits");
    let mut r = Rng::new(seed);
    for p in [0, r.below(len), len - 1] {
        let mut m = bits.to_vec();
        m[p] = !m[p];
        ck!(n, rs == RsVec::from_bit_vec(mk_bv(&m, 1)), false, "== of {len} bits differing at {p}");
    }
    let (p, q) = (r.below(len), r.below(len));
    if bits[p] != bits[q] {
        let mut m = bits.to_vec();
        m.swap(p, q);
        ck!(n, rs == RsVec::from_bit_vec(mk_bv(&m, 1)), false, "== of {len} bits with {p},{q} swapped");
    }
    if let Some(p) = (1..len).rev().find(|&p| bits[p] != bits[p - 1]) {
        let mut m = bits.to_vec();
        m.swap(p, p - 1);
        ck!(n, rs == RsVec::from_bit_vec(mk_bv(&m, 1)), false, "== of {len} bits with {p},{} swapped", p - 1);
    }
    Ok(n)
}

fn select_iters(rs: RsVec, bits: &[bool], seed: u64, reps: usize) -> Result<u64, String> {
    let mut n = 0;
    let z: Vec<usize> = (0..bits.len()).filter(|&i| !bits[i]).collect();
    let o: Vec<usize> = (0..bits.len()).filter(|&i| bits[i]).collect();
    n += exhausted(rs.iter0(), z.len(), "iter0")?;
    n += exhausted(rs.iter1(), o.len(), "iter1")?;
    ck!(n, rs.iter0().eq(z.iter().copied()), true, "iter0 enumeration");
    ck!(n, rs.iter1().eq(o.iter().copied()), true, "iter1 enumeration");
    ck!(n, rs.iter0().rev().eq(z.iter().rev().copied()), true, "iter0 reverse enumeration");
    ck!(n, rs.iter1().rev().eq(o.iter().rev().copied()), true, "iter1 reverse enumeration");
    ck!(n, rs.select_iter::<true>().eq(z.iter().copied()), true, "select_iter::<true>");
    ck!(n, rs.select_iter::<false>().eq(o.iter().copied()), true, "select_iter::<false>");
    for k in 0..reps as u64 {
        let s = seed * 1000 + k;
        n += interleave(rs.iter0(), &z, s, "iter0")?;
        n += interleave(rs.iter1(), &o, s + 500, "iter1")?;
        n += interleave(rs.clone().into_iter0(), &z, s + 250, "into_iter0")?;
        n += interleave(rs.clone().into_iter1(), &o, s + 750, "into_iter1")?;
        n += interleave(rs.clone().into_select_iter::<true>(), &z, s + 251, "into_select_iter0")?;
        n += interleave(rs.clone().into_select_iter::<false>(), &o, s + 751, "into_select_iter1")?;
        // cloning an iterator in the middle keeps both independent
        let mut it = rs.iter1();
        let skip = (s as usize * 7919) % (o.len() + 1);
        if skip > 0 {
            it.nth(skip - 1);
        }
        n += interleave(it.clone(), &o[skip..], s, "cloned iter1")?;
        n += interleave(it, &o[skip..], s + 1, "iter1 after clone")?;
    }
    #[cfg(all(feature = "simd", target_feature = "avx512bw"))]
    {
        ck!(n, rs.bit_set_iter0().eq(z.iter().copied()), true, "bit_set_iter0 enumeration");
        ck!(n, rs.bit_set_iter1().eq(o.iter().copied()), true, "bit_set_iter1 enumeration");
    }
    Ok(n)
}
