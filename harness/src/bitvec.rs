use crate::ck;
use crate::util::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vers_vecs::BitVec;

pub fn cases(prop: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut out = Vec::new();
    let mul = if thorough { 100 } else { 10 };
    match prop {
        "C01" => {
            for i in 0..(1500 * mul) as u64 {
                out.push(format!("t=hist;seed={};steps=60", seed * 1_000_003 + i));
            }
            for i in 0..(60 * mul) as u64 {
                out.push(format!("t=hist;seed={};steps=600", seed * 1_000_003 + 700_000 + i));
            }
            for i in 0..(300 * mul) as u64 {
                out.push(format!("t=ctor;seed={}", seed * 1_000_003 + i));
            }
            for len in 0..=200usize {
                out.push(format!("t=split;len={len};seed={}", seed + len as u64));
            }
        }
        "C02" => {
            for len in boundary_lens() {
                if len > 20_000 && !thorough {
                    continue;
                }
                for (ki, kind) in ["r2", "ones", "zeros", "wrd", "last1"].iter().enumerate() {
                    if len > 2000 && ki > 1 && !thorough {
                        continue;
                    }
                    out.push(format!("t=read;len={len};kind={kind};how={};seed={}", (len + ki) % HOWS, seed + 5));
                    out.push(format!("t=read;len={len};kind={kind};how={};seed={}", (len + ki + 3) % HOWS, seed + 6));
                }
            }
            for w in 1..=200 {
                for i in 0..(if w <= 64 { 2 * mul } else { mul }) {
                    out.push(format!("t=pack;w={w};seed={}", seed + i as u64 * 31));
                }
            }
            for i in 0..(200 * mul) as u64 {
                out.push(format!("t=histread;seed={}", seed * 77 + i));
            }
        }
        "C03" => {
            for len in (0..=200usize).chain([255, 256, 257, 511, 512, 513, 640, 1000, 1024, 4096]) {
                for kind in ["r2", "zeros", "ones"] {
                    out.push(format!("t=eq;len={len};kind={kind};seed={}", seed));
                }
            }
            for i in 0..(300 * mul) as u64 {
                out.push(format!("t=eqhist;seed={}", seed * 99 + i));
            }
        }
        "C04" => {
            for len in (0..=200usize).chain([255, 256, 257, 320, 511, 512, 513, 640, 1000, 1024, 1025]) {
                for i in 0..if thorough { 60 } else { 8 } {
                    out.push(format!("t=mask;len={len};seed={};ha={};hb={}", seed + i, (len + i as usize) % HOWS, (len / 7 + 2 * i as usize) % HOWS));
                }
            }
            out.push(format!("t=mismatch;seed={seed}"));
        }
        _ => unreachable!(),
    }
    out
}

pub fn run(prop: &str, c: &Case) -> Result<u64, String> {
    match (prop, c.s("t")) {
        ("C01", "hist") => history(c.n("seed") as u64, c.n("steps")).map(|x| x.0),
        ("C01", "ctor") => ctors(c.n("seed") as u64),
        ("C01", "split") => splits(c.n("len"), c.n("seed") as u64),
        ("C02", "read") => {
            let bits = gen_bits(c.s("kind"), c.n("len"), c.n("seed") as u64);
            reads(&mk_bv(&bits, c.n("how")), &bits)
        }
        ("C02", "pack") => pack(c.n("w"), c.n("seed") as u64),
        ("C02", "histread") => {
            let (n, bv, m) = history(c.n("seed") as u64, 40)?;
            Ok(n + reads(&bv, &m)?)
        }
        ("C03", "eq") => eq(c.n("len"), c.s("kind"), c.n("seed") as u64),
        ("C03", "eqhist") => {
            let (n, bv, m) = history(c.n("seed") as u64, 50)?;
            Ok(n + eq_one(&bv, &m, c.n("seed") as u64)?)
        }
        ("C04", "mask") => mask(c.n("len"), c.n("seed") as u64, c.n("ha"), c.n("hb")),
        ("C04", "mismatch") => mismatch(c.n("seed") as u64),
        _ => panic!("CASE-SYNTAX"),
    }
}

/// full comparison through single bit reads
pub fn same(bv: &BitVec, m: &[bool], ctx: &str) -> Result<u64, String> {
    let mut n = 0;
    ck!(n, bv.len(), m.len(), "{ctx}: len");
    ck!(n, bv.is_empty(), m.is_empty(), "{ctx}: is_empty");
    for (i, &b) in m.iter().enumerate() {
        ck!(n, bv.get(i), Some(b as u64), "{ctx}: get({i})");
    }
    ck!(n, bv.get(m.len()), None, "{ctx}: get(len)");
    Ok(n)
}

fn push_word(m: &mut Vec<bool>, w: u64, n: usize) {
    for k in 0..n {
        m.push((w >> k) & 1 == 1);
    }
}

/// random history; returns (evaluations, vector, model)
pub fn history(seed: u64, steps: usize) -> Result<(u64, BitVec, Vec<bool>), String> {
    let mut r = Rng::new(seed);
    let mut n = 0u64;
    let mut log = String::new();
    let mut m: Vec<bool>;
    let mut bv: BitVec;
    // whether positions >= len in the last limb are known to be zero (precondition of append_bits_unchecked)
    let mut clean = true;
    match r.below(5) {
        0 => {
            bv = BitVec::new();
            m = vec![];
        }
        1 => {
            let l = r.below(300);
            bv = BitVec::from_zeros(l);
            m = vec![false; l];
        }
        2 => {
            let l = r.below(300);
            bv = BitVec::from_ones(l);
            m = vec![true; l];
            clean = false;
        }
        3 => {
            let l: Vec<u64> = (0..r.below(6)).map(|_| r.next()).collect();
            bv = BitVec::from_limbs(&l);
            m = vec![];
            l.iter().for_each(|w| push_word(&mut m, *w, 64));
        }
        _ => {
            bv = BitVec::with_capacity(r.below(1000));
            m = vec![];
        }
    }
    n += same(&bv, &m, "history start")?;
    let mut shrink = 0;
    for step in 0..steps {
        let op = r.below(20);
        if log.len() > 600 {
            let cut = log.len() - 400;
            log = log[cut..].to_string();
        }
        match op {
            0 => {
                let b = r.chance(1, 2);
                log += &format!("append({b}) ");
                bv.append(b);
                m.push(b);
            }
            1 => {
                let w = if r.chance(1, 2) { r.below(2) as u64 } else { r.next() };
                log += &format!("append_bit({w}) ");
                match r.below(4) {
                    0 => bv.append_bit(w),
                    1 => bv.append_bit_u32(w as u32),
                    2 => bv.append_bit_u16(w as u16),
                    _ => bv.append_bit_u8(w as u8),
                }
                m.push(w & 1 == 1);
            }
            2 | 3 => {
                let w = r.next();
                log += &format!("append_word({w:#x}) ");
                bv.append_word(w);
                push_word(&mut m, w, 64);
            }
            4..=7 => {
                let w = if r.chance(1, 4) { u64::MAX } else { r.next() };
                let l = match r.below(4) {
                    0 => 64 - (m.len() % 64),
                    1 => *r.pick(&[0usize, 1, 63, 64]),
                    _ => r.below(65),
                };
                if clean && r.chance(1, 2) {
                    // the unchecked variant additionally requires unused bits to be zero
                    let w = if l == 0 { 0 } else { w & (u64::MAX >> (64 - l)) };
                    log += &format!("append_bits_unchecked({w:#x},{l}) ");
                    bv.append_bits_unchecked(w, l);
                    push_word(&mut m, w, l);
                } else {
                    log += &format!("append_bits({w:#x},{l}) ");
                    bv.append_bits(w, l);
                    clean = false;
                    push_word(&mut m, w, l);
                }
            }
            8 | 9 => {
                let l = r.below(200);
                let o = gen_bits(KINDS[r.below(6)], l, r.next());
                let how = r.below(HOWS);
                let ov = mk_bv(&o, how);
                log += &format!("extend(len {l}, how {how}) ");
                match r.below(3) {
                    0 => bv.extend_bitvec(&ov),
                    1 => bv.extend([&ov]),
                    _ => bv.extend([ov]),
                }
                clean = false;
                m.extend_from_slice(&o);
            }
            10..=12 => {
                let d = match r.below(6) {
                    0 => m.len() + r.below(3),
                    1 => m.len() % 64,
                    2 => r.below(m.len() + 1),
                    3 => r.below(m.len().min(70) + 1),
                    _ => r.below(5),
                };
                log += &format!("drop_last({d}) ");
                bv.drop_last(d);
                clean = false;
                let keep = m.len().saturating_sub(d);
                m.truncate(keep);
            }
            13 | 14 if !m.is_empty() => {
                let p = if r.chance(1, 3) { m.len() - 1 } else { r.below(m.len()) };
                log += &format!("flip({p}) ");
                if r.chance(1, 2) {
                    bv.flip_bit(p);
                } else {
                    bv.flip_bit_unchecked(p);
                }
                m[p] = !m[p];
            }
            15 | 16 if !m.is_empty() => {
                let p = if r.chance(1, 3) { m.len() - 1 } else { r.below(m.len()) };
                let w = if r.chance(1, 2) { r.below(2) as u64 } else { r.next() };
                log += &format!("set({p},{w}) ");
                if r.chance(1, 2) {
                    ck!(n, bv.set(p, w).is_ok(), true, "set({p}) in bounds after {log}");
                } else {
                    bv.set_unchecked(p, w);
                }
                m[p] = w & 1 == 1;
            }
            17 => {
                let p = m.len() + *r.pick(&[0usize, 1, 2, 63, 64, 65, 1000]);
                ck!(n, bv.set(p, 1).is_err(), true, "set({p}) out of bounds after {log}");
                ck!(n, bv.set(usize::MAX, 1).is_err(), true, "set(MAX) out of bounds after {log}");
                log += &format!("set_oob({p}) ");
            }
            18 => {
                let at = match r.below(5) {
                    0 => m.len(),
                    1 => 0,
                    2 => (m.len() / 64) * 64,
                    3 => (r.below(m.len() + 1) / 64) * 64,
                    _ => r.below(m.len() + 1),
                };
                log += &format!("split_at({at}) ");
                let (a, b) = if r.chance(1, 2) {
                    match bv.split_at(at) {
                        Ok(x) => x,
                        Err(_) => return Err(format!("split_at({at}) of {} bits rejected after {log}", m.len())),
                    }
                } else {
                    bv.split_at_unchecked(at)
                };
                n += same(&a, &m[..at], &format!("left half after {log}"))?;
                n += same(&b, &m[at..], &format!("right half after {log}"))?;
                clean = false;
                if r.chance(1, 2) {
                    bv = a;
                    m.truncate(at);
                } else {
                    bv = b;
                    m = m[at..].to_vec();
                }
            }
            19 => {
                let at = m.len() + 1 + *r.pick(&[0usize, 1, 63, 64, 1000]);
                log += &format!("split_oob({at}) ");
                match bv.split_at(at) {
                    Ok(_) => return Err(format!("split_at({at}) of {} bits accepted after {log}", m.len())),
                    Err(b) => bv = b,
                }
            }
            _ => continue,
        }
        if m.len() > 1500 {
            shrink += 1;
            let d = m.len() - 100 - shrink;
            bv.drop_last(d);
            clean = false;
            let keep = m.len() - d;
            m.truncate(keep);
            log += &format!("drop_last({d}) ");
        }
        n += same(&bv, &m, &format!("step {step} after ...{log}"))?;
    }
    Ok((n, bv, m))
}

fn ctors(seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed ^ 0xC0);
    let mut n = 0;
    let l = match r.below(4) {
        0 => r.below(5),
        1 => 64 * r.below(4) + r.below(3),
        2 => 63 + 64 * r.below(3),
        _ => r.below(400),
    };
    let w: Vec<u64> = (0..l).map(|_| if r.chance(1, 2) { r.below(2) as u64 } else { r.next() }).collect();
    let bits: Vec<bool> = w.iter().map(|x| x & 1 == 1).collect();
    n += same(&BitVec::new(), &[], "new")?;
    n += same(&BitVec::default(), &[], "default")?;
    n += same(&BitVec::with_capacity(l), &[], "with_capacity")?;
    n += same(&BitVec::from_zeros(l), &vec![false; l], "from_zeros")?;
    n += same(&BitVec::from_ones(l), &vec![true; l], "from_ones")?;
    n += same(&BitVec::from_bits(&w.iter().map(|&x| x as u8).collect::<Vec<_>>()), &bits, "from_bits")?;
    n += same(&BitVec::from_bits_u16(&w.iter().map(|&x| x as u16).collect::<Vec<_>>()), &bits, "from_bits_u16")?;
    n += same(&BitVec::from_bits_u32(&w.iter().map(|&x| x as u32).collect::<Vec<_>>()), &bits, "from_bits_u32")?;
    n += same(&BitVec::from_bits_u64(&w), &bits, "from_bits_u64")?;
    n += same(&BitVec::from_bits_iter(w.iter().copied()), &bits, "from_bits_iter")?;
    n += same(&BitVec::from_bits_iter(w.iter().map(|&x| x as u8)), &bits, "from_bits_iter u8")?;
    n += same(&BitVec::from_bools(&bits), &bits, "from_bools")?;
    n += same(&BitVec::from_bool_iter(bits.iter().copied()), &bits, "from_bool_iter")?;
    let lw = &w[..l.min(7)];
    let mut lb = vec![];
    lw.iter().for_each(|x| push_word(&mut lb, *x, 64));
    n += same(&BitVec::from_limbs(lw), &lb, "from_limbs")?;
    n += same(&BitVec::from_limbs_iter(lw.iter().copied()), &lb, "from_limbs_iter")?;
    n += same(&BitVec::from_vec(lw.to_vec()), &lb, "from_vec")?;
    n += same(&BitVec::from(lw), &lb, "From<&[u64]>")?;
    n += same(&BitVec::from(lw.to_vec()), &lb, "From<Vec<u64>>")?;
    n += same(&lw.iter().copied().collect::<BitVec>(), &lb, "FromIterator")?;
    let k = r.range(1, 64);
    let pw = &w[..l.min(40)];
    let packed = |k: usize| {
        let mut b = vec![];
        pw.iter().for_each(|x| push_word(&mut b, *x, k));
        b
    };
    n += same(&BitVec::pack_sequence_u64(pw, k), &packed(k), &format!("pack_sequence_u64 {k}"))?;
    n += same(&BitVec::pack_from_iter_u64(pw.iter().copied(), k), &packed(k), &format!("pack_from_iter_u64 {k}"))?;
    let k = r.range(1, 32);
    let v: Vec<u32> = pw.iter().map(|&x| x as u32).collect();
    n += same(&BitVec::pack_sequence_u32(&v, k), &packed(k), &format!("pack_sequence_u32 {k}"))?;
    n += same(&BitVec::pack_from_iter_u32(v.iter().copied(), k), &packed(k), &format!("pack_from_iter_u32 {k}"))?;
    let k = r.range(1, 16);
    let v: Vec<u16> = pw.iter().map(|&x| x as u16).collect();
    n += same(&BitVec::pack_sequence_u16(&v, k), &packed(k), &format!("pack_sequence_u16 {k}"))?;
    n += same(&BitVec::pack_from_iter_u16(v.iter().copied(), k), &packed(k), &format!("pack_from_iter_u16 {k}"))?;
    let k = r.range(1, 8);
    let v: Vec<u8> = pw.iter().map(|&x| x as u8).collect();
    n += same(&BitVec::pack_sequence_u8(&v, k), &packed(k), &format!("pack_sequence_u8 {k}"))?;
    n += same(&BitVec::pack_from_iter_u8(v.iter().copied(), k), &packed(k), &format!("pack_from_iter_u8 {k}"))?;
    Ok(n)
}

fn splits(len: usize, seed: u64) -> Result<u64, String> {
    let bits = gen_bits("r2", len, seed);
    let mut n = 0;
    for how in 0..HOWS {
        for at in 0..=len {
            if (at + how) % 3 != 0 && at % 64 > 2 && at + 3 < len {
                continue;
            }
            let (mut a, mut b) = mk_bv(&bits, how).split_at(at).map_err(|_| format!("split_at({at}) rejected"))?;
            n += same(&a, &bits[..at], &format!("split {len}@{at} left"))?;
            n += same(&b, &bits[at..], &format!("split {len}@{at} right"))?;
            // both halves remain appendable
            a.append_bits(0b0110, 4);
            b.append_bits(0b1001, 4);
            let mut x = bits[..at].to_vec();
            x.extend([false, true, true, false]);
            let mut y = bits[at..].to_vec();
            y.extend([true, false, false, true]);
            n += same(&a, &x, &format!("split {len}@{at} left + 4 bits"))?;
            n += same(&b, &y, &format!("split {len}@{at} right + 4 bits"))?;
        }
    }
    Ok(n)
}

pub fn reads(bv: &BitVec, m: &[bool]) -> Result<u64, String> {
    let mut n = same(bv, m, "reads")?;
    let len = m.len();
    let ones = m.iter().filter(|b| **b).count() as u64;
    ck!(n, bv.count_ones(), ones, "count_ones of {len} bits");
    ck!(n, bv.count_zeros(), len as u64 - ones, "count_zeros of {len} bits");
    for (i, &b) in m.iter().enumerate() {
        ck!(n, bv.is_bit_set(i), Some(b), "is_bit_set({i})");
        ck!(n, bv.is_bit_set_unchecked(i), b, "is_bit_set_unchecked({i})");
        ck!(n, bv.get_unchecked(i), b as u64, "get_unchecked({i})");
    }
    for i in [len, len + 1, len + 63, len + 64, usize::MAX] {
        ck!(n, bv.get(i), None, "get({i}) oob");
        ck!(n, bv.is_bit_set(i), None, "is_bit_set({i}) oob");
    }
    let full = len <= 200;
    for p in 0..=len {
        if !full && p % 64 > 1 && p % 64 < 62 && p + 66 < len && p % 37 != 0 {
            continue;
        }
        for w in 0..=66usize {
            let want = if w == 0 || w > 64 || p + w > len { None } else { Some(word_at(m, p, w)) };
            ck!(n, bv.get_bits(p, w), want, "get_bits({p},{w}) of {len} bits");
            if let Some(x) = want {
                ck!(n, bv.get_bits_unchecked(p, w), x, "get_bits_unchecked({p},{w}) of {len} bits");
            }
        }
    }
    for p in [len + 1, usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64] {
        for w in [1usize, 2, 63, 64] {
            ck!(n, bv.get_bits(p, w), None, "get_bits({p},{w}) oob");
        }
    }
    for w in 1..=64usize {
        for i in (0..=len / w + 1).filter(|i| full || i % 13 == 0 || (i + 2) * w > len) {
            let want = if i * w + w <= len { Some(word_at(m, i * w, w)) } else { None };
            ck!(n, bv.unpack_element(i, w), want, "unpack_element({i},{w}) of {len} bits");
            if let Some(x) = want {
                ck!(n, bv.unpack_element_unchecked(i, w), x, "unpack_element_unchecked({i},{w})");
            }
        }
        ck!(n, bv.unpack_element(usize::MAX, w), None, "unpack_element(MAX,{w})");
        ck!(n, bv.unpack_element(usize::MAX / 2 + 1, w), None, "unpack_element(2^63,{w})");
        if w > 1 {
            ck!(n, bv.unpack_element(usize::MAX / w + 1, w), None, "unpack_element(MAX/{w}+1,{w})");
        }
    }
    Ok(n)
}

fn pack(w: usize, seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(seed * 64 + w as u64);
    let mut n = 0;
    let seq: Vec<u64> = (0..r.range(1, 150))
        .map(|_| match r.below(4) {
            0 => u64::MAX,
            1 => 0,
            _ => r.next(),
        })
        .collect();
    macro_rules! all {
        ($t:ty, $seqf:ident, $itf:ident) => {
            let s: Vec<$t> = seq.iter().map(|&x| x as $t).collect();
            let a = BitVec::$seqf(&s, w);
            let b = BitVec::$itf(s.iter().copied(), w);
            for (bv, nm) in [(&a, stringify!($seqf)), (&b, stringify!($itf))] {
                ck!(n, bv.len(), s.len() * w, "length of {nm} of {} elements with width {w}", s.len());
                for (i, &x) in s.iter().enumerate() {
                    let x = x as u64;
                    if w <= 64 {
                        ck!(n, bv.unpack_element(i, w), Some(x & (u64::MAX >> (64 - w))), "unpack_element({i},{w}) of {nm}");
                    } else {
                        ck!(n, bv.get_bits(i * w, 64), Some(x), "the low bits of element {i} of {nm} with width {w}");
                        let mut at = 64;
                        while at < w {
                            let l = (w - at).min(64);
                            ck!(n, bv.get_bits(i * w + at, l), Some(0), "the padding of element {i} of {nm} with width {w}");
                            at += l;
                        }
                    }
                }
                ck!(n, bv.unpack_element(s.len(), w), None, "unpack_element(end,{w}) of {nm}");
            }
        };
    }
    all!(u64, pack_sequence_u64, pack_from_iter_u64);
    all!(u32, pack_sequence_u32, pack_from_iter_u32);
    all!(u16, pack_sequence_u16, pack_from_iter_u16);
    all!(u8, pack_sequence_u8, pack_from_iter_u8);
    Ok(n)
}

fn h(bv: &BitVec) -> u64 {
    let mut s = DefaultHasher::new();
    bv.hash(&mut s);
    s.finish()
}

fn eq(len: usize, kind: &str, seed: u64) -> Result<u64, String> {
    let bits = gen_bits(kind, len, seed);
    let mut n = 0;
    let vs: Vec<BitVec> = (0..HOWS).map(|k| mk_bv(&bits, k)).collect();
    for (i, a) in vs.iter().enumerate() {
        for (j, b) in vs.iter().enumerate() {
            ck!(n, a == b, true, "equality of same {len} bits built by methods {i} and {j}");
            ck!(n, h(a) == h(b), true, "hash of same {len} bits built by methods {i} and {j}");
        }
    }
    // any single differing bit makes them unequal
    for p in 0..len {
        if len > 200 && p % 64 > 1 && p % 64 < 62 && p % 29 != 0 {
            continue;
        }
        let mut o = bits.clone();
        o[p] = !o[p];
        let b = mk_bv(&o, p % HOWS);
        ck!(n, vs[(p + 1) % HOWS] == b, false, "equality of {len}-bit vectors differing at {p}");
        ck!(n, b == vs[(p + 1) % HOWS], false, "equality of {len}-bit vectors differing at {p}");
    }
    let mut o = bits.clone();
    o.push(false);
    for k in 0..HOWS {
        ck!(n, vs[k] == mk_bv(&o, k), false, "equality of {len} and {} bits", len + 1);
        if len > 0 {
            ck!(n, vs[k] == mk_bv(&bits[..len - 1], k), false, "equality of {len} and {} bits", len - 1);
        }
    }
    Ok(n)
}

fn eq_one(bv: &BitVec, m: &[bool], seed: u64) -> Result<u64, String> {
    let mut n = 0;
    for k in 0..HOWS {
        let o = mk_bv(m, k);
        ck!(n, *bv == o, true, "equality of {} bits built by a history and by method {k}", m.len());
        ck!(n, h(bv) == h(&o), true, "hash of {} bits built by a history and by method {k}", m.len());
    }
    let mut r = Rng::new(seed);
    if !m.is_empty() {
        for i in 0..80 {
            let p = if i < 70 { m.len() - 1 - i.min(m.len() - 1) } else { r.below(m.len()) };
            let mut o = m.to_vec();
            o[p] = !o[p];
            ck!(n, *bv == mk_bv(&o, p % HOWS), false, "equality of {}-bit vectors differing at {p}", m.len());
        }
    }
    Ok(n)
}

fn check_masked<F: Fn(u64, u64) -> u64>(mv: &vers_vecs::bit_vec::mask::MaskedBitVec<F>, want: &[bool], name: &str) -> Result<u64, String> {
    let mut n = 0;
    let len = want.len();
    let ones = want.iter().filter(|b| **b).count() as u64;
    ck!(n, mv.count_ones(), ones, "{name} {len} bits: count_ones");
    ck!(n, mv.count_zeros(), len as u64 - ones, "{name} {len} bits: count_zeros");
    n += same(&mv.to_bit_vec(), want, &format!("{name} {len} bits: to_bit_vec"))?;
    for (i, &b) in want.iter().enumerate() {
        ck!(n, mv.get(i), Some(b as u64), "{name} {len} bits: get({i})");
        ck!(n, mv.is_bit_set(i), Some(b), "{name} {len} bits: is_bit_set({i})");
        ck!(n, mv.get_unchecked(i), b as u64, "{name} {len} bits: get_unchecked({i})");
        ck!(n, mv.is_bit_set_unchecked(i), b, "{name} {len} bits: is_bit_set_unchecked({i})");
    }
    for i in [len, len + 1, len + 64, usize::MAX] {
        ck!(n, mv.get(i), None, "{name} {len} bits: get({i})");
        ck!(n, mv.is_bit_set(i), None, "{name} {len} bits: is_bit_set({i})");
    }
    for p in 0..=len {
        for w in 1..=64usize {
            if len > 200 && p % 64 > 1 && p % 64 < 62 && (p + w) % 64 > 1 && (p + w) % 7 != 0 {
                continue;
            }
            let x = if p + w <= len { Some(word_at(want, p, w)) } else { None };
            ck!(n, mv.get_bits(p, w), x, "{name} {len} bits: get_bits({p},{w})");
            if let Some(x) = x {
                ck!(n, mv.get_bits_unchecked(p, w), x, "{name} {len} bits: get_bits_unchecked({p},{w})");
            }
        }
        ck!(n, mv.get_bits(p, 65), None, "{name} {len} bits: get_bits({p},65)");
    }
    for w in [1, 63, 64] {
        ck!(n, mv.get_bits(usize::MAX, w), None, "{name}: get_bits(MAX,{w})");
    }
    Ok(n)
}

fn mask(len: usize, seed: u64, ha: usize, hb: usize) -> Result<u64, String> {
    let mut r = Rng::new(seed + len as u64);
    let ka = *r.pick(&["r2", "ones", "zeros", "alt", "r16", "wrd"]);
    let kb = *r.pick(&["r2", "ones", "zeros", "alt2", "r16n", "wrd"]);
    let a = gen_bits(ka, len, seed + 1);
    let b = gen_bits(kb, len, seed + 2);
    let (va, vb) = (mk_bv(&a, ha), mk_bv(&b, hb));
    let mut n = 0;
    let z = |f: &dyn Fn(bool, bool) -> bool| -> Vec<bool> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
    let (or, and, xor) = (z(&|x, y| x | y), z(&|x, y| x & y), z(&|x, y| x ^ y));
    let nor = z(&|x, y| !(x | y));
    let nimp = z(&|x, y| x & !y);
    n += check_masked(&va.mask_or(&vb)?, &or, "or")?;
    n += check_masked(&va.mask_and(&vb)?, &and, "and")?;
    n += check_masked(&va.mask_xor(&vb)?, &xor, "xor")?;
    n += check_masked(&va.mask_custom(&vb, |x, y| !(x | y))?, &nor, "nor")?;
    n += check_masked(&va.mask_custom(&vb, |x, y| x & !y)?, &nimp, "andnot")?;
    let mut e = va.clone();
    e.apply_mask_or(&vb)?;
    n += same(&e, &or, "apply or")?;
    let mut e = va.clone();
    e.apply_mask_and(&vb)?;
    n += same(&e, &and, "apply and")?;
    let mut e = va.clone();
    e.apply_mask_xor(&vb)?;
    n += same(&e, &xor, "apply xor")?;
    ck!(n, e.count_ones(), xor.iter().filter(|x| **x).count() as u64, "count after apply xor");
    let mut e = va.clone();
    e.apply_mask_custom(&vb, |x, y| !(x | y))?;
    n += same(&e, &nor, "apply nor")?;
    ck!(n, e.count_ones(), nor.iter().filter(|x| **x).count() as u64, "count after apply nor");
    ck!(n, e == va.mask_custom(&vb, |x, y| !(x | y))?.to_bit_vec(), true, "lazy == eager");
    n += same(&va, &a, "left operand unchanged")?;
    n += same(&vb, &b, "mask unchanged")?;
    Ok(n)
}

fn mismatch(seed: u64) -> Result<u64, String> {
    let mut n = 0;
    for (x, y) in [(0, 1), (1, 0), (64, 65), (65, 64), (63, 64), (100, 101), (128, 64), (10, 20), (192, 1)] {
        let a = gen_bits("r2", x, seed);
        let b = gen_bits("r2", y, seed + 1);
        let (mut va, vb) = (mk_bv(&a, 0), mk_bv(&b, 0));
        ck!(n, va.mask_or(&vb).is_err(), true, "mask_or {x} {y}");
        ck!(n, va.mask_and(&vb).is_err(), true, "mask_and {x} {y}");
        ck!(n, va.mask_xor(&vb).is_err(), true, "mask_xor {x} {y}");
        ck!(n, va.mask_custom(&vb, |p, q| p & q).is_err(), true, "mask_custom {x} {y}");
        ck!(n, va.apply_mask_or(&vb).is_err(), true, "apply_mask_or {x} {y}");
        n += same(&va, &a, "unchanged after rejected or")?;
        ck!(n, va.apply_mask_and(&vb).is_err(), true, "apply_mask_and {x} {y}");
        n += same(&va, &a, "unchanged after rejected and")?;
        ck!(n, va.apply_mask_xor(&vb).is_err(), true, "apply_mask_xor {x} {y}");
        n += same(&va, &a, "unchanged after rejected xor")?;
        ck!(n, va.apply_mask_custom(&vb, |p, q| p & q).is_err(), true, "apply_mask_custom {x} {y}");
        n += same(&va, &a, "unchanged after rejected custom")?;
    }
    Ok(n)
}
