//! Concrete checks of what the proofs assume about the standard library: boundary values and seeded random values.
use crate::util::Rng;

fn flog(x: u64) -> u64 {
    // as the code under test writes it
    (x as f64).log2().ceil() as u64
}

fn fits(x: u64, k: u64) -> bool {
    // 2^(k-1) < x <= 2^k
    (x as u128) <= 1u128 << k && (k == 0 || (1u128 << (k - 1)) < x as u128)
}

fn words(seed: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let mut v = vec![0, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63];
    for k in 0..64 {
        for d in 0..4 {
            v.push((1u64 << k).wrapping_add(d));
            v.push((1u64 << k).wrapping_sub(d));
        }
    }
    for _ in 0..20000 {
        v.push(r.next() >> (r.next() % 64));
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(seed: u64) -> Result<u64, String> {
    let mut n = 0u64;
    let mut ck = |ok: bool, what: &str, x: u64| {
        n += 1;
        if ok { Ok(()) } else { Err(format!("{what} at {x}")) }
    };
    let pop = |x: u64| (0..64).filter(|j| x >> j & 1 == 1).count() as u32;
    let mut last = 0;
    for x in words(seed) {
        if x >= 1 {
            let f = flog(x);
            ck(f >= last && f <= 64, "f64 log2 is not monotone", x)?;
            ck((x as u128) <= 2 << f && (1u128 << f) <= 2 * x as u128, "f64 log2 is off by more than one", x)?;
            ck(x > 1 << 40 || fits(x, f), "f64 log2 is inexact below 2^40", x)?;
            last = f;
        }
        ck(x.count_ones() == pop(x) && x.count_zeros() == 64 - pop(x), "u64::count_ones", x)?;
        ck((x as u8).count_ones() == pop(x & 255) && (x as u8).count_zeros() == 8 - pop(x & 255), "u8::count_ones", x)?;
        ck((x as u16).count_ones() == pop(x & 65535) && (x as u16).count_zeros() == 16 - pop(x & 65535), "u16::count_ones", x)?;
        let w = x as u128 * 0x1_0000_0001;
        ck(w.count_ones() == pop(w as u64) + pop((w >> 64) as u64), "u128::count_ones", x)?;
        ck((0..64).all(|j| (x.reverse_bits() >> j & 1) == (x >> (63 - j) & 1)), "usize::reverse_bits", x)?;
        ck(x.wrapping_neg() == (!x).wrapping_add(1), "u64::wrapping_neg", x)?;
        for s in 0..70 {
            ck(x.checked_shl(s) == if s < 64 { Some(x << s) } else { None }, "u64::checked_shl", x)?;
            ck(w.checked_shl(2 * s) == if 2 * s < 128 { Some(w << (2 * s)) } else { None }, "u128::checked_shl", x)?;
        }
        if x <= 1 << 63 {
            let p = (x as usize).next_power_of_two();
            ck(p.is_power_of_two() && fits(x.max(1), (0..64).find(|k| p == 1 << k).unwrap()), "usize::next_power_of_two", x)?;
        }
        let u = x as usize;
        ck(u.trailing_zeros() == (0..64).find(|j| u >> j & 1 == 1).unwrap_or(64), "usize::trailing_zeros", x)?;
        ck(u.leading_zeros() == (0..64).find(|j| u >> (63 - j) & 1 == 1).unwrap_or(64), "usize::leading_zeros", x)?;
        for d in [1usize, 2, 3, 7, 64, 512, 8192] {
            ck(u.div_ceil(d) as u128 == (u as u128 + d as u128 - 1) / d as u128, "usize::div_ceil", x)?;
        }
        let i = x as i64;
        ck(i == i64::MIN || i.abs() == if i < 0 { -i } else { i }, "i64::abs", x)?;
        let z = x as isize;
        ck(z.unsigned_abs() as i128 == if z < 0 { -(z as i128) } else { z as i128 }, "isize::unsigned_abs", x)?;
        for y in [0u64, 1, 5, x / 2, !x, 1 << 63, u64::MAX] {
            let (a, b, j) = (x as u128, y as u128, y as i64);
            ck(u.abs_diff(y as usize) as u128 == if a >= b { a - b } else { b - a } && x.abs_diff(y) as u128 == if a >= b { a - b } else { b - a }, "abs_diff", x)?;
            let (a, b) = (i as i128, j as i128);
            ck(i.abs_diff(j) as i128 == if a >= b { a - b } else { b - a }, "i64::abs_diff", x)?;
            ck(i.saturating_add(j) as i128 == (a + b).clamp(i64::MIN as i128, i64::MAX as i128), "i64::saturating_add", x)?;
            ck(i.saturating_sub(j) as i128 == (a - b).clamp(i64::MIN as i128, i64::MAX as i128), "i64::saturating_sub", x)?;
        }
        ck(i.unsigned_abs() as i128 == if i < 0 { -(i as i128) } else { i as i128 } && i.signum() == (i > 0) as i64 - (i < 0) as i64, "i64::unsigned_abs, signum", x)?;
        for d in [1usize, 2, 3, 8, 64] {
            if u < 1 << 60 {
                ck(u.next_multiple_of(d) == (u + d - 1) / d * d, "usize::next_multiple_of", x)?;
            }
        }
        if let Some(nz) = std::num::NonZeroUsize::new(u) {
            ck(nz.checked_add(1).map(|y| y.get()) == u.checked_add(1), "NonZeroUsize::checked_add", x)?;
        }
    }
    n += intrinsics(seed)?;
    let mut ck = |ok: bool, what: &str, x: u64| {
        n += 1;
        if ok { Ok(()) } else { Err(format!("{what} at {x}")) }
    };
    // adapters: skip, take and map, as the traversals chain them
    for len in 0..12usize {
        for s in 0..14 {
            for t in 0..14 {
                let v: Vec<usize> = (0..len).collect();
                let got: Vec<usize> = v.iter().copied().skip(s).take(t).map(|x| 3 * x).collect();
                let want: Vec<usize> = (s..len.min(s + t)).map(|x| 3 * v[x]).collect();
                ck(got == want, "skip/take/map", len as u64)?;
            }
        }
        let b: Box<[usize]> = (0..len).collect::<Vec<_>>().into_boxed_slice();
        ck(b.len() == len && (0..len).all(|i| b[i] == i), "into_boxed_slice / collect of a range", len as u64)?;
    }
    Ok(n)
}

/// the x86 intrinsics, by their documented meaning
#[allow(unused_variables, unused_mut)]
fn intrinsics(seed: u64) -> Result<u64, String> {
    let mut n = 0;
    #[cfg(target_feature = "bmi2")]
    {
        let v = words(seed);
        for (i, &m) in v.iter().enumerate() {
            let x = v[(i * 7919) % v.len()];
            let (mut want, mut k) = (0u64, 0);
            for p in 0..64 {
                if m >> p & 1 == 1 {
                    want |= (x >> k & 1) << p;
                    k += 1;
                }
            }
            n += 1;
            if unsafe { core::arch::x86_64::_pdep_u64(x, m) } != want {
                return Err(format!("_pdep_u64 at {x} {m}"));
            }
        }
    }
    #[cfg(all(target_feature = "avx512vl", target_feature = "avx512bw", target_feature = "avx512f"))]
    unsafe {
        use core::arch::x86_64::*;
        let mut r = Rng::new(seed);
        for _ in 0..2000 {
            let sh = r.next() % 16;
            let a: [u16; 16] = core::array::from_fn(|_| (r.next() as u16) >> sh);
            let b: [u16; 16] = core::array::from_fn(|i| if r.next() % 4 == 0 { a[i] } else { (r.next() as u16) >> sh });
            let (va, vb) = (_mm256_loadu_epi16(a.as_ptr() as *const i16), _mm256_loadu_epi16(b.as_ptr() as *const i16));
            let lanes = |v: __m256i| core::mem::transmute::<__m256i, [u16; 16]>(v);
            let m = _mm256_cmpgt_epu16_mask(va, vb);
            let c: [i16; 16] = core::array::from_fn(|i| a[i] as i16);
            let set = _mm256_set_epi16(c[15], c[14], c[13], c[12], c[11], c[10], c[9], c[8], c[7], c[6], c[5], c[4], c[3], c[2], c[1], c[0]);
            let w: [i32; 16] = core::array::from_fn(|_| r.next() as i32);
            let v512 = _mm512_setr_epi32(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15]);
            let mask = r.next() as u16;
            let mut to: [u32; 16] = core::array::from_fn(|_| r.next() as u32);
            let old = to;
            _mm512_mask_compressstoreu_epi32(to.as_mut_ptr() as *mut _, mask, v512);
            let kept: Vec<u32> = (0..16).filter(|k| mask >> k & 1 == 1).map(|k| w[k] as u32).collect();
            let ok = lanes(va) == a
                && (0..16).all(|k| (m >> k & 1 == 1) == (a[k] > b[k]))
                && (0..16).all(|k| lanes(_mm256_sub_epi16(va, vb))[k] == a[k].wrapping_sub(b[k]))
                && lanes(_mm256_set1_epi16(c[3])) == [a[3]; 16]
                && lanes(set) == a
                && to[..kept.len()] == kept[..]
                && to[kept.len()..] == old[kept.len()..];
            n += 1;
            if !ok {
                return Err(format!("AVX-512 intrinsics at {a:?} {b:?} {mask}"));
            }
        }
    }
    Ok(n)
}
