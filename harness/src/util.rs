//! Deterministic random numbers, case strings and bit pattern generators.
use vers_vecs::BitVec;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub struct Case<'a>(pub &'a str);
impl<'a> Case<'a> {
    pub fn get(&self, key: &str) -> Option<&'a str> {
        self.0.split(';').find_map(|kv| {
            let (k, v) = kv.split_once('=')?;
            (k == key).then_some(v)
        })
    }
    pub fn s(&self, key: &str) -> &'a str {
        self.get(key).unwrap_or_else(|| panic!("CASE-SYNTAX: no {key}"))
    }
    pub fn n(&self, key: &str) -> usize {
        self.s(key).parse().unwrap_or_else(|_| panic!("CASE-SYNTAX: bad {key}"))
    }
}

pub const KINDS: &[&str] = &[
    "zeros", "ones", "alt", "alt2", "r2", "r16", "r16n", "r64", "r64n", "r1024", "r1024n", "runs300", "runs9000",
    "halfz", "halfo", "blk", "sblk", "wrd", "one1", "one0", "ends", "endz", "blktail", "last1", "last0",
];

/// reproducible bit pattern
pub fn gen_bits(kind: &str, len: usize, seed: u64) -> Vec<bool> {
    let mut r = Rng::new(seed ^ (len as u64) << 20);
    let mut v = vec![false; len];
    let dens = |v: &mut Vec<bool>, r: &mut Rng, num: usize, den: usize| {
        for b in v.iter_mut() {
            *b = r.chance(num, den);
        }
    };
    match kind {
        "zeros" => {}
        "ones" => v.iter_mut().for_each(|b| *b = true),
        "alt" => v.iter_mut().enumerate().for_each(|(i, b)| *b = i % 2 == 1),
        "alt2" => v.iter_mut().enumerate().for_each(|(i, b)| *b = i % 2 == 0),
        "r2" => dens(&mut v, &mut r, 1, 2),
        "r16" => dens(&mut v, &mut r, 1, 16),
        "r16n" => dens(&mut v, &mut r, 15, 16),
        "r64" => dens(&mut v, &mut r, 1, 64),
        "r64n" => dens(&mut v, &mut r, 63, 64),
        "r1024" => dens(&mut v, &mut r, 1, 1024),
        "r1024n" => dens(&mut v, &mut r, 1023, 1024),
        "runs300" | "runs9000" => {
            let m = if kind == "runs300" { 300 } else { 9000 };
            let mut bit = r.chance(1, 2);
            let mut left = r.range(1, 2 * m);
            for b in v.iter_mut() {
                if left == 0 {
                    bit = !bit;
                    left = r.range(1, 2 * m);
                }
                left -= 1;
                *b = bit;
            }
        }
        "halfz" => (len / 2..len).for_each(|i| v[i] = true),
        "halfo" => (0..len / 2).for_each(|i| v[i] = true),
        "blk" | "sblk" | "wrd" => {
            let w = match kind {
                "blk" => 512,
                "sblk" => 8192,
                _ => 64,
            };
            let mut i = 0;
            while i < len {
                let m = r.below(5);
                for j in i..(i + w).min(len) {
                    v[j] = match m {
                        0 => false,
                        1 => true,
                        2 => r.chance(1, 2),
                        3 => j == i,
                        _ => j + 1 == i + w,
                    };
                }
                i += w;
            }
        }
        "one1" | "one0" => {
            if kind == "one0" {
                v.iter_mut().for_each(|b| *b = true);
            }
            if len > 0 {
                let p = r.below(len);
                v[p] = !v[p];
            }
        }
        "ends" | "endz" => {
            if kind == "endz" {
                v.iter_mut().for_each(|b| *b = true);
            }
            if len > 0 {
                v[0] = !v[0];
                if len > 1 {
                    v[len - 1] = !v[len - 1];
                }
            }
        }
        "blktail" => {
            // sparse start, dense tail
            for (i, b) in v.iter_mut().enumerate() {
                *b = if i * 10 < len * 9 { r.chance(1, 2000) } else { r.chance(9, 10) };
            }
        }
        "last1" => {
            if len > 0 {
                v[len - 1] = true;
            }
        }
        "last0" => {
            v.iter_mut().for_each(|b| *b = true);
            if len > 0 {
                v[len - 1] = false;
            }
        }
        _ => panic!("CASE-SYNTAX: kind {kind}"),
    }
    v
}

/// Build a BitVec denoting `bits` in one of several ways, some of which leave residue behind the end.
/// how: 0 append, 1 limbs + drop_last (residue ones), 2 split_at left half, 3 append_bits chunks,
/// 4 split_at right half with residue, 5 limbs + drop_last (residue random)
pub fn mk_bv(bits: &[bool], how: usize) -> BitVec {
    let limbs = |pad: &mut dyn FnMut() -> bool| -> Vec<u64> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < bits.len() {
            let mut w = 0u64;
            for k in 0..64 {
                let b = if i + k < bits.len() { bits[i + k] } else { pad() };
                if b {
                    w |= 1 << k;
                }
            }
            out.push(w);
            i += 64;
        }
        out
    };
    match how {
        0 => {
            let mut bv = BitVec::new();
            bits.iter().for_each(|&b| bv.append(b));
            bv
        }
        1 => {
            let l = limbs(&mut || true);
            let n = l.len() * 64;
            let mut bv = BitVec::from_vec(l);
            bv.drop_last(n - bits.len());
            bv
        }
        2 => {
            let mut l = limbs(&mut || true);
            l.push(u64::MAX);
            l.push(0x5555_AAAA_5555_AAAA);
            BitVec::from_vec(l).split_at(bits.len()).unwrap().0
        }
        3 => {
            let mut bv = BitVec::new();
            let mut r = Rng::new(bits.len() as u64 + 77);
            let mut i = 0;
            while i < bits.len() {
                let n = r.range(1, 64).min(bits.len() - i);
                let mut w = r.next(); // garbage above n bits
                for k in 0..n {
                    if bits[i + k] {
                        w |= 1 << k;
                    } else {
                        w &= !(1 << k);
                    }
                }
                bv.append_bits(w, n);
                i += n;
            }
            bv
        }
        4 => {
            let mut bv = BitVec::new();
            for k in 0..37 {
                bv.append(k % 3 == 0);
            }
            bits.iter().for_each(|&b| bv.append(b));
            bv.append_word(u64::MAX);
            bv.drop_last(64);
            bv.split_at(37).unwrap().1
        }
        _ => {
            let mut r = Rng::new(bits.len() as u64);
            let l = limbs(&mut || r.chance(1, 2));
            let n = l.len() * 64;
            let mut bv = BitVec::from_vec(l);
            bv.drop_last(n - bits.len());
            bv
        }
    }
}
pub const HOWS: usize = 6;

pub fn ones_upto(bits: &[bool]) -> Vec<usize> {
    let mut v = Vec::with_capacity(bits.len() + 1);
    let mut c = 0;
    v.push(0);
    for &b in bits {
        c += b as usize;
        v.push(c);
    }
    v
}

pub fn word_at(bits: &[bool], pos: usize, len: usize) -> u64 {
    let mut w = 0;
    for k in 0..len {
        if bits[pos + k] {
            w |= 1u64 << k;
        }
    }
    w
}

#[macro_export]
macro_rules! ck {
    ($n:ident, $got:expr, $want:expr, $($arg:tt)*) => {{
        $n += 1;
        let g = $got;
        let w = $want;
        if g != w {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), g, w));
        }
    }};
}

/// lengths around structural boundaries
pub fn boundary_lens() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=130).collect();
    for b in [192usize, 256, 320, 448, 512, 576, 1024, 4096, 8128, 8192, 16384, 24576, 65536] {
        for d in [-64i64, -2, -1, 0, 1, 2, 63, 64] {
            v.push((b as i64 + d) as usize);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
