//! Value alphabets

use crate::refint::R;
use std::collections::HashSet;

/// Limb values at which something changes: carries, sign bits, half words, the inline limit of
/// `BigInt`, and a few dense values
pub const LIMBS: [u64; 16] = [
    0,
    1,
    2,
    3,
    10,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 62) - 1,
    1 << 62,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
    0x9E37_79B9_7F4A_7C15,
    0x0123_4567_89AB_CDEF,
];

pub const LIMBS3: [u64; 7] = [
    0,
    1,
    1 << 32,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
    0x9E37_79B9_7F4A_7C15,
];

/// All sequences of length `len` over an alphabet
pub fn seqs<T: Clone>(alpha: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|s| {
                alpha.iter().map(move |a| {
                    let mut s = s.clone();
                    s.push(a.clone());
                    s
                })
            })
            .collect();
    }
    out
}

/// Structured patterns of a given limb length
pub fn patterns(len: usize) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = Vec::new();
    out.push(vec![u64::MAX; len]);
    let mut v = vec![0; len];
    v[len - 1] = 1;
    out.push(v.clone());
    v[0] |= 1;
    out.push(v.clone());
    v[len - 1] = 1 << 63;
    out.push(v);
    let mut v = vec![u64::MAX; len];
    v[0] = 0;
    out.push(v.clone());
    v[len - 1] = 1;
    out.push(v);
    out.push((0..len).map(|i| if i % 2 == 0 { 0 } else { u64::MAX }).collect());
    out.push((0..len).map(|i| if i % 2 == 1 { 1 } else { u64::MAX - 1 }).collect());
    out.push(
        (0..len)
            .map(|i| 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(2 * i as u64 + 1))
            .collect(),
    );
    out.push(
        (0..len)
            .map(|i| 0xD1B5_4A32_D192_ED03u64.wrapping_mul(i as u64 + 7) ^ (i as u64))
            .collect(),
    );
    out.push((1..=len as u64).collect());
    out
}

/// Every limb count a size threshold is likely to sit at: all of the short ones, then those around
/// the powers of two
pub fn lengths(long: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).chain([47, 48, 49, 63, 64, 65, 66]).collect();
    if long {
        v.extend([80, 95, 96, 97, 127, 128, 129, 160, 192, 255, 256, 257]);
    }
    v
}

/// The limb counts to pair with one: all of the short ones with each other, a few with the long
pub fn partners(len: usize, long: bool) -> Vec<usize> {
    if long || len <= 66 {
        return lengths(long);
    }
    let mut v = vec![1, 2, 3, 16, 17, 33, 64, 65, 100, 128, 129, len - 1, len, len + 1];
    v.sort_unstable();
    v.dedup();
    v
}

/// `lengths` and some longer ones, which are only paired with their `partners`
pub fn all_lengths(long: bool) -> Vec<usize> {
    let mut v = lengths(long);
    if !long {
        v.extend([80, 100, 127, 128, 129, 200, 255, 256, 257]);
    }
    v
}

/// Limb counts whose values have more bits than 16-bit counters count
pub fn huge_lengths(long: bool) -> &'static [usize] {
    if long {
        &[383, 384, 385, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 1026, 1100, 2047, 2048, 2049]
    } else {
        &[512, 513, 1023, 1024, 1025, 1100]
    }
}

/// A few values of one limb count: all ones, a lone top bit, one with a long run of zeros inside,
/// and dense ones
pub fn of_length(len: usize) -> Vec<R> {
    let mut out = vec![vec![u64::MAX; len]];
    let mut v = vec![0; len];
    v[len - 1] = 1;
    out.push(v.clone());
    v[0] = u64::MAX;
    v[len - 1] |= 1 << 63;
    out.push(v);
    out.push((0..len).map(|i| 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(2 * i as u64 + 1)).collect());
    dedup(out.iter().map(|l| R::from_limbs(false, l)))
}

/// One of those
pub fn pattern_of(len: usize, i: usize) -> R {
    let v = of_length(len);
    v[i.min(v.len() - 1)].clone()
}

pub fn dedup(v: impl IntoIterator<Item = R>) -> Vec<R> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|r| seen.insert(r.clone())).collect()
}

/// Both signs of every value
pub fn signed(v: &[R]) -> Vec<R> {
    dedup(v.iter().flat_map(|r| [r.clone(), r.neg()]))
}

/// The main set of magnitudes: `level` 0 is small, 1 the quick tier, 2 the thorough tier
pub fn magnitudes(level: u32) -> Vec<R> {
    let mut limbs: Vec<Vec<u64>> = Vec::new();
    match level {
        0 => {
            limbs.extend(seqs(&LIMBS, 1));
            limbs.extend(seqs(&[0, 1, 1 << 63, u64::MAX], 2));
            limbs.extend(seqs(&[0, u64::MAX], 3));
            for l in [4, 5, 7, 9] {
                limbs.extend(patterns(l).into_iter().step_by(3));
            }
        }
        1 => {
            limbs.extend(seqs(&LIMBS, 1));
            limbs.extend(seqs(&LIMBS, 2));
            limbs.extend(seqs(&[0, 1, 1 << 63, u64::MAX - 1, u64::MAX], 3));
            limbs.extend(seqs(&[0, 1, u64::MAX], 4));
            for l in [5, 6, 7, 8, 9, 16, 17] {
                limbs.extend(patterns(l));
            }
        }
        _ => {
            limbs.extend(seqs(&LIMBS, 1));
            limbs.extend(seqs(&LIMBS, 2));
            limbs.extend(seqs(&LIMBS3, 3));
            limbs.extend(seqs(&[0, 1, 1 << 63, u64::MAX - 1, u64::MAX], 4));
            limbs.extend(seqs(&[0, 1, u64::MAX], 5));
            for l in [6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33] {
                limbs.extend(patterns(l));
            }
        }
    }
    let mut out: Vec<R> = limbs.iter().map(|l| R::from_limbs(false, l)).collect();
    // Decimal boundaries
    let mut p = R::from_u128(1);
    for k in 0..(if level == 0 { 6 } else { 45 }) {
        p = p.mul(&R::from_u128(10));
        if level == 0 || k % 4 == 3 || k == 18 {
            out.push(p.clone());
            out.push(p.sub(&R::from_u128(1)));
            out.push(p.add(&R::from_u128(1)));
        }
    }
    if level > 0 {
        // All small values
        for i in 0..=(if level == 1 { 40 } else { 300 }) {
            out.push(R::from_u128(i));
        }
    }
    dedup(out)
}

/// The level of a few values per width, for the sweep over many widths
pub const FEW: u32 = 100;

fn byte_few(n: usize) -> Vec<Vec<u8>> {
    let bits = 8 * n;
    let fromr = |r: R| r.modulo_pow2(bits).bytes_le(n);
    let mut out: Vec<Vec<u8>> = Vec::new();
    for v in [0i128, 1, 2, 3, 10, 255, 256, -1, -2, -3, -10, -256] {
        out.push(fromr(R::from_i128(v)));
    }
    for d in [-1, 0, 1] {
        out.push(fromr(R::pow2(bits - 1).add(&R::from_i128(d))));
        out.push(fromr(R::pow2(bits / 2).add(&R::from_i128(d))));
    }
    // A one at the bottom of every byte, and everything below it
    for i in 1..n {
        if n <= 20 || (n <= 100 && i % 4 == 0) || i == 128 || i + 2 > n {
            out.push(fromr(R::pow2(8 * i)));
            out.push(fromr(R::pow2(8 * i + 3).sub(&R::from_u128(1))));
        }
    }
    let mut p = R::from_u128(1);
    while p.mul(&R::from_u128(10)).bit_len() <= bits {
        p = p.mul(&R::from_u128(10));
    }
    out.push(fromr(p.clone()));
    out.push(fromr(p.sub(&R::from_u128(1))));
    for k in 0..2u64 {
        let d: Vec<u8> = (0..n).map(|i| (0x9E37_79B9_7F4A_7C15u64.wrapping_mul((i as u64 + 3) * (2 * k + 1)) >> 40) as u8).collect();
        out.push(d.clone());
        out.push(d.iter().enumerate().map(|(i, &b)| if i < n / 2 { b } else { 0 }).collect());
        out.push(d.iter().enumerate().map(|(i, &b)| if i >= n / 2 { b } else { 0 }).collect());
    }
    let mut seen = HashSet::new();
    out.retain(|b| seen.insert(b.clone()));
    if n > 100 {
        out = out.into_iter().step_by(3).collect();
    }
    out
}

/// All byte strings of length `n` that the bounded-integer checks use: exhaustive for one byte,
/// sequences over boundary bytes for short lengths, bit-run structure for longer ones
pub fn byte_alpha(n: usize, level: u32) -> Vec<Vec<u8>> {
    if level == FEW {
        return byte_few(n);
    }
    let mut out: Vec<Vec<u8>> = Vec::new();
    match n {
        1 => out.extend((0..=255).map(|b| vec![b])),
        2 => {
            let a: &[u8] = if level > 0 {
                &[0, 1, 2, 3, 7, 9, 10, 15, 16, 17, 31, 32, 63, 64, 85, 99, 100, 126, 127, 128, 129, 170, 192, 200, 240, 250, 253, 254, 255]
            } else {
                &[0, 1, 2, 7, 10, 16, 64, 127, 128, 129, 170, 200, 254, 255]
            };
            out.extend(seqs(a, 2));
        }
        3 => {
            let a: &[u8] = if level > 0 { &[0, 1, 2, 10, 16, 127, 128, 200, 254, 255] } else { &[0, 1, 2, 127, 128, 254, 255] };
            out.extend(seqs(a, 3));
        }
        4 => {
            let a: &[u8] = if level > 0 { &[0, 1, 3, 127, 128, 254, 255] } else { &[0, 1, 127, 128, 255] };
            out.extend(seqs(a, 4));
        }
        5 => {
            let a: &[u8] = if level > 0 { &[0, 1, 127, 128, 255] } else { &[0, 1, 128, 255] };
            out.extend(seqs(a, 5).into_iter().step_by(if level > 0 { 1 } else { 3 }));
        }
        _ => {}
    }
    if n > 1 {
        let bits = 8 * n;
        let fromr = |r: R| r.modulo_pow2(bits).bytes_le(n);
        let one = R::from_u128(1);
        // Runs of ones and their complements
        let step = if level > 0 { (bits / 32).max(1) } else { (bits / 12).max(1) };
        let mut cuts: Vec<usize> = (0..=bits).step_by(step).chain([1, 7, 8, 9, bits - 1, bits / 2, bits]).collect();
        cuts.sort_unstable();
        cuts.dedup();
        for &i in &cuts {
            for &j in cuts.iter().filter(|&&j| j > i) {
                let run = R::pow2(j).sub(&R::pow2(i));
                out.push(fromr(run.clone()));
                if level > 0 || j == bits {
                    out.push(fromr(run.neg().sub(&one)));
                }
            }
            if i < bits {
                for d in [-2, -1, 0, 1, 2] {
                    out.push(fromr(R::pow2(i).add(&R::from_i128(d))));
                }
            }
        }
        // Every single bit
        for i in 0..bits {
            out.push(fromr(R::pow2(i)));
            out.push(fromr(R::pow2(i).sub(&one)));
        }
        for v in 0..(if level > 0 { 40 } else { 12 }) {
            out.push(fromr(R::from_u128(v)));
            out.push(fromr(R::from_i128(-(v as i128))));
        }
        // Powers of ten and factors of them
        let mut p = one.clone();
        while p.bit_len() <= bits {
            out.push(fromr(p.clone()));
            p = p.mul(&R::from_u128(10));
        }
        // Dense values, and values of about the square root of the range
        for k in 0..(if level > 0 { 8u64 } else { 4 }) {
            let d: Vec<u8> = (0..n).map(|i| (0x9E37_79B9_7F4A_7C15u64.wrapping_mul((i as u64 + 3) * (2 * k + 1)) >> 40) as u8).collect();
            out.push(d.clone());
            out.push(d.iter().enumerate().map(|(i, &b)| if i < n / 2 { b } else { 0 }).collect());
            out.push(d.iter().enumerate().map(|(i, &b)| if i >= n / 2 { b } else { 0 }).collect());
            out.push(d.iter().enumerate().map(|(i, &b)| if i == n / 2 { b } else { 0 }).collect());
        }
        for i in 0..n {
            for b in [1u8, 0x80, 0xFF, 0x5A] {
                let mut v = vec![0; n];
                v[i] = b;
                out.push(v.clone());
                v[0] |= 1;
                out.push(v.clone());
                for x in &mut v {
                    *x = !*x;
                }
                out.push(v);
            }
        }
    }
    let mut seen = HashSet::new();
    out.retain(|b| seen.insert(b.clone()));
    out
}
