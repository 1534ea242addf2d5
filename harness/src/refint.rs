//! A deliberately simple signed big integer, the reference model: sign and little-endian magnitude
//! in base 2^32, schoolbook algorithms only.

use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct R {
    neg: bool,
    mag: Vec<u32>,
}

impl std::fmt::Debug for R {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_hex())
    }
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len()
        .cmp(&b.len())
        .then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut carry = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + carry;
        out.push(s as u32);
        carry = s >> 32;
    }
    out.push(carry as u32);
    trim(out)
}

/// a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        borrow = 0;
        if s < 0 {
            s += 1 << 32;
            borrow = 1;
        }
        out.push(s as u32);
    }
    assert_eq!(borrow, 0);
    trim(out)
}

impl R {
    pub fn new(neg: bool, mag: Vec<u32>) -> R {
        let mag = trim(mag);
        R {
            neg: neg && !mag.is_empty(),
            mag,
        }
    }

    pub fn zero() -> R {
        R::new(false, vec![])
    }

    pub fn from_limbs(neg: bool, limbs: &[u64]) -> R {
        R::new(
            neg,
            limbs
                .iter()
                .flat_map(|&l| [l as u32, (l >> 32) as u32])
                .collect(),
        )
    }

    pub fn from_bytes_le(neg: bool, bytes: &[u8]) -> R {
        let mut mag = vec![0u32; bytes.len() / 4 + 1];
        for (i, &b) in bytes.iter().enumerate() {
            mag[i / 4] |= (b as u32) << (8 * (i % 4));
        }
        R::new(neg, mag)
    }

    /// The two's complement value of little-endian bytes
    pub fn from_twos_le(bytes: &[u8]) -> R {
        let v = R::from_bytes_le(false, bytes);
        if bytes.last().is_some_and(|b| b & 0x80 != 0) {
            v.sub(&R::pow2(8 * bytes.len()))
        } else {
            v
        }
    }

    pub fn from_u128(v: u128) -> R {
        R::from_limbs(false, &[v as u64, (v >> 64) as u64])
    }

    pub fn from_i128(v: i128) -> R {
        let m = v.unsigned_abs();
        R::from_limbs(v < 0, &[m as u64, (m >> 64) as u64])
    }

    pub fn pow2(k: usize) -> R {
        let mut mag = vec![0u32; k / 32 + 1];
        mag[k / 32] = 1 << (k % 32);
        R::new(false, mag)
    }

    pub fn is_neg(&self) -> bool {
        self.neg
    }

    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }

    pub fn neg(&self) -> R {
        R::new(!self.neg, self.mag.clone())
    }

    pub fn abs(&self) -> R {
        R::new(false, self.mag.clone())
    }

    pub fn add(&self, o: &R) -> R {
        if self.neg == o.neg {
            R::new(self.neg, add_mag(&self.mag, &o.mag))
        } else if cmp_mag(&self.mag, &o.mag) != Ordering::Less {
            R::new(self.neg, sub_mag(&self.mag, &o.mag))
        } else {
            R::new(o.neg, sub_mag(&o.mag, &self.mag))
        }
    }

    pub fn sub(&self, o: &R) -> R {
        self.add(&o.neg())
    }

    pub fn mul(&self, o: &R) -> R {
        let mut out = vec![0u32; self.mag.len() + o.mag.len() + 1];
        for (i, &a) in self.mag.iter().enumerate() {
            let mut carry = 0u64;
            for (j, &b) in o.mag.iter().enumerate() {
                let s = a as u64 * b as u64 + out[i + j] as u64 + carry;
                out[i + j] = s as u32;
                carry = s >> 32;
            }
            out[i + o.mag.len()] = carry as u32;
        }
        R::new(self.neg != o.neg, out)
    }

    /// Truncated division, by binary long division
    pub fn div_rem(&self, o: &R) -> (R, R) {
        assert!(!o.is_zero());
        if cmp_mag(&self.mag, &o.mag) == Ordering::Less {
            return (R::zero(), self.clone());
        }
        if o.mag.len() == 1 {
            let (q, r) = self.div_small(o.mag[0]);
            return (
                R::new(self.neg != o.neg, q.mag),
                R::new(self.neg, vec![r]),
            );
        }
        let d = o.abs();
        let mut rem = R::zero();
        let bits = self.bit_len();
        let mut q = vec![0u32; self.mag.len()];
        for i in (0..bits).rev() {
            rem = rem.shl(1);
            if self.mag_bit(i) {
                rem = rem.add(&R::from_u128(1));
            }
            if cmp_mag(&rem.mag, &d.mag) != Ordering::Less {
                rem = rem.sub(&d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (R::new(self.neg != o.neg, q), R::new(self.neg, rem.mag))
    }

    fn div_small(&self, d: u32) -> (R, u32) {
        let mut out = vec![0u32; self.mag.len()];
        let mut rem = 0u64;
        for i in (0..self.mag.len()).rev() {
            let cur = (rem << 32) | self.mag[i] as u64;
            out[i] = (cur / d as u64) as u32;
            rem = cur % d as u64;
        }
        (R::new(self.neg, out), rem as u32)
    }

    pub fn bit_len(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }

    fn mag_bit(&self, i: usize) -> bool {
        self.mag.get(i / 32).is_some_and(|m| m >> (i % 32) & 1 == 1)
    }

    pub fn shl(&self, k: usize) -> R {
        let mut out = vec![0u32; k / 32];
        let s = k % 32;
        let mut carry = 0u64;
        for &m in &self.mag {
            let v = ((m as u64) << s) | carry;
            out.push(v as u32);
            carry = v >> 32;
        }
        out.push(carry as u32);
        R::new(self.neg, out)
    }

    /// Floor of division by 2^k
    pub fn shr_floor(&self, k: usize) -> R {
        let s = k % 32;
        let src = self.mag.get(k / 32..).unwrap_or(&[]);
        let mut out = Vec::new();
        for i in 0..src.len() {
            let hi = *src.get(i + 1).unwrap_or(&0) as u64;
            let v = ((hi << 32) | src[i] as u64) >> s;
            out.push(v as u32);
        }
        let q = R::new(self.neg, out);
        if self.neg && (0..k.min(self.bit_len())).any(|i| self.mag_bit(i)) {
            q.sub(&R::from_u128(1))
        } else {
            q
        }
    }

    fn twos(&self, words: usize) -> Vec<u32> {
        let v = if self.neg {
            R::pow2(words * 32).add(self).mag
        } else {
            self.mag.clone()
        };
        let mut v = v;
        v.resize(words, 0);
        v
    }

    pub fn bitop(&self, o: &R, f: impl Fn(u32, u32) -> u32) -> R {
        let w = self.mag.len().max(o.mag.len()) + 1;
        let v: Vec<u32> = self
            .twos(w)
            .iter()
            .zip(o.twos(w))
            .map(|(&a, b)| f(a, b))
            .collect();
        let neg = v[w - 1] >> 31 == 1;
        let v = R::new(false, v);
        if neg {
            v.sub(&R::pow2(w * 32))
        } else {
            v
        }
    }

    pub fn pow(&self, n: u32) -> R {
        let mut out = R::from_u128(1);
        for _ in 0..n {
            out = out.mul(self);
        }
        out
    }

    /// The value modulo 2^bits, as an unsigned value
    pub fn modulo_pow2(&self, bits: usize) -> R {
        self.sub(&self.shr_floor(bits).shl(bits))
    }

    /// The value modulo 2^bits, as a signed value
    pub fn modulo_signed(&self, bits: usize) -> R {
        let m = self.modulo_pow2(bits);
        if m.bit_len() == bits {
            m.sub(&R::pow2(bits))
        } else {
            m
        }
    }

    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 {
            return None;
        }
        Some(
            self.mag
                .iter()
                .rev()
                .fold(0, |acc, &m| (acc << 32) | m as u128),
        )
    }

    pub fn to_i128(&self) -> Option<i128> {
        if self.mag.len() > 4 {
            return None;
        }
        let m = self.abs().to_u128()?;
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }

    /// Little-endian bytes of the magnitude, padded or cut to a length
    pub fn bytes_le(&self, len: usize) -> Vec<u8> {
        (0..len)
            .map(|i| self.mag.get(i / 4).map_or(0, |m| (m >> (8 * (i % 4))) as u8))
            .collect()
    }

    pub fn limbs(&self) -> Vec<u64> {
        self.mag
            .chunks(2)
            .map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32)
            .collect()
    }

    pub fn to_radix(&self, radix: u32) -> String {
        let mut digits = Vec::new();
        let mut v = self.abs();
        while !v.is_zero() {
            let (q, r) = v.div_small(radix);
            digits.push(std::char::from_digit(r, radix).unwrap());
            v = q;
        }
        if digits.is_empty() {
            digits.push('0');
        }
        if self.neg {
            digits.push('-');
        }
        digits.iter().rev().collect()
    }

    pub fn to_dec(&self) -> String {
        self.to_radix(10)
    }

    pub fn to_hex(&self) -> String {
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s.push_str("0x");
        match self.mag.split_last() {
            None => s.push('0'),
            Some((t, rest)) => {
                s.push_str(&format!("{t:x}"));
                for m in rest.iter().rev() {
                    s.push_str(&format!("{m:08x}"));
                }
            }
        }
        s
    }

    /// Read digits of a power-of-two radix (1 or 4 bits per digit)
    pub fn parse_pow2(s: &str, bits: u32) -> Option<R> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(s) => (true, s),
            None => (false, s),
        };
        let s = s
            .strip_prefix(if bits == 1 { "0b" } else { "0x" })
            .unwrap_or(s);
        if s.is_empty() {
            return None;
        }
        let mut mag = vec![0u32; (s.len() * bits as usize) / 32 + 1];
        for (i, c) in s.bytes().rev().enumerate() {
            let d = (c as char).to_digit(1 << bits)?;
            let pos = i * bits as usize;
            mag[pos / 32] |= d << (pos % 32);
        }
        Some(R::new(neg, mag))
    }

    pub fn parse_dec(s: &str) -> Option<R> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(s) => (true, s),
            None => (false, s),
        };
        if s.is_empty() {
            return None;
        }
        let mut v = R::zero();
        for c in s.chars() {
            v = v
                .mul(&R::from_u128(10))
                .add(&R::from_u128(c.to_digit(10)? as u128));
        }
        Some(R::new(neg, v.mag))
    }
}

impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for R {
    fn cmp(&self, o: &R) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
