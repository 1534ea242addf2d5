//! Building and reading `BigInt`s through more than one public route, so that a defect in one
//! route (say, text formatting) is not mistaken for a defect of the operation under test.

use crate::refint::R;
use numeric_ints::BigInt;
use numeric_traits::cast::FromStrRadix;

use crate::engine::{catch, heartbeat};

fn read_bin(b: &BigInt) -> Option<R> {
    catch(|| R::parse_pow2(&format!("{b:b}"), 1)).ok().flatten()
}

fn read_hex(b: &BigInt) -> Option<R> {
    catch(|| R::parse_pow2(&format!("{b:x}"), 4)).ok().flatten()
}

fn read_dec(b: &BigInt) -> Option<R> {
    catch(|| R::parse_dec(&format!("{b}"))).ok().flatten()
}

/// Whether the value reads back as expected
pub fn is(b: &BigInt, want: &R) -> bool {
    read_bin(b).as_ref() == Some(want)
        || read_hex(b).as_ref() == Some(want)
        || read_dec(b).as_ref() == Some(want)
}

pub fn show(b: &BigInt) -> String {
    match read_bin(b) {
        Some(r) => format!("{r:?}"),
        None => catch(|| format!("{b}")).unwrap_or_else(|e| e),
    }
}

pub fn expect(b: &BigInt, want: &R, what: impl Fn() -> String) -> Result<(), String> {
    heartbeat();
    if is(b, want) {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {:?}", what(), show(b), want))
    }
}

fn with_sign(b: BigInt, neg: bool) -> BigInt {
    if neg {
        -b
    } else {
        b
    }
}

fn build_shift(r: &R) -> BigInt {
    let limbs = r.abs().limbs();
    let mut out = BigInt::from(0u8);
    for c in limbs.chunks(2).rev() {
        let v = c[0] as u128 | (*c.get(1).unwrap_or(&0) as u128) << 64;
        out = (out << 128u32) + BigInt::from(v);
    }
    with_sign(out, r.is_neg())
}

fn build_horner(r: &R) -> BigInt {
    let mut out = BigInt::from(0u8);
    let base = BigInt::from(1u128 << 64);
    for &l in r.abs().limbs().iter().rev() {
        out = out * &base + BigInt::from(l);
    }
    with_sign(out, r.is_neg())
}

fn build_parse(r: &R) -> BigInt {
    let s = r.to_hex();
    let s = s.strip_prefix('-').unwrap_or(&s);
    let b = BigInt::from_str_radix(s.strip_prefix("0x").unwrap(), 16).unwrap();
    with_sign(b, r.is_neg())
}

/// Build a value
pub fn mk(r: &R) -> BigInt {
    if let Some(v) = r.to_i128() {
        if let Ok(b) = catch(|| BigInt::from(v)) {
            if is(&b, r) {
                return b;
            }
        }
    }
    for route in [build_shift, build_horner, build_parse] {
        if let Ok(b) = catch(|| route(r)) {
            if is(&b, r) {
                return b;
            }
        }
    }
    panic!("no way of building the BigInt {r:?} gives that value");
}

/// Live values that are kept in the store, of both signs, so that they have its first indices when
/// nothing else is live
pub fn stored(n: u64) -> Vec<(BigInt, R)> {
    (0..n)
        .map(|i| R::from_limbs(i % 3 == 1, &[i * 7 + 5, 1 + i % 5]))
        .map(|r| (mk(&r), r))
        .collect()
}

/// Small values of both signs, among them the indices of stored values, also with tag bits
pub fn near_indices(n: u64) -> Vec<R> {
    (0..n * 4 + 8)
        .flat_map(|i| [R::from_i128(i as i128), R::from_i128(-(i as i128))])
        .collect()
}
