use numeric_mc::{want, want_eq};
use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_traits::cast::FromStrRadix;

fn trim(s: &str, prefix: &str) -> Option<String> {
    let (neg, rest) = match s.strip_prefix('-') {
        Some(r) => ("-", r),
        None => ("", s),
    };
    let digits = rest.strip_prefix(prefix)?;
    if digits.is_empty() {
        return None;
    }
    let d = digits.trim_start_matches('0');
    Some(format!("{neg}{}", if d.is_empty() { "0" } else { d }))
}

fn format_all(t: &mut Tally, r: &R) -> Res {
    let a = mk(r);
    let dec = r.to_radix(10);
    want_eq!(t, format!("{a}"), dec.clone(), "Display of {r:?}");
    want_eq!(t, format!("{a:?}"), dec.clone(), "Debug of {r:?}");
    want_eq!(t, a.to_string(), dec.clone(), "to_string of {r:?}");
    let hex = r.to_radix(16);
    let lower = format!("{a:x}");
    want_eq!(t, trim(&lower, "0x"), Some(hex.to_ascii_lowercase()), "LowerHex {lower} of {r:?}");
    let upper = format!("{a:X}");
    want_eq!(t, trim(&upper, "0x").or(trim(&upper, "0X")), Some(hex.to_ascii_uppercase()), "UpperHex {upper} of {r:?}");
    let bin = format!("{a:b}");
    want_eq!(t, trim(&bin, "0b"), Some(r.to_radix(2)), "Binary {bin} of {r:?}");
    // Text gives the value back
    match BigInt::from_str_radix(&dec, 10) {
        Ok(b) => {
            expect(&b, r, || format!("parsing {dec}"))?;
            want!(t, b == a, "parsing {dec} is not equal to the printed value");
        }
        Err(e) => return Err(format!("parsing {dec}: {e:?}")),
    }
    t.state();
    Ok(())
}

fn parse(t: &mut Tally, s: &str, radix: u32, want: &R) -> Res {
    t.op();
    match catch(|| BigInt::from_str_radix(s, radix)) {
        Ok(Ok(b)) => expect(&b, want, || format!("parsing {s:?} in radix {radix}")),
        Ok(Err(e)) => Err(format!("parsing {s:?} in radix {radix}: {e:?}, expected {want:?}")),
        Err(p) => Err(format!("parsing {s:?} in radix {radix}: {p}")),
    }
}

fn refuse(t: &mut Tally, s: &str, radix: u32) -> Res {
    t.op();
    match catch(|| BigInt::from_str_radix(s, radix)) {
        Ok(Ok(b)) => Err(format!("parsing {s:?} in radix {radix} gave {}, expected an error", show(&b))),
        Ok(Err(_)) => Ok(()),
        Err(p) => Err(format!("parsing {s:?} in radix {radix}: {p}, expected an error")),
    }
}

/// The value of a numeral
fn value(s: &str, radix: u32) -> R {
    let base = R::from_u128(radix as u128);
    s.chars().fold(R::zero(), |v, ch| v.mul(&base).add(&R::from_u128(ch.to_digit(36).unwrap() as u128)))
}

fn mixed(s: &str) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

fn main() {
    engine::main(|c| {
        c.section("formats and round trip");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        for chunk in vals.chunks(8) {
            c.case(
                || format!("{} values from {:?}", chunk.len(), chunk[0]),
                |t| chunk.iter().try_for_each(|r| format_all(t, r)),
            );
        }

        c.section("lengths");
        for len in lengths(c.thorough) {
            for (i, r) in of_length(len).into_iter().enumerate() {
                // Printing takes cubic time, too long beyond this
                if len <= 16 || len <= 129 && (i == 3 || c.thorough) {
                    let r = if (i + len) % 2 == 0 { r.clone() } else { r.neg() };
                    c.case(|| format!("formats of {r:?}"), |t| format_all(t, &r));
                }
                for radix in 2..=36u32 {
                    // One pattern per radix for the long ones
                    if len > 12 && i != radix as usize % 4 && radix != 10 && radix != 16 {
                        continue;
                    }
                    c.case(
                        || format!("pattern {i} of {len} limbs in radix {radix}"),
                        |t| {
                            let s = r.to_radix(radix);
                            parse(t, &format!("-{}", mixed(&s)), radix, &r.neg())
                        },
                    );
                }
            }
        }

        c.section("formats of every small value");
        let n: i128 = if c.thorough { 200_000 } else { 20_000 };
        for k in 0..(2 * n / 100) {
            let lo = -n + k * 100;
            c.case(
                || format!("{lo}..{}", lo + 100),
                |t| (lo..lo + 100).try_for_each(|v| format_all(t, &R::from_i128(v))),
            );
        }

        // Around every power of ten (digit count changes), and numerals with inner zeros
        c.section("powers of ten");
        let n = if c.thorough { 300 } else { 100 };
        for k in 0..n {
            c.case(
                || format!("10^{k}, its neighbours, and d * 10^{k} + e"),
                |t| {
                    let p = R::from_u128(10).pow(k);
                    for d in 1..=9u128 {
                        for e in [0i128, 1, -1, 7] {
                            let v = p.mul(&R::from_u128(d)).add(&R::from_i128(e));
                            format_all(t, &v)?;
                            format_all(t, &v.neg())?;
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("parsing in every radix");
        let level = u32::from(c.thorough);
        let (less, more) = (magnitudes(level), magnitudes(level + 1));
        for radix in 2..=36u32 {
            let some = if [3, 10, 16, 36].contains(&radix) { &more } else { &less };
            for chunk in some.chunks(16) {
                c.case(
                    || format!("radix {radix}, {} values from {:?}", chunk.len(), chunk[0]),
                    |t| {
                        for r in chunk {
                            let s = r.to_radix(radix);
                            for s in [s.clone(), s.to_ascii_uppercase(), s.to_ascii_lowercase(), mixed(&s), format!("0{s}"), format!("000{s}")] {
                                parse(t, &s, radix, r)?;
                                parse(t, &format!("-{s}"), radix, &r.neg())?;
                            }
                            t.state();
                        }
                        Ok(())
                    },
                );
            }
        }

        // Every string up to a length over an alphabet that has digits, letters and others
        c.section("every short string");
        let alpha: Vec<char> = "0179aAfFzZ-+ _.".chars().collect();
        let radices: Vec<u32> = (2..=36).collect();
        let len = if c.thorough { 4 } else { 3 };
        for &radix in &radices {
            for first in &alpha {
                c.case(
                    || format!("radix {radix}, every string of up to {len} characters starting with {first:?}"),
                    |t| {
                        for l in 0..len {
                            for rest in seqs(&alpha, l) {
                                let s: String = std::iter::once(*first).chain(rest).collect();
                                let digits = s.strip_prefix('-').unwrap_or(&s);
                                if digits.is_empty() {
                                    continue;
                                }
                                let mut v = Some(R::zero());
                                for ch in digits.chars() {
                                    v = match (v, ch.to_digit(36)) {
                                        (Some(v), Some(d)) if d < radix => {
                                            Some(v.mul(&R::from_u128(radix as u128)).add(&R::from_u128(d as u128)))
                                        }
                                        _ => None,
                                    };
                                }
                                match v {
                                    Some(v) => parse(t, &s, radix, &if s.starts_with('-') { v.neg() } else { v })?,
                                    None => refuse(t, &s, radix)?,
                                }
                                t.state();
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        // Every single character of the basic plane, alone and inside a numeral
        c.section("every character");
        for block in 0..(if c.thorough { 0x1100 } else { 0x40 }) {
            c.case(
                || format!("characters {:#x}..{:#x}", block * 256, (block + 1) * 256),
                |t| {
                    for cp in block * 256..(block + 1) * 256 {
                        let Some(ch) = char::from_u32(cp) else { continue };
                        for radix in [2, 10, 11, 16, 36] {
                            let d = if ch.is_ascii() { ch.to_digit(36).filter(|d| *d < radix) } else { None };
                            match d {
                                Some(d) => {
                                    let r = R::from_u128(radix as u128);
                                    let d = R::from_u128(d as u128);
                                    parse(t, &ch.to_string(), radix, &d)?;
                                    parse(t, &format!("1{ch}1"), radix, &r.add(&d).mul(&r).add(&R::from_u128(1)))?;
                                }
                                None => {
                                    if ch != '-' {
                                        refuse(t, &ch.to_string(), radix)?;
                                        refuse(t, &format!("{ch}1"), radix)?;
                                    }
                                    refuse(t, &format!("1{ch}1"), radix)?;
                                    refuse(t, &format!("1{ch}"), radix)?;
                                    refuse(t, &format!("-1{ch}"), radix)?;
                                    refuse(t, &format!("123456789012345678901234567890{ch}"), radix)?;
                                }
                            }
                        }
                        t.state();
                    }
                    Ok(())
                },
            );
        }

        // A parser may take several characters at once
        c.section("numerals of every length");
        for radix in [2u32, 3, 7, 8, 10, 15, 16, 17, 27, 32, 35, 36] {
            let n = if c.thorough { 1000 } else { 260 };
            let step = 20;
            for lo in (1..n).step_by(step) {
                c.case(
                    || format!("radix {radix}, {lo} to {} characters", lo + step - 1),
                    |t| {
                        for len in lo..lo + step {
                            for pattern in 0..6usize {
                                let digit = |i: usize| match pattern {
                                    0 => radix - 1,
                                    1 => u32::from(i == 0),
                                    2 => u32::from(i + 1 == len),
                                    3 => (i as u32 * 7 + 1) % radix,
                                    4 => u32::from(i == len / 2) * (radix - 1),
                                    _ => u32::from(i % 19 == 18),
                                };
                                let s: String = (0..len).map(|i| char::from_digit(digit(i), 36).unwrap()).collect();
                                let want = value(&s, radix);
                                parse(t, &s, radix, &want)?;
                                parse(t, &format!("-{s}"), radix, &want.neg())?;
                                t.state();
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("a wrong character at every place");
        for radix in [2u32, 8, 10, 11, 16, 36] {
            for len in (1..=if c.thorough { 140 } else { 70 }).chain([100, 129, 200]) {
                c.case(
                    || format!("radix {radix}, {len} characters"),
                    |t| {
                        for at in 0..len {
                            for bad in ['-', '+', '_', ' ', '.', '\0', '/', ':', '@', '[', '`', '{', '\u{e9}', '\u{661}', '\u{1d7d8}']
                                .into_iter()
                                .chain(char::from_digit(radix, 36))
                            {
                                if bad == '-' && at == 0 {
                                    continue;
                                }
                                for fill in ['0', '1'] {
                                    let s: String = (0..len).map(|i| if i == at { bad } else { fill }).collect();
                                    refuse(t, &s, radix)?;
                                }
                            }
                            t.state();
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("radix above 36");
        for radix in (37..=300).chain([1000, 1 << 16, (1 << 16) + 10, 1 << 31, u32::MAX]) {
            c.case(
                || format!("radix {radix}"),
                |t| {
                    for s in ["0", "1", "10", "zz", "-1", "99999999999999999999999999", "a"] {
                        refuse(t, s, radix)?;
                    }
                    Ok(())
                },
            );
        }
    });
}
