use numeric_ints::U;
use numeric_mc::engine::{self, *};
use numeric_mc::want_eq;
use numeric_reals::F;
use numeric_traits::bytes::ConvertBytes;
use std::fmt::Debug;

fn rev<const N: usize>(mut b: [u8; N]) -> [u8; N] {
    for i in 0..N / 2 {
        b.swap(i, N - 1 - i);
    }
    b
}

fn native<const N: usize>(le: [u8; N]) -> [u8; N] {
    if 1u16.to_ne_bytes()[0] == 1 {
        le
    } else {
        rev(le)
    }
}

/// Byte patterns of a width: all for one and two bytes, and above that every pattern that is one
/// filler with every choice of up to two (quick) or three (thorough) positions overwritten from an
/// alphabet, plus a pattern with all bytes different
fn patterns<const N: usize>(thorough: bool) -> Vec<[u8; N]> {
    if N <= 2 {
        return (0..256usize.pow(N as u32)).map(|k| std::array::from_fn(|i| (k >> (8 * i)) as u8)).collect();
    }
    let mut out: Vec<[u8; N]> = Vec::new();
    out.push(std::array::from_fn(|i| (i as u8).wrapping_add(1)));
    out.push(std::array::from_fn(|i| !(i as u8)));
    let vals: &[u8] = if N <= 8 { &[0x00, 0x01, 0x7F, 0x80, 0xF0, 0xFF] } else { &[0x00, 0x01, 0x80, 0xFF] };
    for fill in [0u8, 0xFF, 0xA5] {
        let base = [fill; N];
        out.push(base);
        for i in 0..N {
            for &x in vals {
                let mut b = base;
                b[i] = x;
                out.push(b);
                for j in (i + 1..N).step_by(if N > 200 { 61 } else if N > 40 { 7 } else { 1 }) {
                    for &y in vals {
                        let mut b = b;
                        b[j] = y;
                        out.push(b);
                        if thorough && N <= 10 {
                            for k in j + 1..N {
                                for &z in vals {
                                    let mut b = b;
                                    b[k] = z;
                                    out.push(b);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

fn chunks<const N: usize>(c: &mut Ctx, what: &str, each: impl Fn(&mut Tally, [u8; N]) -> Res) {
    let all = patterns::<N>(c.thorough);
    for (k, part) in all.chunks(512).enumerate() {
        c.case(|| format!("{what}, byte patterns {} to {}", k * 512, k * 512 + part.len()), |t| {
            for b in part {
                t.state();
                each(t, *b)?;
            }
            Ok(())
        });
    }
}

fn float<const N: usize>(c: &mut Ctx) {
    chunks::<N>(c, &format!("F<{N}>"), |t, le| {
        let be = rev(le);
        let ne = native(le);
        let ways: [(&str, fn([u8; N], [u8; N], [u8; N]) -> F<N>); 4] = [
            ("from_le_bytes", |le, _, _| F::from_le_bytes(le)),
            ("from_be_bytes", |_, be, _| F::from_be_bytes(be)),
            ("from_ne_bytes", |_, _, ne| F::from_ne_bytes(ne)),
            ("from_bits", |le, _, _| F::from_bits(U::from_le_bytes(le))),
        ];
        for (name, mk) in ways {
            let f = || mk(le, be, ne);
            want_eq!(t, f().to_le_bytes(), le, "F<{N}>::{name} of {le:?} (little-endian) then to_le_bytes");
            want_eq!(t, f().to_be_bytes(), be, "F<{N}>::{name} of {le:?} (little-endian) then to_be_bytes");
            want_eq!(t, f().to_ne_bytes(), ne, "F<{N}>::{name} of {le:?} (little-endian) then to_ne_bytes");
            want_eq!(t, f().to_bits().to_le_bytes(), le, "F<{N}>::{name} of {le:?} (little-endian) then to_bits");
            want_eq!(t, f().to_bits(), U::<N>::from_le_bytes(le), "bits of F<{N}>::{name} of {le:?} (little-endian)");
        }
        Ok(())
    });
}

trait Bits: Copy + Debug {
    /// The bits as an integer
    fn bits(self) -> u128;
}
macro_rules! bits {
    ($($t:ident as $u:ident)*) => {$( impl Bits for $t { fn bits(self) -> u128 { self as $u as u128 } } )*};
}
bits!(u8 as u8 u16 as u16 u32 as u32 u64 as u64 u128 as u128 usize as usize i8 as u8 i16 as u16 i32 as u32 i64 as u64 i128 as u128 isize as usize);
impl Bits for f32 {
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Bits for f64 {
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}

fn prim<T: Bits + ConvertBytes<N>, const N: usize>(c: &mut Ctx, name: &str) {
    chunks::<N>(c, name, |t, le| {
        let be = rev(le);
        let ne = native(le);
        let value = (0..N).fold(0u128, |a, i| a | (le[i] as u128) << (8 * i));
        let ways: [(&str, T); 3] = [
            ("from_le_bytes", <T as ConvertBytes<N>>::from_le_bytes(le)),
            ("from_be_bytes", <T as ConvertBytes<N>>::from_be_bytes(be)),
            ("from_ne_bytes", <T as ConvertBytes<N>>::from_ne_bytes(ne)),
        ];
        for (way, v) in ways {
            want_eq!(t, v.bits(), value, "{name}::{way} of {le:?} (little-endian)");
            want_eq!(t, <T as ConvertBytes<N>>::to_le_bytes(v), le, "{name}::to_le_bytes of {value:#x}");
            want_eq!(t, <T as ConvertBytes<N>>::to_be_bytes(v), be, "{name}::to_be_bytes of {value:#x}");
            want_eq!(t, <T as ConvertBytes<N>>::to_ne_bytes(v), ne, "{name}::to_ne_bytes of {value:#x}");
        }
        Ok(())
    });
}

/// A user's type, which leaves the native-endian methods to the trait
#[derive(Clone, Copy, Debug)]
struct Mine<const N: usize>([u8; N]);

impl<const N: usize> ConvertBytes<N> for Mine<N> {
    fn from_le_bytes(b: [u8; N]) -> Self {
        Mine(b)
    }
    fn from_be_bytes(b: [u8; N]) -> Self {
        Mine(rev(b))
    }
    fn to_le_bytes(self) -> [u8; N] {
        self.0
    }
    fn to_be_bytes(self) -> [u8; N] {
        rev(self.0)
    }
}

fn defaults<const N: usize>(c: &mut Ctx) {
    chunks::<N>(c, &format!("provided methods, {N} bytes"), |t, le| {
        want_eq!(t, <Mine<N> as ConvertBytes<N>>::from_ne_bytes(native(le)).0, le, "provided from_ne_bytes of {le:?}");
        want_eq!(t, Mine(le).to_ne_bytes(), native(le), "provided to_ne_bytes of {le:?}");
        Ok(())
    });
}

fn main() {
    engine::main(|c| {
        c.section("floats of N bytes");
        float::<0>(c);
        float::<1>(c);
        float::<2>(c);
        float::<3>(c);
        float::<4>(c);
        float::<5>(c);
        float::<6>(c);
        float::<7>(c);
        float::<8>(c);
        float::<9>(c);
        float::<10>(c);
        float::<11>(c);
        float::<12>(c);
        float::<15>(c);
        float::<16>(c);
        float::<17>(c);
        float::<31>(c);
        float::<32>(c);
        float::<33>(c);
        float::<40>(c);
        float::<64>(c);
        float::<65>(c);
        float::<128>(c);
        float::<255>(c);
        float::<256>(c);
        float::<257>(c);
        c.section("primitives");
        prim::<u8, 1>(c, "u8");
        prim::<u16, 2>(c, "u16");
        prim::<u32, 4>(c, "u32");
        prim::<u64, 8>(c, "u64");
        prim::<u128, 16>(c, "u128");
        prim::<usize, { std::mem::size_of::<usize>() }>(c, "usize");
        prim::<i8, 1>(c, "i8");
        prim::<i16, 2>(c, "i16");
        prim::<i32, 4>(c, "i32");
        prim::<i64, 8>(c, "i64");
        prim::<i128, 16>(c, "i128");
        prim::<isize, { std::mem::size_of::<usize>() }>(c, "isize");
        prim::<f32, 4>(c, "f32");
        prim::<f64, 8>(c, "f64");
        c.section("methods the trait provides");
        defaults::<0>(c);
        defaults::<1>(c);
        defaults::<2>(c);
        defaults::<3>(c);
        defaults::<8>(c);
        defaults::<16>(c);
        defaults::<17>(c);
        defaults::<33>(c);
        defaults::<64>(c);
        defaults::<65>(c);
    });
}
