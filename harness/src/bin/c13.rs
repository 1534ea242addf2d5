use numeric_ints::U;
use numeric_mc::alpha::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::want_eq;
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating};

fn u<const N: usize>(b: &[u8]) -> U<N> {
    U::from_le_bytes(b.try_into().unwrap())
}

fn value<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R) -> Res {
    let a = u::<N>(ba);
    let arr: [u8; N] = ba.try_into().unwrap();
    let mut rev = arr;
    rev.reverse();
    t.state();
    // Bytes
    want_eq!(t, a.to_le_bytes(), arr, "U<{N}> to_le_bytes {ra:?}");
    want_eq!(t, a.to_be_bytes(), rev, "U<{N}> to_be_bytes {ra:?}");
    let ne = if cfg!(target_endian = "little") { arr } else { rev };
    want_eq!(t, a.to_ne_bytes(), ne, "U<{N}> to_ne_bytes {ra:?}");
    want_eq!(t, U::<N>::from_be_bytes(rev).to_le_bytes(), arr, "U<{N}> from_be_bytes {ra:?}");
    want_eq!(t, U::<N>::from_le_bytes(arr).to_be_bytes(), rev, "U<{N}> from_le_bytes {ra:?}");
    want_eq!(t, U::<N>::from_ne_bytes(ne).to_le_bytes(), arr, "U<{N}> from_ne_bytes {ra:?}");
    want_eq!(t, U::<N>::from_be_bytes(a.to_be_bytes()) == a, true, "U<{N}> be round trip {ra:?}");
    want_eq!(t, U::<N>::from_ne_bytes(a.to_ne_bytes()) == a, true, "U<{N}> ne round trip {ra:?}");
    // Text
    let dec = ra.to_dec();
    want_eq!(t, format!("{a}"), dec.clone(), "U<{N}> Display {ra:?}");
    want_eq!(t, format!("{a:?}"), dec, "U<{N}> Debug {ra:?}");
    // Primitives
    let low = ra.modulo_pow2(128).to_u128().unwrap();
    macro_rules! prims {
        ($($ty:ident),*) => {$({
            let fits = ra.bit_len() <= <$ty>::BITS as usize;
            let want = fits.then_some(low as $ty);
            want_eq!(t, <$ty>::from_checked(a), want, "{}::from_checked(U<{N}> {ra:?})", stringify!($ty));
            let c: Option<$ty> = a.into_checked();
            want_eq!(t, c, want, "U<{N}> {ra:?} into_checked::<{}>", stringify!($ty));
            want_eq!(t, <$ty>::saturate_from(a), want.unwrap_or(<$ty>::MAX), "{}::saturate_from(U<{N}> {ra:?})", stringify!($ty));
            let c: $ty = a.saturate();
            want_eq!(t, c, want.unwrap_or(<$ty>::MAX), "U<{N}> {ra:?} saturate::<{}>", stringify!($ty));
            want_eq!(t, <$ty>::truncate_from(a), low as $ty, "{}::truncate_from(U<{N}> {ra:?})", stringify!($ty));
            let c: $ty = a.truncate();
            want_eq!(t, c, low as $ty, "U<{N}> {ra:?} truncate::<{}>", stringify!($ty));
            // And back
            if let Some(v) = want {
                want_eq!(t, U::<N>::from_checked(v).map(U::to_le_bytes), Some(arr), "U<{N}>::from_checked({v}{})", stringify!($ty));
            }
        })*};
    }
    prims!(u8, u16, u32, u64, u128, usize);
    Ok(())
}

fn from_prims<const N: usize>(t: &mut Tally, v: u128) -> Res {
    macro_rules! prims {
        ($($ty:ident),*) => {$({
            let p = v as $ty;
            let r = R::from_u128(p as u128);
            let want = (r.bit_len() <= 8 * N).then(|| r.bytes_le(N));
            want_eq!(t, U::<N>::from_checked(p).map(|x| x.to_le_bytes().to_vec()), want.clone(), "U<{N}>::from_checked({p}{})", stringify!($ty));
            let c: Option<U<N>> = p.into_checked();
            want_eq!(t, c.map(|x| x.to_le_bytes().to_vec()), want, "{p}{}.into_checked::<U<{N}>>", stringify!($ty));
        })*};
    }
    prims!(u8, u16, u32, u64, u128, usize);
    t.state();
    Ok(())
}

fn width<const N: usize>(c: &mut Ctx, level: u32) {
    let all: Vec<(Vec<u8>, R)> = byte_alpha(N, level).into_iter().map(|b| (b.clone(), R::from_bytes_le(false, &b))).collect();
    c.section(&format!("U<{N}> values"));
    for chunk in all.chunks(if N > 40 { 1 } else { 16 }) {
        c.case(
            || format!("U<{N}> {} values from {:?}", chunk.len(), chunk[0].1),
            |t| chunk.iter().try_for_each(|(b, r)| value::<N>(t, b, r)),
        );
    }
    c.section(&format!("U<{N}> from primitives"));
    for i in 0..128 {
        c.case(
            || format!("U<{N}> from runs of ones that start at bit {i}, single bits and complements"),
            |t| {
                for j in i..128 {
                    let run = (u128::MAX >> (127 - j)) & (u128::MAX << i);
                    from_prims::<N>(t, run)?;
                    from_prims::<N>(t, !run)?;
                    from_prims::<N>(t, (1 << i) | (1 << j))?;
                }
                for d in 0..5u128 {
                    from_prims::<N>(t, (1u128 << i).wrapping_add(d).wrapping_sub(2))?;
                }
                Ok(())
            },
        );
    }
}

fn main() {
    engine::main(|c| {
        let l = u32::from(c.thorough);
        width::<1>(c, 1);
        width::<2>(c, 1);
        width::<3>(c, 1);
        width::<4>(c, 1);
        width::<5>(c, 1);
        width::<6>(c, 1);
        width::<7>(c, 1);
        width::<8>(c, 1);
        width::<9>(c, 1);
        width::<10>(c, l);
        width::<11>(c, l);
        width::<12>(c, l);
        width::<13>(c, l);
        width::<15>(c, 1);
        width::<16>(c, 1);
        width::<17>(c, 1);
        width::<18>(c, l);
        width::<24>(c, l);
        width::<31>(c, l);
        width::<32>(c, l);
        width::<33>(c, l);
        if c.thorough {
            width::<40>(c, 1);
            width::<64>(c, 1);
        }

        // The rest of the widths, with fewer values
        macro_rules! widths {
            ($($n:literal)*) => {$( width::<$n>(c, FEW); )*};
        }
        widths!(14 19 20 21 22 23 25 28 34 36 40 48 63 64 65 127 128 129 255 256 257);
        c.section("every two-byte value");
        for hi in 0..=255u8 {
            c.case(
                || format!("values with high byte {hi} in U<2>, U<3>, U<5>"),
                |t| {
                    for lo in 0..=255u8 {
                        let r = R::from_bytes_le(false, &[lo, hi]);
                        value::<2>(t, &[lo, hi], &r)?;
                        value::<3>(t, &[lo, hi, 0], &r)?;
                        let b = [0, lo, 0, hi, 0];
                        value::<5>(t, &b, &R::from_bytes_le(false, &b))?;
                        let v = u16::from_le_bytes([lo, hi]);
                        from_prims::<1>(t, v as u128)?;
                        from_prims::<2>(t, v as u128)?;
                        from_prims::<3>(t, (v as u128) << 8)?;
                        want_eq!(t, u::<2>(&[lo, hi]).as_u16(), v, "as_u16");
                        want_eq!(t, U::<2>::from_u16(v).to_le_bytes(), [lo, hi], "from_u16");
                    }
                    want_eq!(t, u::<1>(&[hi]).as_u8(), hi, "as_u8");
                    want_eq!(t, U::<1>::from_u8(hi).to_le_bytes(), [hi], "from_u8");
                    Ok(())
                },
            );
        }

        c.section("direct conversions");
        for i in 0..128 {
            c.case(
                || format!("as_ and from_ with runs of ones that start at bit {i}"),
                |t| {
                    for j in i..128 {
                        let run = (u128::MAX >> (127 - j)) & (u128::MAX << i);
                        for v in [run, !run, run ^ 0x0123_4567_89AB_CDEF_1122_3344_5566_7788] {
                            let b = v.to_le_bytes();
                            want_eq!(t, u::<16>(&b).as_u128(), v, "as_u128");
                            want_eq!(t, U::<16>::from_u128(v).to_le_bytes(), b, "from_u128");
                            want_eq!(t, u::<8>(&b[..8]).as_u64(), v as u64, "as_u64");
                            want_eq!(t, U::<8>::from_u64(v as u64).to_le_bytes().to_vec(), b[..8].to_vec(), "from_u64");
                            want_eq!(t, u::<8>(&b[..8]).as_usize(), v as usize, "as_usize");
                            want_eq!(t, U::<8>::from_usize(v as usize).to_le_bytes().to_vec(), b[..8].to_vec(), "from_usize");
                            want_eq!(t, u::<4>(&b[..4]).as_u32(), v as u32, "as_u32");
                            want_eq!(t, U::<4>::from_u32(v as u32).to_le_bytes().to_vec(), b[..4].to_vec(), "from_u32");
                            t.state();
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}
