use numeric_bits::bit_slice::{BitSliceExt, BitVecExt};
use numeric_bits::utils::{arr_to_int, const_reverse, int_to_arr, IntSlice};
use numeric_mc::alpha::seqs;
use numeric_mc::digits::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use std::collections::{HashSet, VecDeque};

/// The bits of a slice, least significant first
fn bits<T: Digit>(s: &[T]) -> Vec<bool> {
    s.iter().flat_map(|d| (0..T::BYTES * 8).map(move |i| d.val() >> i & 1 == 1)).collect()
}

fn from_bits<T: Digit>(b: &[bool]) -> Vec<T> {
    b.chunks(T::BYTES * 8).map(|c| T::of(c.iter().enumerate().fold(0, |v, (i, b)| v | (*b as u128) << i))).collect()
}

/// A fresh container holding some digits
trait Make<T>: BitSliceExt<Bit = T> {
    fn make(s: &[T]) -> Self;
    const KIND: &'static str;
}
impl<T: Digit> Make<T> for Vec<T> {
    fn make(s: &[T]) -> Self {
        s.to_vec()
    }
    const KIND: &'static str = "Vec";
}
impl<T: Digit, const N: usize> Make<T> for [T; N] {
    fn make(s: &[T]) -> Self {
        s.try_into().unwrap()
    }
    const KIND: &'static str = "array";
}

fn read<T: Digit, S: BitSliceExt<Bit = T> + ?Sized>(t: &mut Tally, kind: &str, s: &S, want: &[T]) -> Res {
    let ty = T::NAME;
    let bl = T::BYTES * 8;
    let b = bits(want);
    want_eq!(t, s.slice(), want, "slice of {kind} {want:?} ({ty})");
    want_eq!(t, s.len(), want.len(), "len of {kind} {want:?} ({ty})");
    want_eq!(t, s.is_empty(), want.is_empty(), "is_empty of {kind} {want:?} ({ty})");
    want_eq!(t, s.bit_len(), b.len(), "bit_len of {kind} {want:?} ({ty})");
    for i in (0..want.len() + 2).chain([usize::MAX / bl, usize::MAX]) {
        want_eq!(t, s.get_opt(i), want.get(i).copied(), "get_opt({i}) of {kind} {want:?} ({ty})");
        match want.get(i) {
            Some(v) => want_eq!(t, s.get(i), *v, "get({i}) of {kind} {want:?} ({ty})"),
            None => must_panic(|| format!("get({i}) of {kind} {want:?} ({ty})"), || s.get(i))?,
        }
    }
    for i in (0..b.len() + bl + 1).chain([usize::MAX]) {
        want_eq!(t, s.get_bit_opt(i), b.get(i).copied(), "get_bit_opt({i}) of {kind} {want:?} ({ty})");
        match b.get(i) {
            Some(v) => want_eq!(t, s.get_bit(i), *v, "get_bit({i}) of {kind} {want:?} ({ty})"),
            None if i == b.len() || i == usize::MAX => {
                must_panic(|| format!("get_bit({i}) of {kind} {want:?} ({ty})"), || s.get_bit(i))?
            }
            None => {}
        }
    }
    // Iteration
    let mut it = s.iter_bits();
    for (i, v) in b.iter().enumerate() {
        let left = b.len() - i;
        want_eq!(t, it.len(), left, "bits left at {i} of {kind} {want:?} ({ty})");
        want_eq!(t, it.size_hint(), (left, Some(left)), "size hint at {i} of {kind} {want:?} ({ty})");
        want_eq!(t, it.next(), Some(*v), "bit {i} iterated of {kind} {want:?} ({ty})");
    }
    for i in 0..bl + 2 {
        want_eq!(t, it.next(), None, "next {i} after the end of {kind} {want:?} ({ty})");
        want_eq!(t, it.len(), 0, "bits left after the end of {kind} {want:?} ({ty})");
        want_eq!(t, it.size_hint(), (0, Some(0)), "size hint after the end of {kind} {want:?} ({ty})");
    }
    want_eq!(t, s.iter_bits().collect::<Vec<_>>(), b.clone(), "collected bits of {kind} {want:?} ({ty})");
    want_eq!(t, s.iter_bits().count(), b.len(), "count of bits of {kind} {want:?} ({ty})");
    want_eq!(t, s.iter_bits().last(), b.last().copied(), "last bit of {kind} {want:?} ({ty})");
    for n in [0, 1, bl - 1, bl, bl + 1, 2 * bl] {
        let mut it = s.iter_bits();
        want_eq!(t, it.nth(n), b.get(n).copied(), "nth({n}) bit of {kind} {want:?} ({ty})");
        want_eq!(t, it.next(), b.get(n + 1).copied(), "bit after nth({n}) of {kind} {want:?} ({ty})");
    }
    Ok(())
}

/// Every setter at every index
fn write<T: Digit, S: Make<T>>(t: &mut Tally, a: &[T]) -> Res {
    let ty = T::NAME;
    let kind = S::KIND;
    let bl = T::BYTES * 8;
    read::<T, S>(t, kind, &S::make(a), a)?;
    let b = bits(a);
    for v in [T::of(0), T::of(1), T::of(u128::MAX), T::of(1 << (bl - 1))] {
        for i in (0..a.len() + 2).chain([usize::MAX]) {
            let mut m = a.to_vec();
            let inside = i < m.len();
            if inside {
                m[i] = v;
            }
            let mut s = S::make(a);
            want_eq!(t, s.set_opt(i, v).is_some(), inside, "set_opt({i}, {v}) of {kind} {a:?} ({ty})");
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set_opt({i}, {v}) ({ty})");
            let mut s = S::make(a);
            s.set_ignore(i, v);
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set_ignore({i}, {v}) ({ty})");
            let mut s = S::make(a);
            if inside {
                s.set(i, v);
            } else {
                must_panic(|| format!("set({i}, {v}) of {kind} {a:?} ({ty})"), || s.set(i, v))?;
            }
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set({i}, {v}) ({ty})");
        }
    }
    for v in [false, true] {
        for i in (0..b.len() + bl + 1).chain([usize::MAX]) {
            let mut m = b.clone();
            let inside = i < m.len();
            if inside {
                m[i] = v;
            }
            let m: Vec<T> = from_bits(&m);
            let mut s = S::make(a);
            want_eq!(t, s.set_bit_opt(i, v).is_some(), inside, "set_bit_opt({i}, {v}) of {kind} {a:?} ({ty})");
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set_bit_opt({i}, {v}) ({ty})");
            if inside {
                want_eq!(t, s.get_bit(i), v, "get_bit({i}) after set_bit_opt({i}, {v}) of {kind} {a:?} ({ty})");
            }
            let mut s = S::make(a);
            s.set_bit_ignore(i, v);
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set_bit_ignore({i}, {v}) ({ty})");
            let mut s = S::make(a);
            if inside {
                s.set_bit(i, v);
            } else if i == b.len() || i == usize::MAX {
                must_panic(|| format!("set_bit({i}, {v}) of {kind} {a:?} ({ty})"), || s.set_bit(i, v))?;
            }
            want_eq!(t, s.slice(), &m[..], "{kind} {a:?} after set_bit({i}, {v}) ({ty})");
        }
    }
    Ok(())
}

fn growing<T: Digit>(t: &mut Tally, a: &Vec<T>) -> Res {
    let ty = T::NAME;
    let bl = T::BYTES * 8;
    for v in [T::of(0), T::of(1), T::of(u128::MAX)] {
        for i in 0..a.len() + 4 {
            let mut m = a.clone();
            if i > m.len() {
                m.resize(i, v);
            }
            let mut s = a.clone();
            BitVecExt::extend(&mut s, i, v);
            want_eq!(t, &s, &m, "{a:?} extended to {i} with {v} ({ty})");
            let mut m = a.clone();
            while i >= m.len() {
                m.push(T::of(0));
            }
            m[i] = v;
            let mut s = a.clone();
            s.set_push(i, v);
            want_eq!(t, &s, &m, "{a:?} after set_push({i}, {v}) ({ty})");
            want_eq!(t, BitSliceExt::get(&s, i), v, "get({i}) after set_push({i}, {v}) of {a:?} ({ty})");
        }
    }
    for v in [false, true] {
        for i in 0..(a.len() + 3) * bl {
            let mut m = bits(a);
            while i >= m.len() {
                m.extend(vec![false; bl]);
            }
            m[i] = v;
            let m: Vec<T> = from_bits(&m);
            let mut s = a.clone();
            s.set_bit_push(i, v);
            want_eq!(t, &s, &m, "{a:?} after set_bit_push({i}, {v}) ({ty})");
            want_eq!(t, s.get_bit(i), v, "get_bit({i}) after set_bit_push({i}, {v}) of {a:?} ({ty})");
        }
    }
    // Far past the end
    for far in [7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300] {
        let v = T::of(u128::MAX);
        let i = a.len() + far;
        let mut m = a.clone();
        m.resize(i, v);
        let mut s = a.clone();
        BitVecExt::extend(&mut s, i, v);
        want_eq!(t, &s, &m, "{a:?} extended to {i} with {v} ({ty})");
        let mut m = a.clone();
        m.resize(i, T::of(0));
        m.push(v);
        let mut s = a.clone();
        s.set_push(i, v);
        want_eq!(t, &s, &m, "{a:?} after set_push({i}, {v}) ({ty})");
        want_eq!(t, IntSlice::shrink(&s[..]), &m[..], "shrunk {a:?} after set_push({i}, {v}) ({ty})");
        s[i] = T::of(0);
        let top = a.iter().rposition(|d| d.val() != 0).map_or(0, |x| x + 1).max(1);
        m.truncate(top);
        want_eq!(t, IntSlice::shrink(&s[..]), &m[..], "shrunk {s:?} ({ty})");
        want_eq!(t, IntSlice::shrink(s.clone()), m, "shrunk vector {s:?} ({ty})");
        for at in [0, 1, bl / 2, bl - 1] {
            let mut m = a.clone();
            m.resize(i, T::of(0));
            m.push(T::of(1 << at));
            let mut s = a.clone();
            s.set_bit_push(i * bl + at, true);
            want_eq!(t, &s, &m, "{a:?} after set_bit_push({}, true) ({ty})", i * bl + at);
            want!(t, s.get_bit(i * bl + at), "get_bit({}) of {a:?} after setting it ({ty})", i * bl + at);
            want_eq!(t, s.iter_bits().len(), m.len() * bl, "bits of {a:?} after set_bit_push({}, true) ({ty})", i * bl + at);
            want_eq!(t, s.iter_bits().filter(|b| *b).count(), bits(a).iter().filter(|b| **b).count() + 1, "set bits of {a:?} after set_bit_push({}, true) ({ty})", i * bl + at);
            m[i] = T::of(0);
            s.set_bit_push(i * bl + at, false);
            want_eq!(t, &s, &m, "{a:?} after setting and clearing bit {} ({ty})", i * bl + at);
        }
    }
    // Shrinking
    if !a.is_empty() {
        let top = a.iter().rposition(|d| d.val() != 0).unwrap_or(0);
        want_eq!(t, IntSlice::shrink(&a[..]), &a[..=top], "shrunk slice {a:?} ({ty})");
        want_eq!(t, IntSlice::shrink(a.clone()), a[..=top].to_vec(), "shrunk vector {a:?} ({ty})");
    }
    Ok(())
}

fn containers<T: Digit>(c: &mut Ctx) {
    let deep = c.thorough as u32;
    for len in 0..=3usize {
        c.section(&format!("bit access and growth, {} digits of {}", len, T::NAME));
        let level = if len <= 1 { 2 } else if len == 2 { 1 + deep } else { deep };
        for a in seqs(&alphabet::<T>(level), len) {
            c.case(|| format!("{a:?}"), |t| {
                t.state();
                read::<T, [T]>(t, "slice", &a[..], &a)?;
                write::<T, Vec<T>>(t, &a)?;
                match len {
                    0 => write::<T, [T; 0]>(t, &a)?,
                    1 => write::<T, [T; 1]>(t, &a)?,
                    2 => write::<T, [T; 2]>(t, &a)?,
                    _ => write::<T, [T; 3]>(t, &a)?,
                }
                growing(t, &a)
            });
        }
    }
    c.section(&format!("long slices of {}", T::NAME));
    for len in [31usize, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257] {
        for top in 0..=len {
            c.case(|| format!("{len} digits, highest at {top}"), |t| {
                let mut a = vec![T::of(0); len];
                if top < len {
                    a[top] = T::of(u128::MAX);
                }
                t.state();
                let keep = top % len;
                want_eq!(t, IntSlice::shrink(&a[..]), &a[..=keep], "shrunk slice {a:?} ({})", T::NAME);
                want_eq!(t, IntSlice::shrink(a.clone()), a[..=keep].to_vec(), "shrunk vector {a:?} ({})", T::NAME);
                want!(t, a.iter_bits().eq(bits(&a)), "bits of {a:?} ({})", T::NAME);
                for (i, b) in bits(&a).into_iter().enumerate() {
                    want_eq!(t, a.get_bit(i), b, "bit {i} of {a:?} ({})", T::NAME);
                }
                Ok(())
            });
        }
    }
    for len in [4usize, 5, 8, 9, 17] {
        let al = alphabet::<T>(2);
        for k in 0..al.len() {
            c.case(|| format!("{len} digits, pattern {k}"), |t| {
                let a: Vec<T> = (0..len).map(|i| al[(k + i * (k + 1)) % al.len()]).collect();
                t.state();
                read::<T, [T]>(t, "slice", &a[..], &a)?;
                write::<T, Vec<T>>(t, &a)?;
                growing(t, &a)
            });
        }
        // Every position of the top digit
        for top in 0..=len {
            c.case(|| format!("{len} digits, highest at {top}"), |t| {
                let mut a = vec![T::of(0); len];
                if top < len {
                    a[top] = T::of(1 << (T::BYTES * 8 - 1));
                }
                t.state();
                read::<T, [T]>(t, "slice", &a[..], &a)?;
                growing(t, &a)
            });
        }
    }
}

/// Operation histories of one growable vector
#[derive(Clone, Copy, Debug)]
enum Op {
    Extend(usize, u128),
    SetPush(usize, u128),
    BitPush(usize, bool),
    SetBit(usize, bool),
    Set(usize, u128),
    Shrink,
}

fn histories<T: Digit>(c: &mut Ctx, max_len: usize, depth: usize) {
    c.section(&format!("histories of one growable vector of {}", T::NAME));
    let bl = T::BYTES * 8;
    let mut ops = vec![Op::Shrink];
    for i in 0..max_len {
        for v in [0, 1, u128::MAX] {
            ops.extend([Op::Extend(i + 1, v), Op::SetPush(i, v), Op::Set(i, v)]);
        }
        for b in [0, 1, bl - 1] {
            for v in [false, true] {
                ops.extend([Op::BitPush(i * bl + b, v), Op::SetBit(i * bl + b, v)]);
            }
        }
    }
    for first in ops.clone() {
        c.case(|| format!("all histories of up to {depth} operations starting {first:?} (digit 2^128-1 is the maximum)"), |t| {
            let mut seen: HashSet<Vec<T>> = HashSet::new();
            let mut todo: VecDeque<(Vec<T>, usize)> = VecDeque::from([(vec![], 0)]);
            while let Some((s, d)) = todo.pop_front() {
                let menu = if d == 0 { vec![first] } else { ops.clone() };
                for op in menu {
                    let mut real = s.clone();
                    let mut m = s.clone();
                    match op {
                        Op::Extend(n, v) => {
                            BitVecExt::extend(&mut real, n, T::of(v));
                            if n > m.len() {
                                m.resize(n, T::of(v));
                            }
                        }
                        Op::SetPush(i, v) => {
                            real.set_push(i, T::of(v));
                            if i >= m.len() {
                                m.resize(i + 1, T::of(0));
                            }
                            m[i] = T::of(v);
                        }
                        Op::BitPush(i, v) => {
                            real.set_bit_push(i, v);
                            let mut b = bits(&m);
                            b.resize(b.len().max((i / bl + 1) * bl), false);
                            b[i] = v;
                            m = from_bits(&b);
                        }
                        Op::SetBit(i, v) => {
                            real.set_bit_ignore(i, v);
                            let mut b = bits(&m);
                            if i < b.len() {
                                b[i] = v;
                            }
                            m = from_bits(&b);
                        }
                        Op::Set(i, v) => {
                            real.set_ignore(i, T::of(v));
                            if i < m.len() {
                                m[i] = T::of(v);
                            }
                        }
                        Op::Shrink => {
                            if m.is_empty() {
                                continue;
                            }
                            real = IntSlice::shrink(real);
                            while m.len() > 1 && m[m.len() - 1] == T::of(0) {
                                m.pop();
                            }
                        }
                    }
                    want_eq!(t, &real, &m, "{s:?} after {op:?} ({})", T::NAME);
                    want!(t, real.iter_bits().eq(bits(&m)), "bits of {s:?} after {op:?} ({})", T::NAME);
                    if d + 1 < depth && seen.insert(m.clone()) {
                        t.state();
                        todo.push_back((m, d + 1));
                    }
                }
            }
            Ok(())
        });
    }
}

/// Values at which joining or splitting changes
fn interesting() -> Vec<R> {
    let mut v: Vec<R> = Vec::new();
    for bits in [0usize, 1, 4, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 136, 191, 192] {
        let p = R::from_u128(1).shl(bits);
        for d in [-2i128, -1, 0, 1, 2] {
            let x = p.add(&R::from_i128(d));
            if !x.is_neg() {
                v.push(x);
            }
        }
        v.push(p.add(&R::from_u128(0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10).shr_floor(128usize.saturating_sub(bits))));
        v.push(p.add(&p.shr_floor(9)).add(&p.shr_floor(17)));
    }
    numeric_mc::alpha::dedup(v)
}


macro_rules! join {
    ($c:ident: $($t:ident),*) => {$({
        $c.section(concat!("joining digits of ", stringify!($t)));
        let mut all: Vec<Vec<$t>> = Vec::new();
        for len in 0..=3usize {
            all.extend(seqs(&alphabet::<$t>(if len == 3 && !$c.thorough { 1 } else { 2 }), len));
        }
        for v in interesting() {
            let len = v.bit_len().div_ceil($t::BITS as usize).max(1);
            for extra in [0, 1, 3] {
                all.push(digits(&v, len + extra));
            }
        }
        if $t::BITS == 8 {
            all.extend(seqs(&(0..=255u128).map(|x| <$t as Digit>::of(x)).collect::<Vec<_>>(), 1));
            all.extend(seqs(&(0..=255u128).map(|x| <$t as Digit>::of(x)).collect::<Vec<_>>(), 2));
        }
        for a in all {
            $c.case(|| format!("{a:?}"), |t| {
                t.state();
                let v = value(&a);
                join!(@to t, a, v, $t: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
                Ok(())
            });
        }
    })*};
    (@to $tally:ident, $a:ident, $v:ident, $t:ident: $($u:ident),*) => {$({
        let want = $v.to_u128().and_then(|x| $u::try_from(x).ok());
        want_eq!($tally, arr_to_int::<$t, $u>(&$a), want, "digits {:?} of {} joined into {}", $a, stringify!($t), stringify!($u));
    })*};
}

macro_rules! split {
    ($c:ident: $($t:ident)*) => {$({
        $c.section(concat!("splitting ", stringify!($t)));
        let mut all: Vec<$t> = interesting().into_iter().filter_map(|r| $t::try_from(r.to_u128()?).ok()).collect();
        Extend::extend(&mut all, alphabet::<$t>(2));
        if $t::BITS <= 16 {
            all = (0..=$t::MAX).collect();
        }
        all.sort_unstable();
        all.dedup();
        for v in all {
            $c.case(|| format!("{v}"), |t| {
                t.state();
                split!(@to t, v, $t: u8, u16, u32, u64, u128, usize);
                Ok(())
            });
        }
    })*};
    (@to $tally:ident, $v:ident, $t:ident: $($u:ident),*) => {$({
        const N: usize = $t::BITS.div_ceil($u::BITS) as usize;
        split!(@n $tally, $v, $t, $u, { N });
        split!(@n $tally, $v, $t, $u, { N + 1 });
        split!(@n $tally, $v, $t, $u, { N + 3 });
    })*};
    (@n $tally:ident, $v:ident, $t:ident, $u:ident, $n:expr) => {{
        let got = int_to_arr::<$t, $u, $n>($v);
        want_eq!($tally, value(&got), R::from_u128($v as u128), "{} of {} split into {:?} ({})", $v, stringify!($t), got, stringify!($u));
    }};
}

fn reverse<const N: usize>(c: &mut Ctx) {
    let mut all: Vec<[u8; N]> = vec![std::array::from_fn(|i| (i as u8).wrapping_add(1)), std::array::from_fn(|i| (255 + 253 * i) as u8)];
    for i in 0..N {
        let mut a = [0; N];
        a[i] = 0x81;
        all.push(a);
    }
    if N <= 3 {
        all.extend(seqs(&[0u8, 1, 2, 127, 128, 255], N).into_iter().map(|v| <[u8; N]>::try_from(v).unwrap()));
    }
    for a in all {
        c.case(|| format!("{a:?}"), |t| {
            let mut want = a;
            want.reverse();
            t.state();
            want_eq!(t, const_reverse(a), want, "reverse of {a:?}");
            Ok(())
        });
    }
}

fn main() {
    engine::main(|c| {
        containers::<u8>(c);
        containers::<u16>(c);
        containers::<u32>(c);
        containers::<u64>(c);
        containers::<u128>(c);
        containers::<usize>(c);
        let (len, depth) = if c.thorough { (3, 6) } else { (3, 4) };
        histories::<u8>(c, len, depth);
        histories::<u16>(c, 3, depth - 1);
        histories::<u64>(c, 2, depth);
        histories::<u128>(c, 2, depth - 1);
        join!(c: u8, u16, u32, u64, u128, usize);
        split!(c: u8 u16 u32 u64 u128 usize);
        c.section("reversing byte arrays");
        reverse::<0>(c);
        reverse::<1>(c);
        reverse::<2>(c);
        reverse::<3>(c);
        reverse::<4>(c);
        reverse::<5>(c);
        reverse::<6>(c);
        reverse::<7>(c);
        reverse::<8>(c);
        reverse::<9>(c);
        reverse::<15>(c);
        reverse::<16>(c);
        reverse::<17>(c);
        reverse::<31>(c);
        reverse::<32>(c);
        reverse::<33>(c);
        reverse::<40>(c);
        reverse::<64>(c);
        reverse::<65>(c);
        reverse::<128>(c);
        reverse::<255>(c);
        reverse::<256>(c);
        reverse::<257>(c);
    });
}
