//! C27: random integers. The generator is scripted: it hands out a given string of bits, so that what
//! is drawn is a function of that string, which is explored over all strings of a bounded space.
use numeric_ints::{I, U};
use numeric_mc::engine::{self, *};
use numeric_mc::want_eq;
use rand::{Fill, Rng, RngCore};

/// Hands out a string of bytes, then zeros
struct Script<'a> {
    bytes: &'a [u8],
    at: usize,
}

impl<'a> Script<'a> {
    fn new(bytes: &'a [u8]) -> Self {
        Script { bytes, at: 0 }
    }
    fn next(&mut self) -> u8 {
        let b = self.bytes.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        b
    }
}

impl RngCore for Script<'_> {
    fn next_u32(&mut self) -> u32 {
        u32::from_le_bytes(std::array::from_fn(|_| self.next()))
    }
    fn next_u64(&mut self) -> u64 {
        u64::from_le_bytes(std::array::from_fn(|_| self.next()))
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        dst.iter_mut().for_each(|d| *d = self.next());
    }
}

/// A way of making random bytes: the bytes of what is drawn, and how much of the script was used
type Draw = fn(&[u8]) -> (Vec<u8>, usize);

fn u_bytes<const N: usize>(v: U<N>) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}

/// The bytes of a signed value, as it is laid out
fn i_bytes<const N: usize>(v: I<N>) -> Vec<u8> {
    assert_eq!(std::mem::size_of::<I<N>>(), N);
    // SAFETY: Plain bytes of that size
    unsafe { std::mem::transmute_copy::<I<N>, [u8; N]>(&v) }.to_vec()
}

fn i_of<const N: usize>(b: [u8; N]) -> I<N> {
    assert_eq!(std::mem::size_of::<I<N>>(), N);
    // SAFETY: Plain bytes of that size, any of which are a value
    unsafe { std::mem::transmute_copy::<[u8; N], I<N>>(&b) }
}

/// Row-reduces bit columns and returns their rank
fn rank(cols: &[Vec<u8>], bits: usize) -> usize {
    let mut basis: Vec<Option<Vec<u8>>> = vec![None; bits];
    let mut rank = 0;
    for c in cols {
        let mut c = c.clone();
        for b in 0..bits {
            if c[b / 8] >> (b % 8) & 1 == 0 {
                continue;
            }
            match &basis[b] {
                Some(v) => c.iter_mut().zip(v).for_each(|(x, y)| *x ^= y),
                None => {
                    basis[b] = Some(c);
                    rank += 1;
                    break;
                }
            }
        }
    }
    rank
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// Every bit pattern comes from equally many scripts: what is drawn is an affine function of the script's
/// bits, of full rank
fn uniform(c: &mut Ctx, name: &'static str, n: usize, draw: Draw) {
    let (zero, used) = draw(&[]);
    let len = zero.len();
    let script = move |set: &[usize]| {
        let mut s = vec![0u8; used];
        for &i in set {
            s[i / 8] ^= 1 << (i % 8);
        }
        s
    };
    c.case(
        || format!("{name}, {n} bytes: every single bit of the generator"),
        |t| {
            let mut cols = Vec::new();
            for i in 0..used * 8 {
                let (v, u) = draw(&script(&[i]));
                want_eq!(t, u, used, "amount of generator output used with bit {i} set");
                want_eq!(t, v.len(), len, "length");
                cols.push(xor(&v, &zero));
                t.state();
            }
            want_eq!(t, rank(&cols, len * 8), len * 8, "independent bits of the {} drawn by {name} (N = {n})", len * 8);
            // The same script gives the same value
            for k in [0x00u8, 0xFF, 0x5A, 0x81] {
                let s: Vec<u8> = (0..used).map(|i| k.wrapping_add((i as u8).wrapping_mul(37))).collect();
                want_eq!(t, draw(&s), draw(&s), "two draws by {name} from the same generator (N = {n})");
                let mut want = zero.clone();
                for i in (0..used * 8).filter(|i| s[i / 8] >> (i % 8) & 1 == 1) {
                    want = xor(&want, &cols[i]);
                }
                want_eq!(t, draw(&s).0, want, "{name} from a dense script (N = {n})");
                t.state();
            }
            Ok(())
        },
    );
    // Pairs
    let all = used * 8 <= 512;
    for i in (0..used * 8).step_by(if all { 1 } else { 5 }) {
        c.case(
            || format!("{name}, {n} bytes: generator bit {i} with others"),
            |t| {
                let (vi, _) = draw(&script(&[i]));
                let others: Vec<usize> = if all { (i + 1..used * 8).collect() } else { [1, 7, 8, 15, 31, 32, 63, 64, 255, 256].iter().map(|d| i + d).filter(|j| *j < used * 8).collect() };
                for j in others {
                    let (vj, _) = draw(&script(&[j]));
                    let (v, u) = draw(&script(&[i, j]));
                    want_eq!(t, u, used, "amount of generator output used");
                    want_eq!(t, v, xor(&xor(&vi, &vj), &zero), "{name} with generator bits {i} and {j} (N = {n})");
                    t.state();
                }
                Ok(())
            },
        );
    }
}

/// Every pair of bytes at every pair of the first places, so that each value is counted
fn counted(c: &mut Ctx, name: &'static str, draw: Draw) {
    let (_, used) = draw(&[]);
    for p in 0..used {
        c.case(
            || format!("{name}: every byte at place {p} and every other"),
            |t| {
                for q in 0..used {
                    let mut seen = vec![0u32; 256];
                    for x in 0..=255u8 {
                        for y in 0..=255u8 {
                            let mut s = vec![0u8; used];
                            s[p] = x;
                            s[q] ^= y;
                            seen[draw(&s).0[0] as usize] += 1;
                        }
                        t.state();
                    }
                    // A place counts not at all, or evenly
                    let max = *seen.iter().max().unwrap();
                    let min = *seen.iter().min().unwrap();
                    want_eq!(t, (max == min) || (max == 65536), true, "values of {name} over bytes {p} and {q}: between {min} and {max} times each");
                }
                Ok(())
            },
        );
    }
}

/// Nothing of the old value is left
fn overwrites(c: &mut Ctx, name: &'static str, n: usize, fill: fn(u8, &[u8]) -> Vec<u8>) {
    c.case(
        || format!("{name}, {n} bytes: over every old content"),
        |t| {
            for k in 0..8u8 {
                let s: Vec<u8> = (0..n * 8).map(|i| (i as u8).wrapping_mul(2 * k + 1).wrapping_add(k * 31)).collect();
                let want = fill(0, &s);
                for old in 0..=255u8 {
                    want_eq!(t, fill(old, &s), want.clone(), "{name} over bytes {old} (N = {n})");
                    t.state();
                }
            }
            Ok(())
        },
    );
}

fn width<const N: usize>(c: &mut Ctx) {
    c.section(&format!("{N} bytes"));
    fn with<R>(s: &[u8], f: impl FnOnce(&mut Script<'_>) -> R) -> (R, usize) {
        let mut r = Script::new(s);
        let v = f(&mut r);
        (v, r.at)
    }
    let draws: Vec<(&'static str, Draw)> = vec![
        ("a random U<N>", |s| with(s, |r| u_bytes(r.random::<U<N>>()))),
        ("a random I<N>", |s| with(s, |r| i_bytes(r.random::<I<N>>()))),
        ("a filled U<N>", |s| with(s, |r| {
            let mut v = U::<N>::new();
            v.fill(r);
            u_bytes(v)
        })),
        ("a filled I<N>", |s| with(s, |r| {
            let mut v = i_of([0; N]);
            v.fill(r);
            i_bytes(v)
        })),
        ("two random U<N>", |s| with(s, |r| [u_bytes(r.random::<U<N>>()), u_bytes(r.random::<U<N>>())].concat())),
        ("two random I<N>", |s| with(s, |r| [i_bytes(r.random::<I<N>>()), i_bytes(r.random::<I<N>>())].concat())),
        ("two filled U<N>", |s| with(s, |r| {
            let (mut a, mut b) = (U::<N>::new(), U::<N>::new());
            r.fill(&mut a);
            r.fill(&mut b);
            [u_bytes(a), u_bytes(b)].concat()
        })),
    ];
    for (name, draw) in draws {
        uniform(c, name, N, draw);
        if N == 1 && !name.starts_with("two") {
            counted(c, name, draw);
        }
    }
    overwrites(c, "filling a U<N>", N, |old, s| {
        let mut v = U::<N>::from_le_bytes([old; N]);
        v.fill(&mut Script::new(s));
        u_bytes(v)
    });
    overwrites(c, "filling an I<N>", N, |old, s| {
        let mut v = i_of([old; N]);
        v.fill(&mut Script::new(s));
        i_bytes(v)
    });
}

fn main() {
    engine::main(|c| {
        width::<1>(c);
        width::<2>(c);
        width::<3>(c);
        width::<4>(c);
        width::<5>(c);
        width::<7>(c);
        width::<8>(c);
        width::<9>(c);
        width::<12>(c);
        width::<15>(c);
        width::<16>(c);
        width::<17>(c);
        width::<24>(c);
        width::<31>(c);
        width::<32>(c);
        width::<33>(c);
        width::<64>(c);
        width::<65>(c);
        if c.thorough {
            width::<6>(c);
            width::<10>(c);
            width::<20>(c);
            width::<48>(c);
            width::<128>(c);
            width::<129>(c);
        }
    });
}
