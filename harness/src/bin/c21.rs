use numeric_mc::engine::{self, *};
use numeric_mc::{want, want_eq};
use numeric_static_iter::{zip_all, IntoStaticIter, StaticIter, StaticRangeTo};
use numeric_traits::identity::{One, Zero};
use std::cell::{Cell, RefCell};
use std::ops::{Add, Mul};

thread_local! {
    /// State of every owned element of this run: 1 live, 2 dropped
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static LOG: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    /// Closure call at which to panic
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static ZST_LIVE: Cell<i64> = const { Cell::new(0) };
}

const MAGIC: u64 = 0x5EED_0F_0E1E_3E27;

/// An owned element, without heap storage of its own, which notices being dropped twice
struct Own {
    magic: u64,
    id: usize,
    val: u64,
}

impl Own {
    fn new(val: u64) -> Own {
        let id = STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.push(1);
            s.len() - 1
        });
        Own { magic: MAGIC, id, val }
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC
            && STATE.with(|s| {
                let mut s = s.borrow_mut();
                match s.get_mut(self.id) {
                    Some(x) if *x == 1 => {
                        *x = 2;
                        true
                    }
                    _ => false,
                }
            });
        if !ok {
            BAD.with(|b| *b.borrow_mut() = Some(format!("element {} (id {}) is dropped twice or was never made", self.val, self.id)));
        }
    }
}

struct Zst;
impl Zst {
    fn new() -> Zst {
        ZST_LIVE.with(|z| z.set(z.get() + 1));
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_LIVE.with(|z| z.set(z.get() - 1));
    }
}

const WIDE: usize = 6;

/// What flows through a chain: the path of an element, and the elements it owns
struct Item {
    path: [u64; WIDE],
    len: usize,
    own: [Option<Own>; 4],
}

impl Item {
    fn with(own: Own) -> Item {
        let mut i = Item { path: [0; WIDE], len: 0, own: [const { None }; 4] };
        i.push(own.val);
        i.own[0] = Some(own);
        i
    }
    fn push(&mut self, v: u64) {
        self.path[self.len] = v;
        self.len += 1;
    }
    fn keep(&mut self, own: Own) {
        self.push(own.val);
        let slot = self.own.iter_mut().find(|o| o.is_none()).unwrap();
        *slot = Some(own);
    }
    fn path(&self) -> Vec<u64> {
        self.path[..self.len].to_vec()
    }
}

fn reset() {
    STATE.with(|s| s.borrow_mut().clear());
    BAD.with(|b| *b.borrow_mut() = None);
    LOG.with(|l| l.borrow_mut().clear());
    FUSE.with(|f| f.set(-1));
}

fn log(v: u64) {
    LOG.with(|l| l.borrow_mut().push(v));
    let fuse = FUSE.with(|f| {
        let v = f.get();
        f.set(v - 1);
        v
    });
    if fuse == 0 {
        panic!("planned");
    }
}

/// Whatever was made: dropped at most once, and exactly once after running to completion
fn verdict(t: &mut Tally, whole: bool, what: &dyn Fn() -> String) -> Res {
    t.op();
    if let Some(b) = BAD.with(|b| b.borrow_mut().take()) {
        return Err(format!("{}: {b}", what()));
    }
    if whole {
        let left = STATE.with(|s| s.borrow().iter().filter(|x| **x == 1).count());
        want!(t, left == 0, "{}: {left} elements were never dropped", what());
    }
    Ok(())
}

/// The elements that reached the end of the chain, in order
fn logged(t: &mut Tally, upto: usize, model: &[Vec<u64>], what: &dyn Fn() -> String) -> Res {
    let got = LOG.with(|l| l.borrow().clone());
    let want: Vec<u64> = model[..upto].iter().map(|p| p[0]).collect();
    want_eq!(t, got, want, "{}: elements consumed", what());
    Ok(())
}

/// A word: a sum or product that shows the order of its parts
#[derive(Clone, PartialEq, Debug)]
struct Word(Vec<u64>);
impl Add for Word {
    type Output = Word;
    fn add(mut self, o: Word) -> Word {
        self.0.extend(o.0);
        self
    }
}
impl Mul for Word {
    type Output = Word;
    fn mul(mut self, o: Word) -> Word {
        self.0.extend(o.0);
        self
    }
}
impl Zero for Word {
    fn zero() -> Word {
        Word(vec![])
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for Word {
    fn one() -> Word {
        Word(vec![])
    }
    fn is_one(&self) -> bool {
        self.0.is_empty()
    }
}

/// The main consumers
fn core<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res {
    t.state();
    {
        let what = || format!("collect of {N} elements through {name}");
        reset();
        let out: [Item; N] = make().collect();
        let got: Vec<_> = out.iter().map(|i| i.path()).collect();
        want_eq!(t, &got[..], model, "{}", what());
        verdict(t, false, &what)?;
        drop(out);
        verdict(t, true, &what)?;
    }
    {
        let what = || format!("fold of {N} elements through {name}");
        reset();
        let got = make().fold(vec![], |mut acc, i| {
            acc.push(i.path());
            acc
        });
        want_eq!(t, &got[..], model, "{}", what());
        verdict(t, true, &what)?;
    }
    for k in 0..=N {
        let stop = (k + 1).min(N);
        let what = || format!("try_fold of {N} elements through {name}, stopping at {k}");
        reset();
        let got = make().try_fold(vec![], |mut acc: Vec<Vec<u64>>, i| {
            acc.push(i.path());
            log(i.path[0]);
            if acc.len() == k + 1 { Err(acc) } else { Ok(acc) }
        });
        want_eq!(t, got.is_ok(), k == N, "{}: is Ok", what());
        let got = got.unwrap_or_else(|e| e);
        want_eq!(t, &got[..], &model[..stop], "{}", what());
        logged(t, stop, model, &what)?;
        verdict(t, k == N, &what)?;
    }
    Ok(())
}

/// Every consumer at every deciding element
fn consume<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res {
    let words: Vec<u64> = model.iter().flatten().copied().collect();
    t.state();
    // To completion
    {
        let what = || format!("collect of {N} elements through {name}");
        reset();
        let out: [Item; N] = make().collect();
        let got: Vec<_> = out.iter().map(|i| i.path()).collect();
        want_eq!(t, &got[..], model, "{}", what());
        verdict(t, false, &what)?;
        drop(out);
        verdict(t, true, &what)?;
    }
    {
        let what = || format!("fold of {N} elements through {name}");
        reset();
        let got = make().fold(vec![], |mut acc, i| {
            log(i.path[0]);
            acc.push(i.path());
            acc
        });
        want_eq!(t, &got[..], model, "{}", what());
        logged(t, N, model, &what)?;
        verdict(t, true, &what)?;
    }
    {
        let what = || format!("sum and product of {N} elements through {name}");
        reset();
        let s = make().map(|i| Word(i.path())).sum();
        let p = make().map(|i| Word(i.path())).product();
        want_eq!(t, &s.0, &words, "{}", what());
        want_eq!(t, &p.0, &words, "{}", what());
        verdict(t, true, &what)?;
    }
    // With a deciding element (or none, for k == N)
    for k in 0..=N {
        let stop = (k + 1).min(N);
        let whole = k == N;
        let pos = Cell::new(0usize);
        let hit = |i: &Item| {
            log(i.path[0]);
            let n = pos.get();
            pos.set(n + 1);
            n == k
        };
        {
            let what = || format!("try_fold of {N} elements through {name}, stopping at {k}");
            reset();
            pos.set(0);
            let got = make().try_fold(vec![], |mut acc: Vec<Vec<u64>>, i| {
                let h = hit(&i);
                acc.push(i.path());
                if h { Err(acc) } else { Ok(acc) }
            });
            want_eq!(t, got.is_ok(), whole, "{}: is Ok", what());
            let got = got.unwrap_or_else(|e| e);
            want_eq!(t, &got[..], &model[..stop], "{}", what());
            logged(t, stop, model, &what)?;
            verdict(t, whole, &what)?;
        }
        {
            let what = || format!("any of {N} elements through {name}, true at {k}");
            reset();
            pos.set(0);
            want_eq!(t, make().any(|i| hit(&i)), !whole, "{}", what());
            logged(t, stop, model, &what)?;
            verdict(t, whole, &what)?;
        }
        {
            let what = || format!("all of {N} elements through {name}, false at {k}");
            reset();
            pos.set(0);
            want_eq!(t, make().all(|i| !hit(&i)), whole, "{}", what());
            logged(t, stop, model, &what)?;
            verdict(t, whole, &what)?;
        }
        {
            let what = || format!("collect of {N} elements through {name} into Option, None at {k}");
            reset();
            pos.set(0);
            let got: Option<[Item; N]> = make().map(|i| if hit(&i) { None } else { Some(i) }).collect();
            want_eq!(t, got.is_some(), whole, "{}: is Some", what());
            if let Some(g) = &got {
                let g: Vec<_> = g.iter().map(|i| i.path()).collect();
                want_eq!(t, &g[..], model, "{}", what());
            }
            logged(t, stop, model, &what)?;
            verdict(t, false, &what)?;
            drop(got);
            verdict(t, whole, &what)?;
        }
        {
            let what = || format!("collect of {N} elements through {name} into Result, Err at {k}");
            reset();
            pos.set(0);
            let got: Result<[Item; N], Vec<u64>> = make().map(|i| if hit(&i) { Err(i.path()) } else { Ok(i) }).collect();
            match &got {
                Ok(g) => {
                    want!(t, whole, "{}: is Ok", what());
                    let g: Vec<_> = g.iter().map(|i| i.path()).collect();
                    want_eq!(t, &g[..], model, "{}", what());
                }
                Err(e) => {
                    want!(t, !whole, "{}: is Err", what());
                    want_eq!(t, e, &model[k], "{}: the error", what());
                }
            }
            logged(t, stop, model, &what)?;
            verdict(t, false, &what)?;
            drop(got);
            verdict(t, whole, &what)?;
        }
        // A panic in a closure must not drop or yield anything twice
        if k < N {
            let what = || format!("{N} elements through {name} with a panic at element {k}");
            reset();
            FUSE.with(|f| f.set(k as i64));
            let r = catch(|| make().map(|i| { log(i.path[0]); i }).collect::<[Item; N]>());
            want!(t, r.is_err(), "{}: the panic was lost", what());
            drop(r);
            verdict(t, false, &what)?;
            reset();
            FUSE.with(|f| f.set(k as i64));
            let r = catch(|| make().map(|i| { log(i.path[0]); Some(i) }).collect::<Option<[Item; N]>>());
            want!(t, r.is_err(), "{}: the panic was lost", what());
            drop(r);
            verdict(t, false, &what)?;
            reset();
            FUSE.with(|f| f.set(k as i64));
            let r = catch(|| make().fold(0, |a, i| { log(i.path[0]); a + 1 }));
            want!(t, r.is_err(), "{}: the panic was lost", what());
            verdict(t, false, &what)?;
        }
    }
    // Two levels of short circuit
    for k in 0..=N {
        for outer in [false, true] {
            let what = || format!("collect of {N} elements through {name} into Option<Option>, {} None at {k}", if outer { "outer" } else { "inner" });
            reset();
            let pos = Cell::new(0usize);
            let got: Option<Option<[Item; N]>> = make()
                .map(|i| {
                    log(i.path[0]);
                    let n = pos.get();
                    pos.set(n + 1);
                    if n != k { Some(Some(i)) } else if outer { None } else { Some(None) }
                })
                .collect();
            let shape = match &got {
                None => 0,
                Some(None) => 1,
                Some(Some(_)) => 2,
            };
            want_eq!(t, shape, if k == N { 2 } else if outer { 0 } else { 1 }, "{}: shape", what());
            if let Some(Some(g)) = &got {
                let g: Vec<_> = g.iter().map(|i| i.path()).collect();
                want_eq!(t, &g[..], model, "{}", what());
            }
            logged(t, (k + 1).min(N), model, &what)?;
            drop(got);
            verdict(t, k == N, &what)?;
            let what = || format!("collect of {N} elements through {name} into Result<Option>, {} at {k}", if outer { "Err" } else { "None" });
            reset();
            pos.set(0);
            let got: Result<Option<[Item; N]>, u64> = make()
                .map(|i| {
                    let n = pos.get();
                    pos.set(n + 1);
                    if n != k { Ok(Some(i)) } else if outer { Err(i.path[0]) } else { Ok(None) }
                })
                .collect();
            match &got {
                Err(e) => want!(t, outer && k < N && *e == model[k][0], "{}: Err({e})", what()),
                Ok(None) => want!(t, !outer && k < N, "{}: Ok(None)", what()),
                Ok(Some(_)) => want!(t, k == N, "{}: Ok(Some)", what()),
            }
            drop(got);
            verdict(t, k == N, &what)?;
        }
    }
    Ok(())
}

fn owned<const N: usize>(base: u64) -> [Own; N] {
    std::array::from_fn(|i| Own::new(base + i as u64))
}

/// Chains of adapters up to a depth
trait Chain {
    fn go<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res;
}

struct End;
struct More<C>(C);

impl Chain for End {
    fn go<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res {
        consume::<I, N>(t, name, make, model)
    }
}

/// The end of a long chain
struct Core;

impl Chain for Core {
    fn go<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res {
        core::<I, N>(t, name, make, model)
    }
}

fn extend(model: &[Vec<u64>], f: impl Fn(u64) -> u64) -> Vec<Vec<u64>> {
    model
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mut p = p.clone();
            p.push(f(i as u64));
            p
        })
        .collect()
}

impl<C: Chain> Chain for More<C> {
    fn go<I: StaticIter<N, Item = Item>, const N: usize>(t: &mut Tally, name: &str, make: &dyn Fn() -> I, model: &[Vec<u64>]) -> Res {
        core::<I, N>(t, name, make, model)?;
        let twice: Vec<Vec<u64>> = model.iter().map(|p| { let mut q = p.clone(); q.push(p[0] * 2 + 1); q }).collect();
        C::go::<_, N>(t, &format!("{name}.map"), &|| make().map(|mut i| { let v = i.path[0] * 2 + 1; i.push(v); i }), &twice)?;
        C::go::<_, N>(t, &format!("{name}.enumerate"), &|| make().enumerate().map(|(n, mut i)| { i.push(n as u64); i }), &extend(model, |i| i))?;
        C::go::<_, N>(t, &format!("{name}.zip(array)"), &|| make().zip(owned::<N>(300)).map(|(mut i, o)| { i.keep(o); i }), &extend(model, |i| 300 + i))?;
        C::go::<_, N>(t, &format!("array.zip({name})"), &|| owned::<N>(400).into_static_iter().zip(make()).map(|(o, mut i)| { i.keep(o); i }), &extend(model, |i| 400 + i))?;
        C::go::<_, N>(t, &format!("{name}.zip(range)"), &|| make().zip(StaticRangeTo::<N>.into_static_iter()).map(|(mut i, o)| { i.push(500 + o as u64); i }), &extend(model, |i| 500 + i))?;
        C::go::<_, N>(t, &format!("zip_all(({name}, array))"), &|| zip_all((make(), owned::<N>(600))).map(|(mut i, o)| { i.keep(o); i }), &extend(model, |i| 600 + i))?;
        C::go::<_, N>(t, &format!("zip_all([{name}])"), &|| zip_all([make()]).map(|[i]| i), model)
    }
}

fn sources<const N: usize>(c: &mut Ctx) {
    let model: Vec<Vec<u64>> = (0..N as u64).map(|i| vec![100 + i]).collect();
    c.case(|| format!("{N} owned elements, every chain of two adapters, main consumers"), |t| {
        More::<More<Core>>::go::<_, N>(t, "array", &|| owned::<N>(100).into_static_iter().map(Item::with), &model)
    });
    short::<N>(c);
}

/// Chains of one adapter and the other sources
fn short<const N: usize>(c: &mut Ctx) {
    let model: Vec<Vec<u64>> = (0..N as u64).map(|i| vec![100 + i]).collect();
    c.case(|| format!("{N} owned elements, every adapter, every consumer"), |t| {
        More::<End>::go::<_, N>(t, "array", &|| owned::<N>(100).into_static_iter().map(Item::with), &model)
    });
    c.case(|| format!("{N} borrowed elements"), |t| {
        let arr: [u64; N] = std::array::from_fn(|i| 100 + i as u64);
        More::<End>::go::<_, N>(t, "&array", &|| (&arr).into_static_iter().map(|v| Item::with(Own::new(*v))), &model)?;
        let refs: [&u64; N] = (&arr).into_static_iter().collect();
        for (i, r) in refs.iter().enumerate() {
            want!(t, std::ptr::eq(*r, &arr[i]), "borrowed element {i} of {N} is another one");
        }
        Ok(())
    });
    c.case(|| format!("range to {N}"), |t| {
        More::<End>::go::<_, N>(t, "range", &|| StaticRangeTo::<N>.into_static_iter().map(|i| Item::with(Own::new(100 + i as u64))), &model)?;
        let r: [usize; N] = StaticRangeTo::<N>.into_static_iter().collect();
        want!(t, r.iter().enumerate().all(|(i, v)| i == *v), "range to {N} is {r:?}");
        Ok(())
    });
    c.case(|| format!("zip_all of arrays of {N} elements"), |t| {
        t.state();
        let what = || format!("zip_all of arrays of {N} elements");
        macro_rules! many {
            ($($m:literal)*) => {$({
                reset();
                let src: [[Own; N]; $m] = std::array::from_fn(|k| owned::<N>(1000 * k as u64));
                let out: [[Own; $m]; N] = zip_all(src).collect();
                for (i, row) in out.iter().enumerate() {
                    for (k, o) in row.iter().enumerate() {
                        want_eq!(t, o.val, 1000 * k as u64 + i as u64, "element {i} of array {k}, {} of {N}", $m);
                    }
                }
                verdict(t, false, &what)?;
                drop(out);
                verdict(t, true, &what)?;
            })*};
        }
        many!(0 1 2 3 4 5);
        Ok(())
    });
    types::<N>(c);
}

/// The main consumers over a few chains
fn light<const N: usize>(c: &mut Ctx) {
    let model: Vec<Vec<u64>> = (0..N as u64).map(|i| vec![100 + i]).collect();
    c.case(|| format!("{N} owned elements, every consumer"), |t| {
        consume::<_, N>(t, "array", &|| owned::<N>(100).into_static_iter().map(Item::with), &model)?;
        core::<_, N>(t, "array.zip(array).enumerate", &|| owned::<N>(100).into_static_iter().map(Item::with).zip(owned::<N>(1000)).enumerate().map(|(n, (mut i, o))| { i.keep(o); i.push(n as u64); i }), &extend(&extend(&model, |i| 1000 + i), |i| i))?;
        core::<_, N>(t, "zip_all((range, array))", &|| zip_all((StaticRangeTo::<N>, owned::<N>(600))).map(|(n, o)| { let mut i = Item::with(Own::new(100 + n as u64)); i.keep(o); i }), &extend(&model, |i| 600 + i))
    });
    c.case(|| format!("zip_all of many arrays of {N} elements"), |t| {
        reset();
        let what = || format!("zip_all of 9 arrays of {N} elements");
        let src: [[Own; N]; 9] = std::array::from_fn(|k| owned::<N>(1000 * k as u64));
        let out: [[Own; 9]; N] = zip_all(src).collect();
        for (i, row) in out.iter().enumerate() {
            for (k, o) in row.iter().enumerate() {
                want_eq!(t, o.val, 1000 * k as u64 + i as u64, "element {i} of array {k}, 9 of {N}");
            }
        }
        verdict(t, false, &what)?;
        drop(out);
        t.state();
        verdict(t, true, &what)
    });
    types::<N>(c);
}

fn types<const N: usize>(c: &mut Ctx) {
    c.case(|| format!("{N} elements of other types"), |t| {
        t.state();
        macro_rules! plain {
            ($mk:expr) => {{
                let arr = || -> [_; N] { std::array::from_fn($mk) };
                let got: [_; N] = arr().into_static_iter().collect();
                want_eq!(t, got, arr(), "collect");
                let got: [_; N] = (&arr()).into_static_iter().map(|v| v.clone()).collect();
                want_eq!(t, got, arr(), "collect of references");
                let got = arr().into_static_iter().fold(Vec::new(), |mut v, x| { v.push(x); v });
                want_eq!(t, got, arr().to_vec(), "fold");
                let got: [_; N] = arr().into_static_iter().zip(arr()).enumerate().map(|(_, (a, _))| a).collect();
                want_eq!(t, got, arr(), "zip");
                let got: Option<[_; N]> = arr().into_static_iter().map(Some).collect();
                want_eq!(t, got, Some(arr()), "collect into Option");
            }};
        }
        plain!(|i| i as u8);
        plain!(|i| (i as u16).wrapping_mul(257));
        plain!(|i| i as u128 * 0x0123_4567_89AB_CDEF_0123);
        plain!(|i| [i as u64, 1, 2, 3, !(i as u64)]);
        plain!(|i| format!("element number {i} with some heap storage"));
        plain!(|i| vec![i; i % 5]);
        plain!(|i| (i as u8, i as u64, i % 2 == 0));
        plain!(|i| if i % 2 == 0 { Some(Box::new(i)) } else { None });
        plain!(|_| ());
        ZST_LIVE.with(|z| z.set(0));
        let z: [Zst; N] = std::array::from_fn(|_| Zst::new());
        let z: [Zst; N] = z.into_static_iter().collect();
        want_eq!(t, ZST_LIVE.with(|z| z.get()), N as i64, "live zero-sized elements");
        drop(z.into_static_iter().fold(0, |a, _| a + 1));
        want_eq!(t, ZST_LIVE.with(|z| z.get()), 0, "live zero-sized elements at the end");
        // Ordinary sums
        let arr: [i64; N] = std::array::from_fn(|i| (i as i64 - 3) * 7 + 1);
        want_eq!(t, arr.into_static_iter().sum(), arr.iter().sum::<i64>(), "sum");
        let arr: [i64; N] = std::array::from_fn(|i| if i % 2 == 0 && i < 60 { -2 } else { 1 });
        want_eq!(t, arr.into_static_iter().product(), arr.iter().product::<i64>(), "product");
        let b: [i64; N] = std::array::from_fn(|i| 5 - i as i64);
        let dot = arr.into_static_iter().zip(b).map(|(x, y)| x * y).sum();
        want_eq!(t, dot, arr.iter().zip(&b).map(|(x, y)| x * y).sum::<i64>(), "zip, map and sum");
        Ok(())
    });
}

fn main() {
    engine::main(|c| {
        c.section("chains of two adapters");
        sources::<3>(c);
        c.section("chains of one adapter");
        short::<0>(c);
        short::<1>(c);
        short::<4>(c);
        short::<17>(c);
        c.section("lengths");
        macro_rules! lengths {
            ($($n:literal)*) => {$( light::<$n>(c); )*};
        }
        lengths!(2 5 6 7 8 9 10 12 15 16 20 31 32 33 50 63 64 65 100 128 255 256 257);
    });
}
