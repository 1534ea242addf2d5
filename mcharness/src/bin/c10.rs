//! C10: BigInts used from several threads
use numeric_ints::BigInt;
use numeric_mc::engine::{self, Ctx};
use numeric_mc_sched::mc::{self, Bounds, Scenario};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op {
    /// Create a value: A, B, -A
    MakeA,
    MakeB,
    MakeNegA,
    /// Clone the value shared by all threads
    CloneShared,
    /// Clone the last of the own values
    Clone,
    /// Drop the last or first of the own values
    Drop,
    DropFirst,
    /// Replace the last own value
    Overwrite,
    /// last = last + shared
    AddShared,
    /// last = last - last
    SubSelf,
    /// last = last * first
    Mul,
    Neg,
    /// Compare the last own value with the shared one
    Cmp,
    /// Read the last own value
    Read,
    /// Read the shared value
    ReadShared,
}
use Op::*;

const ALL: [Op; 15] = [
    MakeA, MakeB, MakeNegA, CloneShared, Clone, Drop, DropFirst, Overwrite, AddShared, SubSelf, Mul,
    Neg, Cmp, Read, ReadShared,
];

// Few significant bits, so that floating point tells them, their sums and their products apart
const A: u128 = 5 << 60;
const B: u128 = 3 << 64;
const STEP: u128 = 1 << 59;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Init {
    /// Threads start with nothing; shared is A
    Nothing,
    /// Every thread starts with a clone of the shared A
    Clones,
    /// The same, while the original is gone: shared is B
    Orphans,
    /// Every thread owns a value of its own, and a value in between is gone
    Own,
    /// 31 other values are live
    Full,
}

/// What a thread saw
type Obs = Vec<(u8, i128)>;

struct X {
    init: Init,
    prog: Vec<Vec<Op>>,
    want: Vec<Obs>,
    /// Only this thread runs
    alone: Option<usize>,
}

struct S {
    shared: BigInt,
    own: Vec<Cell<Option<BigInt>>>,
    left: RefCell<Vec<BigInt>>,
    others: Vec<BigInt>,
}

thread_local! {
    static SEEN: RefCell<Vec<Obs>> = const { RefCell::new(Vec::new()) };
}

/// Read a value, in the way that looks at the store just once
fn read(b: &BigInt) -> i128 {
    i128::from(b.approx_float().to_bits())
}

/// What a value reads as when it is not shared, as created from an integer
fn reads_as(v: u128) -> i128 {
    read(&BigInt::from(v))
}

fn see(tid: usize, kind: u8, v: i128) {
    mc::outside(|| SEEN.with(|s| s.borrow_mut()[tid].push((kind, v))));
}

impl X {
    fn program(&self, s: &S, tid: usize) {
        let mut vals: Vec<BigInt> = Vec::with_capacity(8);
        vals.extend(s.own[tid].take());
        for &op in &self.prog[tid] {
            match op {
                MakeA => vals.push(BigInt::from(A)),
                MakeB => vals.push(BigInt::from(B)),
                MakeNegA => vals.push(BigInt::from(-(A as i128))),
                CloneShared => vals.push(s.shared.clone()),
                Clone => vals.push(vals.last().unwrap().clone()),
                Drop => drop(vals.pop()),
                DropFirst => drop(vals.remove(0)),
                Overwrite => *vals.last_mut().unwrap() = BigInt::from(B),
                AddShared => {
                    let new = vals.last().unwrap() + &s.shared;
                    *vals.last_mut().unwrap() = new;
                }
                SubSelf => {
                    let l = vals.last().unwrap();
                    let new = l - l;
                    *vals.last_mut().unwrap() = new;
                }
                Mul => {
                    let new = vals.last().unwrap() * &vals[0];
                    *vals.last_mut().unwrap() = new;
                }
                Neg => {
                    let l = vals.pop().unwrap();
                    vals.push(-l);
                }
                Cmp => {
                    let l = vals.last().unwrap();
                    see(tid, 1, l.cmp(&s.shared) as i128);
                    see(tid, 2, i128::from(*l == s.shared));
                }
                Read => see(tid, 3, read(vals.last().unwrap())),
                ReadShared => see(tid, 4, read(&s.shared)),
            }
        }
        for v in &vals {
            see(tid, 5, read(v));
        }
        s.left.borrow_mut().extend(vals);
    }
}

impl Scenario for X {
    type S = S;

    fn threads(&self) -> usize {
        if self.alone.is_some() {
            1
        } else {
            self.prog.len()
        }
    }

    fn setup(&self) -> S {
        let n = self.prog.len();
        mc::outside(|| SEEN.with(|s| *s.borrow_mut() = vec![Vec::new(); n]));
        let mut others = Vec::new();
        if self.init == Init::Full {
            others.extend((0..31u128).map(|i| BigInt::from((100 + i) << 64)));
        }
        let (shared, own): (BigInt, Vec<Option<BigInt>>) = match self.init {
            Init::Nothing | Init::Full => (BigInt::from(A), (0..n).map(|_| None).collect()),
            Init::Clones => {
                let a = BigInt::from(A);
                let own = (0..n).map(|_| Some(a.clone())).collect();
                (a, own)
            }
            Init::Orphans => {
                let a = BigInt::from(A);
                let own = (0..n).map(|_| Some(a.clone())).collect();
                drop(a);
                (BigInt::from(B), own)
            }
            Init::Own => {
                let a = BigInt::from(A);
                let gone = BigInt::from(B);
                let own = (0..n).map(|i| Some(BigInt::from(A + STEP + i as u128 * STEP))).collect();
                drop(gone);
                (a, own)
            }
        };
        S {
            shared,
            own: own.into_iter().map(Cell::new).collect(),
            left: RefCell::new(Vec::with_capacity(32)),
            others,
        }
    }

    fn run(&self, s: &S, tid: usize) {
        let tid = self.alone.unwrap_or(tid);
        self.program(s, tid);
        if self.alone.is_some() {
            return;
        }
        let got = mc::outside(|| SEEN.with(|s| s.borrow()[tid].clone()));
        if got != self.want[tid] {
            let want = &self.want[tid];
            mc::fail(|| format!("thread {} saw {got:?} (kind, value), alone it sees {want:?}", tid + 1));
        }
    }

    fn finish(&self, s: S) -> Result<u64, String> {
        let want_shared = if self.init == Init::Orphans { B } else { A };
        if self.alone.is_none() {
            if read(&s.shared) != reads_as(want_shared) {
                return Err(format!("in the end, the shared value reads as {}", read(&s.shared)));
            }
            for (i, o) in s.others.iter().enumerate() {
                if read(o) != reads_as((100 + i as u128) << 64) {
                    return Err(format!("in the end, the untouched value {i} reads as {}", read(o)));
                }
            }
            // What the threads left, in any order
            let mut got: Vec<i128> = s.left.borrow().iter().map(read).collect();
            let mut want: Vec<i128> = self
                .want
                .iter()
                .flatten()
                .filter(|o| o.0 == 5)
                .map(|o| o.1)
                .collect();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                return Err(format!("in the end, the values left by the threads are {got:?}, expected {want:?}"));
            }
        }
        drop(s);
        Ok(0)
    }
}

fn programs(len: usize, held: usize) -> Vec<Vec<Op>> {
    fn go(len: usize, held: usize, muls: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if len == 0 {
            out.push(cur.clone());
            return;
        }
        for op in ALL {
            let next = match op {
                MakeA | MakeB | MakeNegA | CloneShared => held + 1,
                ReadShared => held,
                _ if held == 0 => continue,
                // Products of more than two would not fit what is compared
                Mul if muls > 0 => continue,
                // The same as the last if there is only one
                DropFirst if held == 1 => continue,
                Clone => held + 1,
                Drop | DropFirst => held - 1,
                _ => held,
            };
            cur.push(op);
            go(len - 1, next, muls + usize::from(op == Mul), cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(len, held, 0, &mut Vec::new(), &mut out);
    out
}

const fn b(p: u32, d: u32) -> Bounds {
    Bounds {
        preemptions: p,
        deviations: d,
    }
}

#[derive(Default)]
struct Totals {
    execs: u64,
    truncated: u64,
    skipped: u64,
}

fn run(c: &mut Ctx, tot: &mut Totals, init: Init, prog: Vec<Vec<Op>>, bounds: &[Bounds]) {
    let quiet = |o: &Op| matches!(o, Neg | Cmp | Read | ReadShared);
    // Nothing to see unless at least two threads change something
    if prog.iter().filter(|p| !p.iter().all(quiet)).count() == 0 {
        return;
    }
    c.case(
        || format!("{init:?} {prog:?}"),
        |t| {
            let mut x = X {
                init,
                prog: prog.clone(),
                want: Vec::new(),
                alone: None,
            };
            for i in 0..prog.len() {
                x.alone = Some(i);
                if mc::explore(&x, &[], t).is_err() {
                    // Not about threads
                    tot.skipped += 1;
                    return Ok(());
                }
                let o = SEEN.with(|s| s.borrow()[i].clone());
                x.want.push(o);
            }
            x.alone = None;
            let r = mc::explore(&x, bounds, t)?;
            tot.execs += r.executions;
            tot.truncated += u64::from(r.truncated);
            t.saw(&x.want);
            Ok(())
        },
    );
}

fn held(i: Init) -> usize {
    usize::from(matches!(i, Init::Clones | Init::Orphans | Init::Own))
}

fn two(c: &mut Ctx, tot: &mut Totals, init: Init, l1: usize, l2: usize, bounds: &[Bounds]) {
    let (p1, p2) = (programs(l1, held(init)), programs(l2, held(init)));
    for x in &p1 {
        for y in &p2 {
            if l1 == l2 && init != Init::Own && x > y {
                continue;
            }
            run(c, tot, init, vec![x.clone(), y.clone()], bounds);
        }
    }
}

fn three(c: &mut Ctx, tot: &mut Totals, init: Init, bounds: &[Bounds]) {
    let p = programs(1, held(init));
    for x in &p {
        for y in &p {
            for z in &p {
                if (x <= y && y <= z) || init == Init::Own {
                    run(c, tot, init, vec![x.clone(), y.clone(), z.clone()], bounds);
                }
            }
        }
    }
}

const B21: Bounds = b(2, 1);
const B32: Bounds = b(3, 2);
const B43: Bounds = b(4, 3);
const B63: Bounds = b(6, 3);

const INITS: [Init; 5] = [Init::Nothing, Init::Clones, Init::Orphans, Init::Own, Init::Full];

fn body(c: &mut Ctx) {
    let mut tot = Totals::default();
    let t = &mut tot;
    let th = c.thorough;
    c.section("two threads, one operation each");
    for i in INITS {
        two(c, t, i, 1, 1, if th { &[B63] } else { &[B43] });
    }
    c.section("two threads, two operations each");
    for i in [Init::Nothing, Init::Clones, Init::Orphans, Init::Own] {
        two(c, t, i, 2, 2, if th { &[B32] } else { &[B21] });
    }
    c.section("three threads, one operation each");
    for i in [Init::Nothing, Init::Clones, Init::Orphans, Init::Own] {
        three(c, t, i, if th { &[B32] } else { &[B21] });
    }
    c.section("two threads, two operations each, at a block boundary");
    if th {
        two(c, t, Init::Full, 2, 2, &[B21]);
    }
    c.section("two threads, three operations against one");
    if th {
        for i in [Init::Nothing, Init::Clones, Init::Orphans, Init::Own] {
            two(c, t, i, 3, 1, &[B32]);
        }
    }
    println!("EXTRA schedules_executed {}", tot.execs);
    println!("EXTRA scenarios_not_exhausted {}", tot.truncated);
    println!("EXTRA scenarios_failing_single_threaded {}", tot.skipped);
}

fn main() {
    engine::main(body)
}
