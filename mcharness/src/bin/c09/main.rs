//! C09: the interner under every interleaving
use numeric_mc::engine::{self, Ctx};
use numeric_mc_sched::mc::{self, Bounds, Scenario};
use numeric_utils::intern::InternId;
use numeric_utils::Interner;
use std::cell::RefCell;

#[cfg(feature = "linked")]
mod linked;
mod litmus;

#[derive(Clone, PartialEq)]
struct Val(Box<u64>);

fn val(v: u64) -> Val {
    Val(Box::new(v))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op {
    /// Add value A
    A,
    /// Add value B
    B,
    /// Take another reference to the last handle
    Dup,
    /// Give up the last handle
    Drop,
    /// Give up the first handle
    DropFirst,
    /// Read the last handle, and keep reading through the reference while the handle is held
    Get,
    /// Read the reference count of the last handle
    Count,
    /// Give up a reference to A that the thread does not have
    Over,
    /// Take a reference to the entry of A, also when nobody holds one (it keeps its value, as nothing
    /// else is added)
    Revive,
    /// Look at the entry that A will be given, without holding it: it is absent, or A from then on, as
    /// nothing is given up
    Peek,
}
use Op::*;

const ALL: [Op; 7] = [A, B, Dup, Drop, DropFirst, Get, Count];

/// The state the threads start from
#[derive(Clone, Copy, PartialEq, Debug)]
enum Init {
    /// No storage yet
    Empty,
    /// One empty block
    Capacity,
    /// Every thread holds A
    Held,
    /// Main holds A; every thread holds another reference to it
    HeldByMain,
    /// Every thread holds its own value: A, B, B..
    Own,
    /// A was there and is gone
    Dead,
    /// B was there and is gone
    DeadOther,
    /// 31 others are live
    AlmostFull,
    /// 32 others are live
    Full,
    /// 32 are live, and all threads hold A, the last of them
    FullHeld,
    /// 33 are live, the threads hold A, the first in the second block, and slot 5 is dead
    Second,
}

struct X {
    init: Init,
    prog: Vec<Vec<Op>>,
}

struct S {
    int: Interner<Val>,
    start: Vec<Vec<(usize, u64)>>,
    main: Vec<(usize, u64)>,
    /// The handle of the entry that was added first
    first: usize,
}

/// Handles that are held for certain: (owner, handle, value)
type Held = Vec<(usize, usize, u64)>;

thread_local! {
    static HELD: RefCell<Held> = const { RefCell::new(Vec::new()) };
    /// Handles left with their threads
    static LEFT: RefCell<Held> = const { RefCell::new(Vec::new()) };
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

const VA: u64 = 1;
const VB: u64 = 2;

fn id(i: usize) -> InternId {
    InternId::from_usize(i)
}

fn hold(who: usize, h: usize, v: u64) {
    let clash = mc::outside(|| {
        HELD.with(|s| {
            let mut s = s.borrow_mut();
            let clash = s.iter().copied().find(|&(_, h2, v2)| (v == v2) != (h == h2));
            s.push((who, h, v));
            clash
        })
    });
    if let Some((o, h2, v2)) = clash {
        mc::fail(|| {
            format!("thread {who} was given handle {h} for value {v} while thread {o} held handle {h2} for value {v2}")
        });
    }
}

fn unhold(who: usize, h: usize) {
    mc::outside(|| {
        HELD.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.iter().position(|&(o, h2, _)| o == who && h2 == h).unwrap();
            s.swap_remove(i);
        })
    })
}

fn read(int: &Interner<Val>, who: usize, h: usize, v: u64) -> &Val {
    match int.try_get(id(h)) {
        None => mc::fail(|| format!("handle {h} held by thread {who} for value {v} reads as absent")),
        Some(r) => {
            reread(r, who, h, v);
            r
        }
    }
}

fn reread(r: &Val, who: usize, h: usize, v: u64) {
    mc::touch(r);
    let p: *const u64 = &*r.0;
    if p.is_null() || p as usize == 0xDDDD_DDDD_DDDD_DDDD || p as usize == 0xAAAA_AAAA_AAAA_AAAA {
        mc::fail(|| format!("handle {h} held by thread {who} for value {v} points at invalid memory"));
    }
    let got = *r.0;
    if got != v {
        mc::fail(|| format!("handle {h} held by thread {who} for value {v} reads as {got}"));
    }
}

impl Scenario for X {
    type S = S;

    fn threads(&self) -> usize {
        self.prog.len()
    }

    fn setup(&self) -> S {
        mc::outside(|| {
            HELD.with(|s| s.borrow_mut().clear());
            LEFT.with(|s| s.borrow_mut().clear());
            SEEN.with(|s| s.borrow_mut().clear());
        });
        let n = self.prog.len();
        let int = match self.init {
            Init::Capacity => Interner::with_capacity(2),
            _ => Interner::new(),
        };
        let mut start = mc::outside(|| vec![Vec::new(); n]);
        let mut main = mc::outside(Vec::new);
        let mut first = 0;
        let add = |int: &Interner<Val>, v: u64| int.add::<Val, Val>(val(v)).into_usize();
        let fill = |int: &Interner<Val>, k: usize| {
            for i in 0..k {
                add(int, 100 + i as u64);
            }
        };
        let give = |int: &Interner<Val>, start: &mut Vec<Vec<(usize, u64)>>| {
            for (i, s) in start.iter_mut().enumerate() {
                let h = add(int, VA);
                hold(i, h, VA);
                mc::outside(|| s.push((h, VA)));
            }
        };
        match self.init {
            Init::Empty | Init::Capacity => {}
            Init::Held => give(&int, &mut start),
            Init::HeldByMain => {
                let h = add(&int, VA);
                hold(9, h, VA);
                mc::outside(|| main.push((h, VA)));
                give(&int, &mut start);
            }
            Init::Own => {
                for (i, s) in start.iter_mut().enumerate() {
                    let v = if i == 0 { VA } else { VB };
                    let h = add(&int, v);
                    hold(i, h, v);
                    mc::outside(|| s.push((h, v)));
                }
            }
            Init::Dead | Init::DeadOther => {
                let h = add(&int, if self.init == Init::Dead { VA } else { VB });
                first = h;
                int.decr(id(h));
            }
            Init::AlmostFull => fill(&int, 31),
            Init::Full => fill(&int, 32),
            Init::FullHeld => {
                fill(&int, 31);
                give(&int, &mut start);
            }
            Init::Second => {
                fill(&int, 32);
                give(&int, &mut start);
                int.decr(id(5));
            }
        }
        if matches!(self.init, Init::Held | Init::HeldByMain) {
            first = start[0][0].0;
        }
        S { int, start, main, first }
    }

    fn run(&self, s: &S, tid: usize) {
        let mut held = mc::outside(|| s.start[tid].clone());
        let mut refs: Vec<(usize, u64, &Val)> = mc::outside(Vec::new);
        for &op in &self.prog[tid] {
            match op {
                A | B => {
                    let v = if op == A { VA } else { VB };
                    let h = s.int.add::<Val, Val>(val(v)).into_usize();
                    hold(tid, h, v);
                    mc::outside(|| held.push((h, v)));
                }
                Dup => {
                    let &(h, v) = held.last().unwrap();
                    s.int.incr(id(h));
                    hold(tid, h, v);
                    mc::outside(|| held.push((h, v)));
                }
                Drop | DropFirst => {
                    let (h, _) = if op == Drop {
                        held.pop().unwrap()
                    } else {
                        held.remove(0)
                    };
                    if !held.iter().any(|x| x.0 == h) {
                        refs.retain(|r| r.0 != h);
                    }
                    unhold(tid, h);
                    s.int.decr(id(h));
                }
                Over => s.int.decr(id(s.first)),
                Peek => {
                    if let Some(r) = s.int.try_get(id(s.first)) {
                        reread(r, tid, s.first, VA);
                        mc::outside(|| refs.push((s.first, VA, r)));
                    }
                }
                Revive => {
                    s.int.incr(id(s.first));
                    hold(tid, s.first, VA);
                    mc::outside(|| held.push((s.first, VA)));
                }
                Get => {
                    let &(h, v) = held.last().unwrap();
                    let r = read(&s.int, tid, h, v);
                    mc::outside(|| refs.push((h, v, r)));
                }
                Count => {
                    let &(h, _) = held.last().unwrap();
                    let n = s.int.refcount(id(h));
                    let own = held.iter().filter(|x| x.0 == h).count();
                    if n < own || n > 100 {
                        mc::fail(|| {
                            format!("handle {h} counts {n} references, but thread {tid} alone holds {own}")
                        });
                    }
                    mc::outside(|| SEEN.with(|s| s.borrow_mut().push(n as u64)));
                }
            }
            for &(h, v, r) in &refs {
                reread(r, tid, h, v);
            }
        }
        mc::outside(|| {
            LEFT.with(|l| l.borrow_mut().extend(held.iter().map(|&(h, v)| (tid, h, v))));
            drop(held);
            drop(refs);
        });
    }

    fn finish(&self, s: S) -> Result<u64, String> {
        let left: Held = mc::outside(|| {
            let mut l = LEFT.with(|l| l.borrow().clone());
            l.extend(s.main.iter().map(|&(h, v)| (9, h, v)));
            l
        });
        let over = self.prog.iter().flatten().filter(|&&o| o == Over).count();
        for &(who, h, v) in left.iter().filter(|_| over == 0) {
            let r = s.int.try_get(id(h));
            if r.map(|r| *r.0) != Some(v) {
                return Err(format!("in the end, handle {h} of thread {who} for value {v} reads as {:?}", r.map(|r| *r.0)));
            }
            let n = left.iter().filter(|x| x.1 == h).count();
            let c = s.int.refcount(id(h));
            if n != c {
                return Err(format!("in the end, handle {h} counts {c} references, {n} are held"));
            }
        }
        // More was given up than was held: nothing is left, and it does not go below that
        if over > 0 {
            let c = s.int.refcount(id(s.first));
            let want = mc::outside(|| self.serial_counts());
            if !want.contains(&c) {
                return Err(format!("in the end, {c} references remain, which no order of the operations gives: {want:?}"));
            }
            return Ok(c as u64);
        }
        // The values that were there before
        let fill = match self.init {
            Init::AlmostFull | Init::FullHeld => 31,
            Init::Full | Init::Second => 32,
            _ => 0,
        };
        for i in 0..fill {
            if self.init == Init::Second && i == 5 {
                continue;
            }
            let v = 100 + i as u64;
            let r = s.int.try_get(id(i));
            if r.map(|r| *r.0) != Some(v) || s.int.refcount(id(i)) != 1 {
                return Err(format!("in the end, the untouched handle {i} for value {v} reads as {:?}", r.map(|r| *r.0)));
            }
        }
        // Everything else is dead, and what is held is found again. Handles are dense, so any slot
        // that any thread was given is below the number of adds.
        for v in [VA, VB] {
            let h = s.int.add::<Val, Val>(val(v)).into_usize();
            let n = left.iter().filter(|x| x.2 == v).count();
            if let Some(x) = left.iter().find(|x| x.2 == v) {
                if x.1 != h {
                    return Err(format!("in the end, value {v} is given handle {h} although {} is held", x.1));
                }
            }
            let c = s.int.refcount(id(h));
            if c != n + 1 {
                return Err(format!("in the end, value {v} counts {c} references, expected {}", n + 1));
            }
        }
        Ok(mc::outside(|| {
            let mut l: Vec<(usize, usize, u64)> = left.clone();
            l.sort_unstable();
            SEEN.with(|s| mc::hash(&(l, &*s.borrow())))
        }))
    }
}

impl X {
    /// Every number of references to A that is left by running the operations one at a time, in some
    /// order that each thread's own is a part of
    fn serial_counts(&self) -> Vec<usize> {
        fn go(p: &[Vec<Op>], at: &mut [usize], n: usize, out: &mut Vec<usize>) {
            let mut end = true;
            for t in 0..p.len() {
                let Some(&op) = p[t].get(at[t]) else { continue };
                end = false;
                let next = match op {
                    A | Dup | Revive => n + 1,
                    Drop | DropFirst | Over => n.saturating_sub(1),
                    B | Get | Count | Peek => n,
                };
                at[t] += 1;
                go(p, at, next, out);
                at[t] -= 1;
            }
            if end && !out.contains(&n) {
                out.push(n);
            }
        }
        let n = self.prog.len();
        let start = match self.init {
            Init::Held => n,
            Init::HeldByMain => n + 1,
            _ => 0,
        };
        let mut out = Vec::new();
        go(&self.prog, &mut vec![0; n], start, &mut out);
        out
    }
}

/// All programs of one thread of exactly `len` operations, that only use handles they hold
fn programs(len: usize, held: usize) -> Vec<Vec<Op>> {
    fn go(len: usize, held: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if len == 0 {
            // Reading a count at the end says nothing that the end does not
            out.push(cur.clone());
            return;
        }
        for op in ALL {
            let next = match op {
                A | B => held + 1,
                _ if held == 0 => continue,
                Dup => held + 1,
                Drop => held - 1,
                // The same as the last if there is only one
                DropFirst if held == 1 => continue,
                DropFirst => held - 1,
                Get | Count | Over | Revive | Peek => held,
            };
            cur.push(op);
            go(len - 1, next, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(len, held, &mut Vec::new(), &mut out);
    out
}

const fn b(p: u32, d: u32) -> Bounds {
    Bounds {
        preemptions: p,
        deviations: d,
    }
}

struct Totals {
    execs: u64,
    truncated: u64,
    max_points: usize,
    outcomes: u64,
}

impl Totals {
    fn add(&mut self, r: &mc::Report) {
        self.execs += r.executions;
        self.truncated += u64::from(r.truncated);
        self.outcomes += r.outcomes as u64;
        self.max_points = self.max_points.max(r.points);
    }
}

fn run(c: &mut Ctx, tot: &mut Totals, init: Init, prog: Vec<Vec<Op>>, bounds: &[Bounds]) {
    // Nothing to see if nobody changes anything
    if prog.iter().flatten().all(|o| matches!(o, Get | Count)) {
        return;
    }
    let x = X { init, prog };
    c.case(
        || format!("{init:?} {:?}", x.prog),
        |t| {
            let r = mc::explore(&x, bounds, t)?;
            tot.add(&r);
            Ok(())
        },
    );
}

fn handles(i: Init) -> usize {
    usize::from(matches!(
        i,
        Init::Held | Init::HeldByMain | Init::Own | Init::FullHeld | Init::Second
    ))
}

fn two(c: &mut Ctx, tot: &mut Totals, init: Init, l1: usize, l2: usize, bounds: &[Bounds]) {
    let (p1, p2) = (programs(l1, handles(init)), programs(l2, handles(init)));
    for x in &p1 {
        for y in &p2 {
            if l1 == l2 && init != Init::Own && x > y {
                continue;
            }
            run(c, tot, init, vec![x.clone(), y.clone()], bounds);
        }
    }
}

fn three(c: &mut Ctx, tot: &mut Totals, init: Init, len: usize, bounds: &[Bounds]) {
    let p = programs(len, handles(init));
    for x in &p {
        for y in &p {
            for z in &p {
                if (x > y && init != Init::Own) || y > z {
                    continue;
                }
                run(c, tot, init, vec![x.clone(), y.clone(), z.clone()], bounds);
            }
        }
    }
}

/// Giving up references, also ones that are not held, with and without others being taken
fn over(c: &mut Ctx, tot: &mut Totals, threads: usize, len: usize, bounds: &[Bounds]) {
    let mut p = vec![Vec::new()];
    for _ in 0..len {
        p = p
            .iter()
            .flat_map(|x: &Vec<Op>| [Drop, Over, A, Revive].map(|o| [&x[..], &[o]].concat()))
            .filter(|x| x.iter().filter(|&&o| o == Drop).count() <= 1)
            .collect();
    }
    let mut all: Vec<Vec<Vec<Op>>> = vec![Vec::new()];
    for _ in 0..threads {
        all = all
            .iter()
            .flat_map(|a| p.iter().map(|x| [&a[..], &[x.clone()]].concat()))
            .filter(|a| a.windows(2).all(|w| w[0] <= w[1]))
            .collect();
    }
    for i in [Init::Held, Init::HeldByMain, Init::Dead] {
        for a in &all {
            let has = |op| a.iter().flatten().any(|&o| o == op);
            if has(Over) && !(i == Init::Dead && has(Drop)) {
                run(c, tot, i, a.clone(), bounds);
            }
        }
    }
}

/// Looking at an entry while others add it
fn peek(c: &mut Ctx, tot: &mut Totals, threads: usize, len: usize, bounds: &[Bounds]) {
    let mut p = vec![Vec::new()];
    for _ in 0..len {
        p = p.iter().flat_map(|x: &Vec<Op>| [A, Peek].map(|o| [&x[..], &[o]].concat())).collect();
    }
    let mut all: Vec<Vec<Vec<Op>>> = vec![Vec::new()];
    for _ in 0..threads {
        all = all
            .iter()
            .flat_map(|a| p.iter().map(|x| [&a[..], &[x.clone()]].concat()))
            .filter(|a| a.windows(2).all(|w| w[0] <= w[1]))
            .collect();
    }
    for i in [Init::Capacity, Init::Dead, Init::DeadOther] {
        for a in &all {
            let has = |op| a.iter().flatten().any(|&o| o == op);
            if has(A) && has(Peek) {
                run(c, tot, i, a.clone(), bounds);
            }
        }
    }
}

/// Taking references to an entry that has none, in the same and other threads, with nothing else added
fn revive(c: &mut Ctx, tot: &mut Totals, threads: usize, len: usize, bounds: &[Bounds]) {
    fn go(len: usize, held: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if len == 0 {
            out.push(cur.clone());
            return;
        }
        for op in [A, Drop, Get, Count, Revive] {
            let next = match op {
                A | Revive => held + 1,
                _ if held == 0 => continue,
                Drop => held - 1,
                _ => held,
            };
            cur.push(op);
            go(len - 1, next, cur, out);
            cur.pop();
        }
    }
    let mut p = Vec::new();
    go(len, 0, &mut Vec::new(), &mut p);
    let mut all: Vec<Vec<Vec<Op>>> = vec![Vec::new()];
    for _ in 0..threads {
        all = all
            .iter()
            .flat_map(|a| p.iter().map(|x| [&a[..], &[x.clone()]].concat()))
            .filter(|a| a.windows(2).all(|w| w[0] <= w[1]))
            .collect();
    }
    for a in &all {
        if a.iter().flatten().any(|&o| o == Revive) {
            run(c, tot, Init::Dead, a.clone(), bounds);
        }
    }
}

const ALL_INITS: [Init; 11] = [
    Init::Empty,
    Init::Capacity,
    Init::Held,
    Init::HeldByMain,
    Init::Own,
    Init::Dead,
    Init::DeadOther,
    Init::AlmostFull,
    Init::Full,
    Init::FullHeld,
    Init::Second,
];

fn body(c: &mut Ctx) {
    let mut tot = Totals {
        execs: 0,
        truncated: 0,
        max_points: 0,
        outcomes: 0,
    };
    let t = &mut tot;
    litmus::body(c);
    let th = c.thorough;
    c.section("two threads, one operation each");
    for i in ALL_INITS {
        two(c, t, i, 1, 1, &[b(6, 3)]);
    }
    c.section("more decrements than references");
    over(c, t, 2, 1, &[b(4, 2)]);
    over(c, t, 2, 2, &[b(4, 2)]);
    over(c, t, 3, 1, &[b(4, 2)]);
    c.section("taking references to a dead entry");
    revive(c, t, 2, 1, &[b(6, 3)]);
    revive(c, t, 2, 2, if th { &[B62, B43] } else { &[B32] });
    revive(c, t, 3, 1, &[b(4, 2)]);
    if th {
        revive(c, t, 2, 3, &[B32]);
        revive(c, t, 3, 2, &[B21]);
        revive(c, t, 4, 1, &[B32]);
    }
    c.section("looking at an entry while it is added");
    peek(c, t, 2, 1, &[b(6, 3)]);
    peek(c, t, 2, 2, &[B43]);
    peek(c, t, 3, 1, &[B43]);
    if th {
        peek(c, t, 2, 3, &[B43]);
        peek(c, t, 3, 2, &[B32]);
    }
    c.section("two threads, two operations each");
    for i in [Init::Empty, Init::Capacity, Init::Held, Init::HeldByMain, Init::Own, Init::Dead] {
        two(c, t, i, 2, 2, if th { &[B62, B43] } else { &[B32] });
    }
    c.section("two threads, two operations each, at a block boundary");
    for i in [Init::AlmostFull, Init::Full, Init::FullHeld, Init::Second] {
        two(c, t, i, 2, 2, if th { &[B32] } else { &[B21] });
    }
    c.section("three threads, one operation each");
    for i in ALL_INITS {
        three(c, t, i, 1, if th { &[B43] } else { &[B21] });
    }
    c.section("two threads, three operations against one");
    for i in [Init::Empty, Init::Held, Init::HeldByMain, Init::Own, Init::Dead] {
        two(c, t, i, 3, 1, if th { &[B43] } else { &[B32] });
    }
    c.section("two threads, three operations each");
    for i in [Init::Held, Init::Own, Init::Dead] {
        if th {
            two(c, t, i, 3, 3, &[B21]);
        }
    }
    c.section("three threads, two operations each");
    for i in [Init::Held, Init::Own] {
        if th {
            three(c, t, i, 2, &[B21]);
        }
    }
    c.section("four threads, one operation each");
    four(c, t, &[B21]);
    #[cfg(feature = "linked")]
    linked::body(c, t);
    println!("EXTRA schedules_executed {}", tot.execs);
    println!("EXTRA distinct_outcomes {}", tot.outcomes);
    println!("EXTRA scenarios_not_exhausted {}", tot.truncated);
}

const B21: Bounds = b(2, 1);
const B32: Bounds = b(3, 2);
const B43: Bounds = b(4, 3);
const B62: Bounds = b(6, 2);

fn four(c: &mut Ctx, tot: &mut Totals, bounds: &[Bounds]) {
    let i = Init::Held;
    let p = programs(1, 1);
    for x in &p {
        for y in &p {
            for z in &p {
                for w in &p {
                    if x <= y && y <= z && z <= w {
                        run(c, tot, i, vec![x.clone(), y.clone(), z.clone(), w.clone()], bounds);
                    }
                }
            }
        }
    }
}

fn main() {
    engine::main(body)
}
