//! The list of blocks under the interner, on its own
use crate::{b, Totals};
use numeric_mc::engine::Ctx;
use numeric_mc_sched::mc::{self, Bounds, Scenario};
use numeric_utils::linked::UnsyncLinked;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op {
    Push,
    Len,
    /// Read the item at an index
    Get(usize),
    Iter,
}
use Op::*;

struct X {
    /// Items there from the start
    init: usize,
    prog: Vec<Vec<Op>>,
}

struct S {
    list: UnsyncLinked<Box<u64>>,
}

thread_local! {
    /// (value, position) of completed pushes
    static DONE: RefCell<Vec<(u64, usize)>> = const { RefCell::new(Vec::new()) };
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}

fn check(r: &Box<u64>, what: &str) -> u64 {
    mc::touch(r);
    let p: *const u64 = &**r;
    if p as usize == 0xDDDD_DDDD_DDDD_DDDD || p as usize == 0xAAAA_AAAA_AAAA_AAAA || p.is_null() {
        mc::fail(|| format!("{what} reads uninitialised memory"));
    }
    mc::touch(&**r);
    **r
}

/// Completed pushes of this thread or before the start
fn own(tid: usize) -> Vec<(u64, usize)> {
    DONE.with(|d| {
        d.borrow()
            .iter()
            .copied()
            .filter(|&(v, _)| v / 100 == 0 || v / 100 == tid as u64 + 1)
            .collect()
    })
}

impl Scenario for X {
    type S = S;

    fn threads(&self) -> usize {
        self.prog.len()
    }

    fn setup(&self) -> S {
        mc::outside(|| {
            DONE.with(|d| d.borrow_mut().clear());
            SEEN.with(|d| d.borrow_mut().clear());
        });
        let list = UnsyncLinked::new();
        for i in 0..self.init {
            let n = list.push(Box::new(i as u64));
            mc::outside(|| DONE.with(|d| d.borrow_mut().push((i as u64, n - 1))));
        }
        S { list }
    }

    fn run(&self, s: &S, tid: usize) {
        let mut next = (tid as u64 + 1) * 100;
        for &op in &self.prog[tid] {
            match op {
                Push => {
                    let n = s.list.push(Box::new(next));
                    let clash = mc::outside(|| {
                        DONE.with(|d| {
                            let c = d.borrow().iter().copied().find(|x| x.1 + 1 == n);
                            d.borrow_mut().push((next, n - 1));
                            c
                        })
                    });
                    if let Some((v, _)) = clash {
                        mc::fail(|| format!("values {v} and {next} were both pushed as item {n}"));
                    }
                    match s.list.get(n - 1) {
                        Some(r) if check(r, "get") == next => {}
                        Some(r) => {
                            let got = **r;
                            mc::fail(|| format!("{next} was pushed as item {n}, but that reads as {got}"))
                        }
                        None => mc::fail(|| format!("{next} was pushed as item {n}, but that does not exist")),
                    }
                    next += 1;
                }
                Len => {
                    let n = s.list.len();
                    let done = mc::outside(|| own(tid).iter().map(|x| x.1 + 1).max().unwrap_or(0));
                    if n < done {
                        mc::fail(|| format!("the length is {n} after item {done} was pushed"));
                    }
                    mc::outside(|| SEEN.with(|s| s.borrow_mut().push(n as u64)));
                }
                Get(i) => {
                    let got = s.list.get(i).map(|r| check(r, "get"));
                    let want = mc::outside(|| own(tid).iter().find(|x| x.1 == i).map(|x| x.0));
                    if want.is_some() && got != want {
                        mc::fail(|| format!("item {i} reads as {got:?}, expected {want:?}"));
                    }
                    mc::outside(|| SEEN.with(|s| s.borrow_mut().push(got.map_or(7, |v| v + 10))));
                }
                Iter => {
                    let mut items = mc::outside(Vec::new);
                    for r in s.list.iter() {
                        let v = check(r, "iter");
                        mc::outside(|| items.push(v));
                        if items.len() > 20 {
                            mc::fail(|| "iteration does not end".into());
                        }
                    }
                    let bad = mc::outside(|| {
                        own(tid).iter().find(|x| items.get(x.1) != Some(&x.0)).copied()
                    });
                    if let Some((v, i)) = bad {
                        mc::fail(|| format!("{v} was pushed as item {i}, iteration gives {items:?}"));
                    }
                    mc::outside(|| {
                        SEEN.with(|s| s.borrow_mut().extend(&items));
                        drop(items);
                    });
                }
            }
        }
    }

    fn finish(&self, s: S) -> Result<u64, String> {
        let got: Vec<u64> = s.list.iter().map(|r| check(r, "iter")).collect();
        let mut done = DONE.with(|d| d.borrow().clone());
        done.sort_by_key(|x| x.1);
        let want: Vec<u64> = done.iter().map(|x| x.0).collect();
        if got != want || s.list.len() != want.len() || s.list.is_empty() != want.is_empty() {
            return Err(format!("in the end the list is {got:?}, but {done:?} (value, index) were pushed"));
        }
        for (i, v) in want.iter().enumerate() {
            if s.list.get(i).map(|r| **r) != Some(*v) {
                return Err(format!("in the end, item {i} is not {v}"));
            }
        }
        if s.list.get(want.len()).is_some() {
            return Err("an item past the end exists".into());
        }
        drop(s);
        Ok(SEEN.with(|s| mc::hash(&(done, &*s.borrow()))))
    }
}

fn programs(len: usize) -> Vec<Vec<Op>> {
    let mut out = vec![Vec::new()];
    for _ in 0..len {
        out = out
            .iter()
            .flat_map(|p| {
                [Push, Len, Get(0), Get(1), Get(2), Iter].map(|o| {
                    let mut p: Vec<Op> = p.clone();
                    p.push(o);
                    p
                })
            })
            .collect();
    }
    out
}

fn run(c: &mut Ctx, tot: &mut Totals, init: usize, prog: Vec<Vec<Op>>, bounds: &[Bounds]) {
    if !prog.iter().flatten().any(|&o| o == Push) {
        return;
    }
    let x = X { init, prog };
    c.case(
        || format!("list of {init}, {:?}", x.prog),
        |t| {
            let r = mc::explore(&x, bounds, t)?;
            tot.add(&r);
            Ok(())
        },
    );
}

pub fn body(c: &mut Ctx, tot: &mut Totals) {
    let bounds = if c.thorough { b(5, 3) } else { b(3, 2) };
    let bounds = &[bounds];
    c.section("block list, two threads");
    for init in 0..3 {
        for len in 1..=2 {
            let p = programs(len);
            for x in &p {
                for y in &p {
                    if x <= y {
                        run(c, tot, init, vec![x.clone(), y.clone()], bounds);
                    }
                }
            }
        }
    }
    if c.thorough {
        c.section("block list, a longer thread");
        for init in 0..3 {
            for x in programs(3) {
                for y in programs(1) {
                    run(c, tot, init, vec![x.clone(), y], &[b(4, 2)]);
                }
            }
        }
    }
    c.section("block list, three threads");
    let bounds = if c.thorough { b(4, 2) } else { b(3, 1) };
    let bounds = &[bounds];
    for init in 0..3 {
        let p = programs(1);
        for x in &p {
            for y in &p {
                for z in &p {
                    if x <= y && y <= z {
                        run(c, tot, init, vec![x.clone(), y.clone(), z.clone()], bounds);
                    }
                }
            }
        }
    }
}
