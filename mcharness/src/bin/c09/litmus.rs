//! The explorer itself, on programs whose possible results are known
use numeric_mc::engine::Ctx;
use numeric_mc_sched::mc::{self, fence, Bounds, Raw, Scenario};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::{self, *};

struct S {
    v: [Raw; 3],
    data: u64,
}

struct L {
    threads: usize,
    f: fn(&S, usize) -> Vec<u64>,
    end: fn(&S) -> Vec<u64>,
}

thread_local! {
    static SEEN: RefCell<Vec<(usize, Vec<u64>)>> = const { RefCell::new(Vec::new()) };
    static ALL: RefCell<BTreeSet<Vec<u64>>> = const { RefCell::new(BTreeSet::new()) };
}

impl Scenario for L {
    type S = S;
    fn threads(&self) -> usize {
        self.threads
    }
    fn setup(&self) -> S {
        mc::outside(|| SEEN.with(|s| s.borrow_mut().clear()));
        S {
            v: [Raw(0), Raw(0), Raw(0)],
            data: 0,
        }
    }
    fn run(&self, s: &S, tid: usize) {
        let r = (self.f)(s, tid);
        mc::outside(|| SEEN.with(|s| s.borrow_mut().push((tid, r.to_vec()))));
    }
    fn finish(&self, s: S) -> Result<u64, String> {
        let e = (self.end)(&s);
        mc::outside(|| {
            let mut l = SEEN.with(|s| s.borrow().clone());
            l.sort();
            let mut o: Vec<u64> = l.into_iter().flat_map(|x| x.1).collect();
            o.extend(&e);
            let h = mc::hash(&o);
            ALL.with(|a| a.borrow_mut().insert(o));
            Ok(h)
        })
    }
}

fn mp(s: &S, t: usize, w: Ordering, r: Ordering, fw: Option<Ordering>, fr: Option<Ordering>) -> Vec<u64> {
    if t == 0 {
        s.v[0].store(1, Relaxed);
        if let Some(f) = fw {
            fence(f);
        }
        s.v[1].store(1, w);
        vec![]
    } else {
        let a = s.v[1].load(r);
        if let Some(f) = fr {
            fence(f);
        }
        let b = s.v[0].load(Relaxed);
        vec![a, b]
    }
}

fn sb(s: &S, t: usize, o: Ordering, f: Option<Ordering>) -> Vec<u64> {
    s.v[t].store(1, o);
    if let Some(f) = f {
        fence(f);
    }
    vec![s.v[1 - t].load(if o == SeqCst { SeqCst } else { Relaxed })]
}

/// Pass data in plain memory
fn data(s: &S, t: usize, w: Ordering, r: Ordering) -> Vec<u64> {
    if t == 0 {
        mc::cell(&s.data, true);
        s.v[0].store(1, w);
    } else if s.v[0].load(r) == 1 {
        mc::cell(&s.data, false);
    }
    vec![]
}

/// As above, through a third thread's read-modify-write
fn sequence(s: &S, t: usize, rmw: bool) -> Vec<u64> {
    match t {
        0 => {
            mc::cell(&s.data, true);
            s.v[0].store(1, Release);
        }
        1 if rmw => {
            s.v[0].add(1, Relaxed);
        }
        1 => {
            if s.v[0].load(Relaxed) == 1 {
                s.v[0].store(2, Relaxed);
            }
        }
        _ => {
            if s.v[0].load(Acquire) == 2 {
                mc::cell(&s.data, false);
            }
        }
    }
    vec![]
}

fn iriw(s: &S, t: usize, o: Ordering) -> Vec<u64> {
    match t {
        0 | 1 => {
            s.v[t].store(1, if o == SeqCst { SeqCst } else { Release });
            vec![]
        }
        2 => vec![s.v[0].load(o), s.v[1].load(o)],
        _ => vec![s.v[1].load(o), s.v[0].load(o)],
    }
}

const NONE: fn(&S) -> Vec<u64> = |_| vec![];

type Case = (&'static str, L, Result<Vec<Vec<u64>>, &'static str>);

fn cases() -> Vec<Case> {
    let l = |threads, f, end| L { threads, f, end };
    let all2 = || vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1]];
    let no10 = || vec![vec![0, 0], vec![0, 1], vec![1, 1]];
    let no00 = || vec![vec![0, 1], vec![1, 0], vec![1, 1]];
    vec![
        ("message passing, relaxed", l(2, |s, t| mp(s, t, Relaxed, Relaxed, None, None), NONE), Ok(all2())),
        ("message passing, release only", l(2, |s, t| mp(s, t, Release, Relaxed, None, None), NONE), Ok(all2())),
        ("message passing, acquire only", l(2, |s, t| mp(s, t, Relaxed, Acquire, None, None), NONE), Ok(all2())),
        ("message passing, release and acquire", l(2, |s, t| mp(s, t, Release, Acquire, None, None), NONE), Ok(no10())),
        ("message passing, fences", l(2, |s, t| mp(s, t, Relaxed, Relaxed, Some(Release), Some(Acquire)), NONE), Ok(no10())),
        ("message passing, one fence", l(2, |s, t| mp(s, t, Relaxed, Relaxed, Some(Release), None), NONE), Ok(all2())),
        ("store buffering, release", l(2, |s, t| sb(s, t, Release, None), NONE), Ok(all2())),
        ("store buffering, sequentially consistent", l(2, |s, t| sb(s, t, SeqCst, None), NONE), Ok(no00())),
        ("store buffering, fences", l(2, |s, t| sb(s, t, Relaxed, Some(SeqCst)), NONE), Ok(no00())),
        (
            "coherence of reads",
            l(2, |s, t| if t == 0 { s.v[0].store(1, Relaxed); s.v[0].store(2, Relaxed); vec![] } else { vec![s.v[0].load(Relaxed), s.v[0].load(Relaxed)] }, NONE),
            Ok(vec![vec![0, 0], vec![0, 1], vec![0, 2], vec![1, 1], vec![1, 2], vec![2, 2]]),
        ),
        (
            "atomic increments",
            l(3, |s, _| { s.v[0].add(1, Relaxed); vec![] }, |s| vec![s.v[0].load(Relaxed)]),
            Ok(vec![vec![3]]),
        ),
        (
            "separate load and store",
            l(2, |s, _| { let v = s.v[0].load(SeqCst); s.v[0].store(v + 1, SeqCst); vec![] }, |s| vec![s.v[0].load(Relaxed)]),
            Ok(vec![vec![1], vec![2]]),
        ),
        (
            "one exchange wins",
            l(2, |s, t| vec![u64::from(s.v[0].cas(0, t as u64 + 1, Relaxed, Relaxed).1)], |s| vec![s.v[0].load(Relaxed)]),
            Ok(vec![vec![0, 1, 2], vec![1, 0, 1]]),
        ),
        ("independent reads, acquire", l(4, |s, t| iriw(s, t, Acquire), NONE), Ok(all_bits(4))),
        (
            "independent reads, sequentially consistent",
            l(4, |s, t| iriw(s, t, SeqCst), NONE),
            Ok(all_bits(4).into_iter().filter(|v| *v != [1, 0, 1, 0]).collect()),
        ),
        ("data, release and acquire", l(2, |s, t| data(s, t, Release, Acquire), NONE), Ok(vec![vec![]])),
        ("data, relaxed store", l(2, |s, t| data(s, t, Relaxed, Acquire), NONE), Err("data race")),
        ("data, relaxed load", l(2, |s, t| data(s, t, Release, Relaxed), NONE), Err("data race")),
        ("data, release sequence", l(3, |s, t| sequence(s, t, true), NONE), Ok(vec![vec![]])),
        ("data, broken release sequence", l(3, |s, t| sequence(s, t, false), NONE), Err("data race")),
        (
            "waiting for another",
            l(2, |s, t| { if t == 0 { while s.v[0].load(Acquire) == 0 { mc::spin() } } else { s.v[0].store(1, Release) } vec![] }, NONE),
            Ok(vec![vec![]]),
        ),
        (
            "waiting for each other",
            l(2, |s, t| { while s.v[t].load(Acquire) == 0 { mc::spin() } s.v[1 - t].store(1, Release); vec![] }, NONE),
            Err("deadlock"),
        ),
        (
            "a lock without a hint",
            l(3, |s, _| { while !s.v[0].cas(0, 1, Acquire, Relaxed).1 {} mc::cell(&s.data, true); s.v[0].store(0, Release); vec![] }, NONE),
            Ok(vec![vec![]]),
        ),
        ("a loop without end", l(1, |s, _| { loop { s.v[0].add(1, Relaxed); } }, NONE), Err("does not terminate")),
    ]
}

fn all_bits(n: u32) -> Vec<Vec<u64>> {
    (0..1u64 << n).map(|m| (0..n).map(|i| m >> (n - 1 - i) & 1).collect()).collect()
}

pub fn body(c: &mut Ctx) {
    c.section("programs with known results, validating the explorer");
    for (name, l, want) in cases() {
        c.case(
            || name.to_string(),
            |t| {
                ALL.with(|a| a.borrow_mut().clear());
                let r = mc::explore(&l, &[Bounds { preemptions: 6, deviations: 3 }], t);
                let got: Vec<Vec<u64>> = ALL.with(|a| a.borrow().iter().cloned().collect());
                let ok = match (&r, &want) {
                    (Ok(_), Ok(w)) => got == *w,
                    (Err(e), Err(w)) => e.contains(w),
                    _ => false,
                };
                if !ok {
                    // Not a property of the code: the check itself is broken
                    println!("ENGINE litmus {name}: {:?} {got:?}, expected {want:?}", r.err());
                    std::process::exit(5);
                }
                Ok(())
            },
        );
    }
}
