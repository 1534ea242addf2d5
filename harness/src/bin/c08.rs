use numeric_mc::engine::{self, *};
use numeric_mc::heap;
use numeric_mc::{want, want_eq};
use numeric_utils::intern::{InternId, Interner};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Debug;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

thread_local! {
    /// Live instances of tracked values
    static TRACKED: RefCell<HashMap<u64, u32>> = RefCell::new(HashMap::new());
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// A heap-free value which notices being dropped twice
struct Tracked {
    val: u32,
    id: u64,
}

impl Tracked {
    fn new(val: u32) -> Tracked {
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        TRACKED.with(|t| t.borrow_mut().insert(id, val));
        Tracked { val, id }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new(self.val)
    }
}

impl PartialEq for Tracked {
    fn eq(&self, o: &Tracked) -> bool {
        self.val == o.val
    }
}

impl Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let was = TRACKED.with(|t| t.borrow_mut().remove(&self.id));
        if was != Some(self.val) {
            BAD.with(|b| *b.borrow_mut() = Some(format!("a value was dropped twice or never made ({} {:?})", self.val, was)));
        }
    }
}

impl Borrow<u32> for Tracked {
    fn borrow(&self) -> &u32 {
        &self.val
    }
}

trait Val: Clone + PartialEq + Debug {
    fn make(k: u32) -> Self;
    fn key(&self) -> u32;
    /// Whether making values leaves the heap alone
    const FLAT: bool;
    fn put(i: &Interner<Self>, k: u32) -> usize;
}

impl Val for u8 {
    fn make(k: u32) -> u8 {
        k as u8
    }
    fn key(&self) -> u32 {
        *self as u32
    }
    const FLAT: bool = true;
    fn put(i: &Interner<u8>, k: u32) -> usize {
        i.add::<u8, u8>(k as u8).into_usize()
    }
}

impl Val for u32 {
    fn make(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        *self
    }
    const FLAT: bool = true;
    fn put(i: &Interner<u32>, k: u32) -> usize {
        i.add::<u32, u32>(k).into_usize()
    }
}

impl Val for Tracked {
    fn make(k: u32) -> Tracked {
        Tracked::new(k)
    }
    fn key(&self) -> u32 {
        TRACKED.with(|t| {
            if t.borrow().get(&self.id) != Some(&self.val) {
                BAD.with(|b| *b.borrow_mut() = Some(format!("read a value that is not live ({})", self.val)));
            }
        });
        self.val
    }
    const FLAT: bool = false;
    fn put(i: &Interner<Tracked>, k: u32) -> usize {
        i.add::<Tracked, Tracked>(Tracked::new(k)).into_usize()
    }
}

/// As `BigInt` uses it
impl Val for Box<[usize]> {
    fn make(k: u32) -> Self {
        match k {
            0 => Box::new([]),
            _ => vec![7; k as usize % 3].into_iter().chain([k as usize]).collect(),
        }
    }
    fn key(&self) -> u32 {
        self.last().copied().unwrap_or(0) as u32
    }
    const FLAT: bool = false;
    fn put(i: &Interner<Self>, k: u32) -> usize {
        let b = Self::make(k);
        // Owned and borrowed forms
        if k % 2 == 0 {
            i.add::<Box<[usize]>, [usize]>(b).into_usize()
        } else {
            i.add::<&[usize], [usize]>(&b).into_usize()
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Add(u32),
    /// On the nth id known
    Incr(usize),
    Decr(usize),
}

/// The specification: ids with the value last added there and its count
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
struct Model {
    ids: BTreeMap<usize, (u32, usize)>,
}

struct Run<T: Val> {
    real: Interner<T>,
    model: Model,
}

impl<T: Val> Run<T> {
    fn new(real: Interner<T>) -> Run<T> {
        Run { real, model: Model::default() }
    }

    fn nth(&self, n: usize) -> Option<usize> {
        self.model.ids.keys().nth(n).copied()
    }

    /// Whether the step is enabled; an error if the real interner did something wrong
    fn step(&mut self, t: &mut Tally, op: Op) -> Result<bool, String> {
        t.op();
        match op {
            Op::Add(k) => {
                let dead = self.model.ids.values().any(|v| v.1 == 0);
                let holder = self.model.ids.iter().find(|(_, v)| v.0 == k && v.1 > 0).map(|(i, _)| *i);
                let before = heap::live();
                let id = T::put(&self.real, k);
                let grown = heap::live() - before;
                if let Some(h) = holder {
                    if h != id {
                        return Err(format!("adding {k} gave handle {id}, but the live handle {h} holds it"));
                    }
                    self.model.ids.get_mut(&id).unwrap().1 += 1;
                } else {
                    match self.model.ids.get(&id) {
                        Some(v) if v.1 > 0 => {
                            return Err(format!("adding {k} gave handle {id}, which is live with {v:?}"));
                        }
                        _ => {}
                    }
                    self.model.ids.insert(id, (k, 1));
                }
                if T::FLAT && grown > 0 && (dead || holder.is_some()) {
                    return Err(format!(
                        "adding {k} grew the storage by {grown} bytes, with {} dead slots there",
                        self.model.ids.values().filter(|v| v.1 == 0).count()
                    ));
                }
            }
            Op::Incr(n) => match self.nth(n) {
                Some(id) if self.model.ids[&id].1 > 0 => {
                    self.real.incr(InternId::from_usize(id));
                    self.model.ids.get_mut(&id).unwrap().1 += 1;
                }
                _ => return Ok(false),
            },
            Op::Decr(n) => match self.nth(n) {
                Some(id) => {
                    self.real.decr(InternId::from_usize(id));
                    let c = &mut self.model.ids.get_mut(&id).unwrap().1;
                    *c = c.saturating_sub(1);
                }
                None => return Ok(false),
            },
        }
        Ok(true)
    }

    fn check(&self, t: &mut Tally, hist: &dyn Fn() -> String) -> Res {
        for (&id, &(k, count)) in &self.model.ids {
            let h = || InternId::from_usize(id);
            want_eq!(t, self.real.refcount(h()), count, "refcount of handle {id} ({k}) after {}", hist());
            let got = self.real.try_get(h());
            want_eq!(t, got.map(Val::key), (count > 0).then_some(k), "try_get of handle {id} after {}", hist());
            if count > 0 {
                let v = self.real.get(h());
                want_eq!(t, v.key(), k, "get of handle {id} after {}", hist());
                want!(t, *v == T::make(k), "get of handle {id} after {} is {v:?}", hist());
            } else {
                must_panic(|| format!("get of dead handle {id} after {}", hist()), || self.real.get(h()).key())?;
            }
        }
        bad(hist)
    }
}

fn bad(hist: &dyn Fn() -> String) -> Res {
    match BAD.with(|b| b.borrow_mut().take()) {
        Some(e) => Err(format!("{e} after {}", hist())),
        None => Ok(()),
    }
}

fn ops(vals: &[u32], ids: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vals.iter().map(|&k| Op::Add(k)).collect();
    v.extend((0..ids).map(Op::Incr));
    v.extend((0..ids).map(Op::Decr));
    v
}

/// Every history of a given depth, each run from the start
fn all<T: Val>(t: &mut Tally, make: &dyn Fn() -> Interner<T>, prefix: &[Op], alpha: &[Op], depth: usize) -> Res {
    let mut idx = vec![0usize; depth];
    'outer: loop {
        let mut run = Run::new(make());
        let mut hist: Vec<Op> = Vec::new();
        for &op in prefix {
            hist.push(op);
            if !run.step(t, op).map_err(|e| format!("{e}; history {}", show(&hist)))? {
                return Ok(());
            }
        }
        let mut p = depth - 1;
        for n in 0..depth {
            let op = alpha[idx[n]];
            hist.push(op);
            if !run.step(t, op).map_err(|e| format!("{e}; history {}", show(&hist)))? {
                for i in &mut idx[n + 1..] {
                    *i = 0;
                }
                p = n;
                break;
            }
            if n + 1 == depth || idx[n + 1..].iter().all(|&i| i == 0) {
                run.check(t, &|| show(&hist))?;
                t.state();
            }
        }
        drop(run);
        bad(&|| format!("{} and dropping the interner", show(&hist)))?;
        loop {
            idx[p] += 1;
            if idx[p] < alpha.len() {
                break;
            }
            idx[p] = 0;
            if p == 0 {
                break 'outer;
            }
            p -= 1;
        }
    }
    Ok(())
}

fn show(hist: &[Op]) -> String {
    if hist.len() <= 14 {
        format!("{hist:?}")
    } else {
        format!("{} steps ending with {:?}", hist.len(), &hist[hist.len() - 14..])
    }
}

/// Breadth-first over the reachable states of the interner, each state reached by replaying its
/// shortest history
fn bfs<T: Val>(t: &mut Tally, make: &dyn Fn() -> Interner<T>, alpha: &[Op], depth: usize, cap: usize, part: usize, parts: usize) -> Res {
    let mut seen: HashSet<Model> = HashSet::new();
    let mut queue: VecDeque<Vec<Op>> = VecDeque::from([vec![]]);
    seen.insert(Model::default());
    let mut n = 0;
    while let Some(hist) = queue.pop_front() {
        n += 1;
        for &op in alpha {
            let mut run = Run::new(make());
            for &o in &hist {
                run.step(t, o).map_err(|e| format!("{e}; history {hist:?}"))?;
            }
            let full = || hist.iter().copied().chain([op]).collect::<Vec<_>>();
            if !run.step(t, op).map_err(|e| format!("{e}; history {:?}", full()))? {
                continue;
            }
            if run.model.ids.values().any(|v| v.1 > cap) {
                continue;
            }
            // The states are split over the workers for the expensive part
            if n % parts == part {
                run.check(t, &|| format!("{:?}", full()))?;
            }
            if seen.insert(run.model.clone()) && hist.len() + 1 < depth {
                queue.push_back(full());
            }
        }
    }
    if part == 0 {
        t.states += seen.len() as u64;
    }
    Ok(())
}

fn fill(n: u32) -> Vec<Op> {
    (0..n).map(|i| Op::Add(100 + i)).collect()
}

fn main() {
    engine::main(|c| {
        let depth = if c.thorough { 8 } else { 7 };
        c.section("every history, three values, flat");
        let alpha = ops(&[1, 2, 3], 3);
        for &a in &alpha[..3] {
            for &b in &alpha {
                c.case(
                    || format!("u8: every history of {depth} steps starting with {a:?}, {b:?}"),
                    |t| all::<u8>(t, &Interner::new, &[a, b], &alpha, depth - 2),
                );
            }
        }
        c.section("every history, tracked drops");
        let alpha2 = ops(&[1, 2], 2);
        for &a in &alpha2[..2] {
            for &b in &alpha2 {
                c.case(
                    || format!("tracked: every history of {depth} steps starting with {a:?}, {b:?}"),
                    |t| all::<Tracked>(t, &Interner::new, &[a, b], &alpha2, depth - 2),
                );
            }
        }
        c.section("every history, boxed slices");
        for &a in &alpha[..3] {
            for &b in &alpha {
                c.case(
                    || format!("slices: every history of {} steps starting with {a:?}, {b:?}", depth - 2),
                    |t| all::<Box<[usize]>>(t, &Default::default, &[a, b], &alpha, depth - 4),
                );
            }
        }

        c.section("reachable states");
        let alpha4 = ops(&[0, 1, 2, 3], 4);
        let (d, cap) = if c.thorough { (14, 3) } else { (9, 2) };
        for part in 0..8 {
            c.case(
                || format!("breadth-first to depth {d}, four values, counts up to {cap}, part {part} of 8"),
                |t| bfs::<u8>(t, &Interner::new, &alpha4, d, cap, part, 8),
            );
        }

        // Around the chunk boundaries
        c.section("histories on a filled store");
        let sizes: &[u32] = if c.thorough { &[30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97] } else { &[31, 32, 33, 63, 64, 65, 96] };
        for &n in sizes {
            let focus: Vec<usize> = {
                let n = n as usize;
                let mut f = vec![0, 1, 15, 30, 31, 32, 33, 62, 63, 64, 65, n - 2, n - 1, n];
                f.retain(|&i| i <= n);
                f.sort_unstable();
                f.dedup();
                f
            };
            let mut alpha: Vec<Op> = vec![Op::Add(100), Op::Add(100 + n - 1), Op::Add(100 + n / 2), Op::Add(1), Op::Add(2)];
            alpha.extend(focus.iter().map(|&i| Op::Decr(i)));
            alpha.extend(focus.iter().step_by(3).map(|&i| Op::Incr(i)));
            let depth = if c.thorough { 4 } else { 3 };
            for cap in [None, Some(0), Some(1), Some(n as usize), Some(n as usize + 1)] {
                for &first in &alpha {
                    c.case(
                        || format!("{n} values, capacity {cap:?}, then every history of {depth} steps starting with {first:?}"),
                        |t| {
                            let mut prefix = fill(n);
                            prefix.push(first);
                            let make = || match cap {
                                None => Interner::new(),
                                Some(c) => Interner::with_capacity(c),
                            };
                            all::<u8>(t, &make, &prefix, &alpha, if cap.is_none() { depth - 1 } else { 1 })
                        },
                    );
                }
            }
        }

        // Each slot in turn dies and is reused, with everything else live
        c.section("every slot reused");
        for n in 1..=100u32 {
            c.case(
                || format!("{n} live values: each slot, and each pair with the last, reused"),
                |t| {
                    let mut run = Run::<u8>::new(Interner::new());
                    for op in fill(n) {
                        run.step(t, op).map_err(|e| format!("{e}; filling {n}"))?;
                    }
                    run.check(t, &|| format!("filling {n}"))?;
                    for i in 0..n as usize {
                        for second in [None, Some(n as usize - 1), Some(0)] {
                            let hist = || format!("filling {n}, then {i} and {second:?} died and were reused by others and by themselves");
                            let w = |e: String| format!("{e}; {}", hist());
                            let v0 = run.model.ids.values().nth(i).unwrap().0;
                            run.step(t, Op::Decr(i)).map_err(w)?;
                            let mut back = vec![v0];
                            if let Some(j) = second.filter(|&j| j != i) {
                                back.push(run.model.ids.values().nth(j).unwrap().0);
                                run.step(t, Op::Decr(j)).map_err(w)?;
                            }
                            run.check(t, &hist)?;
                            // Another value first, then it dies, then the old ones return
                            run.step(t, Op::Add(5)).map_err(w)?;
                            run.check(t, &hist)?;
                            let at = run.model.ids.iter().position(|(_, v)| v.0 == 5 && v.1 > 0).unwrap();
                            run.step(t, Op::Decr(at)).map_err(w)?;
                            for &v in back.iter().rev() {
                                run.step(t, Op::Add(v)).map_err(w)?;
                            }
                            run.check(t, &hist)?;
                            t.state();
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("everything dies, then refills");
        for n in 1..=140u32 {
            c.case(
                || format!("{n} values die in three orders and {n} others take the storage"),
                |t| {
                    for order in 0..3 {
                        let mut run = Run::<u8>::new(Interner::new());
                        for op in fill(n) {
                            run.step(t, op)?;
                        }
                        for i in 0..n as usize {
                            let i = match order {
                                0 => i,
                                1 => n as usize - 1 - i,
                                _ => (i * 37) % n as usize,
                            };
                            run.step(t, Op::Decr(i))?;
                        }
                        let hist = || format!("{n} values died in order {order} and were replaced");
                        for i in 0..n {
                            run.step(t, Op::Add((n - i) % 100)).map_err(|e| format!("{e}; {}", hist()))?;
                        }
                        run.check(t, &hist)?;
                        t.state();
                    }
                    Ok(())
                },
            );
        }

        // Stores of many chunks: slots all over it die and are reused
        c.section("large stores");
        let sizes: &[u32] = if c.thorough {
            &[127, 128, 129, 160, 161, 255, 256, 257, 288, 289, 320, 511, 512, 513, 544, 1023, 1024, 1025, 1056, 2047, 2048, 2049, 2080, 4097, 8191, 8192, 8193, 8224, 16_385]
        } else {
            &[127, 128, 129, 160, 255, 256, 257, 289, 320, 511, 512, 513, 1023, 1024, 1025, 1056, 1500, 2049, 8193, 8225]
        };
        for &n in sizes {
            for step in [1usize, 2, 31, 32, 33, 64, 255, 256] {
                c.case(
                    || format!("{n} live values, every {step}th dies, others take the slots, then the old ones return"),
                    |t| {
                        let hist = || format!("{n} live values, every {step}th replaced");
                        let w = |e: String| format!("{e}; {}", hist());
                        let mut run = Run::<u32>::new(Interner::new());
                        for op in fill(n) {
                            run.step(t, op).map_err(w)?;
                        }
                        run.check(t, &hist)?;
                        let ids: Vec<(usize, usize)> = run.model.ids.keys().copied().enumerate().step_by(step).collect();
                        let old: Vec<u32> = ids.iter().map(|(_, id)| run.model.ids[id].0).collect();
                        for (at, _) in &ids {
                            run.step(t, Op::Decr(*at)).map_err(w)?;
                        }
                        run.check(t, &hist)?;
                        for i in 0..ids.len() as u32 {
                            run.step(t, Op::Add(100_000 + i)).map_err(w)?;
                        }
                        run.check(t, &hist)?;
                        // Those that stayed are still found
                        for &(v, c) in run.model.ids.values().cloned().collect::<Vec<_>>().iter() {
                            if c > 0 {
                                run.step(t, Op::Add(v)).map_err(w)?;
                            }
                        }
                        for v in old {
                            run.step(t, Op::Add(v)).map_err(w)?;
                        }
                        run.check(t, &hist)?;
                        t.state();
                        Ok(())
                    },
                );
            }
        }

        c.section("large counts");
        for n in [1usize, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 300_000] {
            c.case(
                || format!("count up to {n} by incr and by add, and down again"),
                |t| {
                    for by_add in [false, true] {
                        let mut run = Run::<u8>::new(Interner::new());
                        run.step(t, Op::Add(9))?;
                        run.step(t, Op::Add(8))?;
                        let at = run.model.ids.values().position(|v| v.0 == 9).unwrap();
                        for _ in 0..n {
                            run.step(t, if by_add { Op::Add(9) } else { Op::Incr(at) })?;
                        }
                        run.check(t, &|| format!("count {}", n + 1))?;
                        for i in 0..n + 1 {
                            run.step(t, Op::Decr(at))?;
                            if i + 5 > n || i % 1000 == 0 {
                                run.check(t, &|| format!("count {n} after {i} decrements"))?;
                            }
                        }
                        run.step(t, Op::Decr(at))?;
                        run.check(t, &|| "decrement at zero".into())?;
                        t.state();
                    }
                    Ok(())
                },
            );
        }
    });
}
