//! The explorer. Threads of a scenario are fibers of one OS thread; every atomic operation of the
//! explored code arrives here and is executed on a model of the C++20/Rust memory model (without
//! load buffering): per location a history of stores in modification order, per thread a vector
//! clock and a view of how far it has seen each history. Which thread goes next, and which of the
//! stores it may legally see a load returns, are the choices; all combinations within the bounds
//! are run, by depth-first search with replay.

use crate::arena::{self, TIDS};
use numeric_mc::engine::{self, Tally};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::Ordering;

#[global_allocator]
static ALLOC: arena::McAlloc = arena::McAlloc;

const STACK: usize = 256 << 10;
/// Steps of one execution before it counts as not terminating
const HORIZON: u64 = 60_000;
/// Consecutive operations of one thread, none of them a write, before it counts as spinning
const SPIN_OPS: u32 = 600;
/// The same, if all of them are the same operation with the same result
const SPIN_SAME: u32 = 16;

type Vc = [u32; TIDS];

#[derive(Default)]
struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x.into());
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64);
    }
}

/// A map from addresses to small numbers
struct Index {
    words: Vec<u32>,
    used: Vec<usize>,
    rest: HashMap<usize, usize, BuildHasherDefault<Fx>>,
}

impl Index {
    fn new() -> Index {
        Index {
            words: vec![0; arena::WORDS],
            used: Vec::new(),
            rest: HashMap::default(),
        }
    }

    fn clear(&mut self) {
        for u in self.used.drain(..) {
            self.words[u] = 0;
        }
        self.rest.clear();
    }

    fn get(&self, addr: usize) -> Option<usize> {
        match arena::word(addr) {
            Some(w) if addr % 8 == 0 => (self.words[w] as usize).checked_sub(1),
            _ => self.rest.get(&addr).copied(),
        }
    }

    fn insert(&mut self, addr: usize, id: usize) {
        match arena::word(addr) {
            Some(w) if addr % 8 == 0 => {
                self.words[w] = id as u32 + 1;
                self.used.push(w);
            }
            _ => {
                self.rest.insert(addr, id);
            }
        }
    }
}

#[derive(Clone, Default)]
struct Msg {
    vc: Vc,
    view: Vec<u32>,
}

impl Msg {
    fn join(&mut self, other: &Msg) {
        for (a, b) in self.vc.iter_mut().zip(other.vc) {
            *a = (*a).max(b);
        }
        if self.view.len() < other.view.len() {
            self.view.resize(other.view.len(), 0);
        }
        for (a, b) in self.view.iter_mut().zip(&other.view) {
            *a = (*a).max(*b);
        }
    }

    fn see(&mut self, loc: usize, idx: u32) {
        if self.view.len() <= loc {
            self.view.resize(loc + 1, 0);
        }
        self.view[loc] = self.view[loc].max(idx);
    }

    fn min(&self, loc: usize) -> u32 {
        self.view.get(loc).copied().unwrap_or(0)
    }
}

struct Store {
    val: u64,
    tid: usize,
    /// Index of the message, if it releases anything
    msg: Option<u32>,
}

#[derive(Default)]
struct Loc {
    addr: usize,
    // Of this execution
    gen: u64,
    mem: Mem,
    stores: Vec<Store>,
    orig: u64,
    bits: u32,
    // Of all executions of the scenario
    readers: u8,
    writers: u8,
    conflict: bool,
    /// Counts as one from the next search on
    new_conflict: bool,
}

struct CellSt {
    gen: u64,
    mem: Mem,
    write: (usize, u32),
    reads: Vc,
}

/// The allocation something is in
#[derive(Clone, Copy, Default, PartialEq)]
enum Mem {
    #[default]
    Unknown,
    Foreign,
    In(usize, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

struct Thread {
    st: St,
    sp: usize,
    now: Msg,
    /// Seen by relaxed loads, acquired by a later fence
    pending: Msg,
    /// The state at the last release fence
    fenced: Option<Msg>,
    /// Locations read since the current loop iteration began, for spinning
    reads: Vec<usize>,
    /// Whether what was read since then may be outdated
    dirty: bool,
    quiet: u32,
    /// The last operation, and how many times in a row it was done
    same: (usize, u8, u64),
    same_count: u32,
}

pub struct Bounds {
    pub preemptions: u32,
    pub deviations: u32,
}

struct Mc {
    active: bool,
    cur: usize,
    threads: Vec<Thread>,
    driver_sp: usize,
    gen: u64,
    ids: Index,
    locs: Vec<Loc>,
    cell_ids: Index,
    cells: Vec<CellSt>,
    msgs: Vec<Msg>,
    sc: Msg,
    stack: Vec<(u16, u16)>,
    pos: usize,
    pre_left: u32,
    dev_left: u32,
    steps: u64,
    grown: bool,
    violation: Option<String>,
    log: Option<Vec<String>>,
    stacks: Vec<usize>,
    body: Option<*const dyn Fn(usize)>,
    diverged: bool,
}

static mut MC: *mut Mc = std::ptr::null_mut();

fn mc() -> &'static mut Mc {
    // SAFETY: Only the one thread that runs all fibers gets here, never reentrantly
    unsafe {
        if MC.is_null() {
            arena::init();
            MC = Box::into_raw(Box::new(Mc {
                active: false,
                cur: 0,
                threads: Vec::new(),
                driver_sp: 0,
                gen: 0,
                ids: Index::new(),
                locs: Vec::new(),
                cell_ids: Index::new(),
                cells: Vec::new(),
                msgs: Vec::new(),
                sc: Msg::default(),
                stack: Vec::new(),
                pos: 0,
                pre_left: 0,
                dev_left: 0,
                steps: 0,
                grown: false,
                violation: None,
                log: None,
                stacks: Vec::new(),
                body: None,
                diverged: false,
            }));
        }
        &mut *MC
    }
}

std::arch::global_asm!(
    ".global __numeric_mc_switch",
    "__numeric_mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);

#[allow(improper_ctypes)]
extern "C" {
    /// `mc` is only passed so that the compiler knows that everything may change
    fn __numeric_mc_switch(save: *mut usize, to: usize, mc: *mut Mc);
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

const OPS: [&str; 14] = [
    "load", "store", "swap", "cas", "cas_weak", "add", "sub", "and", "or", "xor", "nand", "max",
    "min", "exclusive",
];

impl Mc {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let out = if self.pos < self.stack.len() {
            let (c, m) = self.stack[self.pos];
            if m as usize != n {
                self.diverged = true;
                return 0;
            }
            c as usize
        } else {
            self.stack.push((0, n as u16));
            0
        };
        self.pos += 1;
        out
    }

    fn note(&mut self, f: impl FnOnce(&Mc) -> String) {
        if self.log.is_some() {
            let s = f(self);
            let cur = self.cur;
            self.log.as_mut().unwrap().push(format!("T{cur} {s}"));
        }
    }

    /// Record a violation and give up on this execution
    fn fail(&mut self, msg: String) -> ! {
        if self.violation.is_none() {
            self.violation = Some(msg.clone());
        }
        if self.cur == 0 {
            panic!("{msg}");
        }
        let cur = self.cur;
        let save: *mut usize = &mut self.threads[cur].sp;
        // SAFETY: The driver is suspended in `run_threads`
        unsafe { __numeric_mc_switch(save, self.driver_sp, self) };
        unreachable!()
    }

    fn switch_to(&mut self, to: usize) {
        let from = self.cur;
        if from == to {
            return;
        }
        self.cur = to;
        let save: *mut usize = &mut self.threads[from].sp;
        let sp = self.threads[to].sp;
        // SAFETY: `to` is suspended
        unsafe { __numeric_mc_switch(save, sp, self) };
    }

    /// The current thread cannot go on: choose another
    fn leave(&mut self) {
        let ready: Vec<usize> = (1..self.threads.len())
            .filter(|&t| self.threads[t].st == St::Ready)
            .collect();
        if ready.is_empty() {
            if self.threads[1..].iter().all(|t| t.st == St::Done) {
                let cur = self.cur;
                let save: *mut usize = &mut self.threads[cur].sp;
                self.cur = 0;
                // SAFETY: The driver is suspended in `run_threads`
                unsafe { __numeric_mc_switch(save, self.driver_sp, self) };
                return;
            }
            self.fail("deadlock: every thread is waiting for another".into());
        }
        let c = self.choose(ready.len());
        self.switch_to(ready[c]);
    }

    /// A point at which another thread may run
    fn sched(&mut self) {
        if self.cur == 0 || self.pre_left == 0 || std::thread::panicking() {
            return;
        }
        let cur = self.cur;
        let mut others = [0usize; TIDS];
        let mut n = 0;
        for t in 1..self.threads.len() {
            if t != cur && self.threads[t].st == St::Ready {
                others[n] = t;
                n += 1;
            }
        }
        let c = self.choose(n + 1);
        if c > 0 {
            self.pre_left -= 1;
            self.note(|_| format!("-- preempted by T{}", others[c - 1]));
            self.switch_to(others[c - 1]);
        }
    }

    fn step(&mut self) {
        self.steps += 1;
        if self.steps > HORIZON {
            self.fail("does not terminate".into());
        }
        if let Some(b) = arena::take_bad() {
            self.fail(b);
        }
        if self.diverged {
            self.fail("ENGINE: execution diverged from its recorded prefix".into());
        }
    }

    /// Memory must be allocated, not freed, and its allocation must happen before its use
    fn check_mem(&mut self, addr: usize, known: Mem, what: &str) -> Mem {
        let mem = match known {
            Mem::Unknown if !arena::contains(addr) => Mem::Foreign,
            Mem::Unknown => match arena::find(addr) {
                None => self.fail(format!("{what} outside of any allocation")),
                Some((t, i)) => Mem::In(t, i),
            },
            m => m,
        };
        if let Mem::In(t, i) = mem {
            let r = arena::rec(t, i);
            let cur = self.cur;
            if r.freed {
                self.fail(format!("{what} of freed memory"));
            }
            if t != cur && self.threads[cur].now.vc[t] < r.epoch {
                self.fail(format!(
                    "data race: {what} of memory that thread {t} initialised, without synchronization"
                ));
            }
        }
        mem
    }

    fn loc(&mut self, addr: usize, bits: u32, init: u64) -> usize {
        let id = match self.ids.get(addr) {
            Some(id) => id,
            None => {
                let n = self.locs.len();
                self.ids.insert(addr, n);
                self.locs.push(Loc {
                    addr,
                    ..Loc::default()
                });
                n
            }
        };
        let gen = self.gen;
        let l = &mut self.locs[id];
        if l.gen != gen {
            l.gen = gen;
            l.mem = Mem::Unknown;
            l.orig = init;
            l.bits = bits;
            l.stores.clear();
            l.stores.push(Store {
                val: init,
                tid: TIDS,
                msg: None,
            });
        } else if l.stores.last().unwrap().val != init {
            // Something else lives here now
            l.mem = Mem::Unknown;
            l.stores.push(Store {
                val: init,
                tid: TIDS,
                msg: None,
            });
            let idx = l.stores.len() as u32 - 1;
            for t in &mut self.threads {
                t.now.see(id, idx);
            }
        }
        id
    }

    fn touch_conflict(&mut self, id: usize, write: bool) {
        if self.cur == 0 {
            return;
        }
        let l = &mut self.locs[id];
        let bit = 1u8 << self.cur;
        if write {
            l.writers |= bit;
        } else {
            l.readers |= bit;
        }
        if !l.new_conflict && l.writers != 0 && (l.readers | l.writers).count_ones() > 1 {
            l.new_conflict = true;
            self.grown = true;
        }
    }

    /// Read the store with the given index
    fn read(&mut self, id: usize, idx: u32, order: Ordering) -> u64 {
        let cur = self.cur;
        let s = &self.locs[id].stores[idx as usize];
        let (val, tid, msg) = (s.val, s.tid, s.msg);
        let stale = idx as usize + 1 != self.locs[id].stores.len();
        let t = &mut self.threads[cur];
        t.now.see(id, idx);
        if stale {
            t.dirty = true;
        }
        if !t.reads.contains(&id) && t.reads.len() < 256 {
            t.reads.push(id);
        }
        if let Some(m) = msg {
            if tid != cur {
                if acquires(order) {
                    t.now.join(&self.msgs[m as usize]);
                } else {
                    t.pending.join(&self.msgs[m as usize]);
                }
            }
        }
        val
    }

    /// Append a store; `after` is the store it atomically replaces, if any
    fn write(&mut self, id: usize, val: u64, order: Ordering, after: Option<u32>) {
        let cur = self.cur;
        let idx = self.locs[id].stores.len() as u32;
        self.threads[cur].now.see(id, idx);
        // What this store releases
        let mut msg = after.and_then(|a| self.locs[id].stores[a as usize].msg).map(|m| self.msgs[m as usize].clone());
        let own = if releases(order) {
            let m = self.threads[cur].now.clone();
            self.bump();
            Some(m)
        } else {
            self.threads[cur].fenced.clone()
        };
        match (&mut msg, own) {
            (Some(m), Some(o)) => m.join(&o),
            (None, Some(o)) => msg = Some(o),
            _ => {}
        }
        let msg = msg.map(|mut m| {
            m.see(id, idx);
            self.msgs.push(m);
            self.msgs.len() as u32 - 1
        });
        let l = &mut self.locs[id];
        let changed = l.stores.last().unwrap().val != val;
        l.stores.push(Store { val, tid: cur, msg });
        // SAFETY: The atomic that was announced, of which only this thread exists
        unsafe {
            match l.bits {
                1 | 8 => *(l.addr as *mut u8) = val as u8,
                16 => *(l.addr as *mut u16) = val as u16,
                32 => *(l.addr as *mut u32) = val as u32,
                _ => *(l.addr as *mut u64) = val,
            }
        }
        if !changed {
            // Nobody gets further because of this
            return;
        }
        self.threads[cur].quiet = 0;
        self.threads[cur].same_count = 0;
        for t in 1..self.threads.len() {
            if t != cur {
                let th = &mut self.threads[t];
                if th.reads.contains(&id) {
                    th.dirty = true;
                    if th.st == St::Blocked {
                        th.st = St::Ready;
                        th.reads.clear();
                        th.dirty = false;
                    }
                }
            }
        }
    }

    /// Advance the own clock of the current thread
    fn bump(&mut self) {
        let cur = self.cur;
        self.threads[cur].now.vc[cur] += 1;
        arena::set_epoch(cur, self.threads[cur].now.vc[cur]);
    }

    fn sc_sync(&mut self) {
        let cur = self.cur;
        let sc = std::mem::take(&mut self.sc);
        self.threads[cur].now.join(&sc);
        self.sc = self.threads[cur].now.clone();
        self.bump();
    }

    #[allow(clippy::too_many_arguments)]
    fn atomic(&mut self, addr: usize, bits: u32, signed: bool, init: u64, op: u8, arg: u64, expect: u64, ok_order: Ordering, err_order: Ordering) -> (u64, bool) {
        assert!(self.active, "an atomic was used outside of an execution");
        self.step();
        let id = self.loc(addr, bits, init);
        if op == 13 {
            let v = self.locs[id].stores.last().unwrap().val;
            return (v, true);
        }
        if self.cur != 0 && self.locs[id].conflict {
            self.sched();
        }
        // Others may have run
        let mem = self.locs[id].mem;
        self.locs[id].mem = self.check_mem(addr, mem, "atomic access");
        let cur = self.cur;
        if ok_order == Ordering::SeqCst {
            self.sc_sync();
        }
        let last = self.locs[id].stores.len() as u32 - 1;
        let latest = self.locs[id].stores[last as usize].val;
        // Candidates for what may be read instead of the latest store
        let mut stale: [u32; 8] = [0; 8];
        let mut n = 0;
        let stale_order = if op == 0 { ok_order } else { err_order };
        if cur != 0
            && self.dev_left > 0
            && matches!(op, 0 | 3 | 4)
            && stale_order != Ordering::SeqCst
            && ok_order != Ordering::SeqCst
        {
            let min = self.threads[cur].now.min(id);
            let mut i = last;
            while i > min && n < 8 {
                i -= 1;
                let v = self.locs[id].stores[i as usize].val;
                if op == 0 || v != expect || op == 4 {
                    stale[n] = i;
                    n += 1;
                }
            }
        }
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        self.threads[cur].quiet += 1;
        let out = match op {
            0 => {
                let c = self.choose(n + 1);
                let idx = if c == 0 {
                    last
                } else {
                    self.dev_left -= 1;
                    stale[c - 1]
                };
                self.touch_conflict(id, false);
                (self.read(id, idx, ok_order), true)
            }
            1 => {
                self.touch_conflict(id, true);
                self.write(id, arg & mask, ok_order, None);
                (latest, true)
            }
            3 | 4 => {
                let spurious = usize::from(op == 4 && latest == expect && self.dev_left > 0 && cur != 0);
                let c = self.choose(1 + n + spurious);
                self.touch_conflict(id, latest == expect);
                if c == 0 && latest == expect {
                    self.read(id, last, ok_order);
                    self.write(id, arg & mask, ok_order, Some(last));
                    (latest, true)
                } else {
                    let idx = if c > 0 {
                        self.dev_left -= 1;
                        if c <= n {
                            stale[c - 1]
                        } else {
                            self.threads[cur].dirty = true;
                            last
                        }
                    } else {
                        last
                    };
                    (self.read(id, idx, err_order), false)
                }
            }
            _ => {
                let sx = |v: u64| -> i64 {
                    let sh = 64 - bits.min(64);
                    ((v << sh) as i64) >> sh
                };
                let new = match op {
                    2 => arg,
                    5 => latest.wrapping_add(arg),
                    6 => latest.wrapping_sub(arg),
                    7 => latest & arg,
                    8 => latest | arg,
                    9 => latest ^ arg,
                    10 => !(latest & arg),
                    11 if signed => sx(latest).max(sx(arg)) as u64,
                    12 if signed => sx(latest).min(sx(arg)) as u64,
                    11 => latest.max(arg),
                    12 => latest.min(arg),
                    _ => panic!("unknown operation"),
                } & mask;
                self.touch_conflict(id, true);
                self.read(id, last, ok_order);
                self.write(id, new, ok_order, Some(last));
                (latest, true)
            }
        };
        if ok_order == Ordering::SeqCst {
            self.sc_sync();
        }
        if self.locs[id].new_conflict {
            self.note(|m| {
                format!(
                    "{} #{id}{} -> {:x}{}",
                    OPS[op as usize],
                    if matches!(op, 0) { String::new() } else { format!(" {arg:x} {ok_order:?}") },
                    out.0,
                    if out.1 {
                        if op == 0 && m.locs[id].stores.last().unwrap().val != out.0 { " (stale)" } else { "" }
                    } else {
                        " (failed)"
                    }
                )
            });
        }
        if cur != 0 {
            let t = &mut self.threads[cur];
            if t.same == (id, op, out.0) {
                t.same_count += 1;
            } else {
                t.same = (id, op, out.0);
                t.same_count = 0;
            }
            if (t.quiet > SPIN_OPS) || (t.same_count > SPIN_SAME && out.0 == latest) {
                t.quiet = 0;
                t.same_count = 0;
                self.spin();
            }
        }
        out
    }

    fn fence(&mut self, order: Ordering) {
        self.step();
        let cur = self.cur;
        if acquires(order) {
            let p = self.threads[cur].pending.clone();
            self.threads[cur].now.join(&p);
        }
        if order == Ordering::SeqCst {
            self.sc_sync();
        }
        if releases(order) {
            self.threads[cur].fenced = Some(self.threads[cur].now.clone());
            self.bump();
        }
    }

    fn cell(&mut self, addr: usize, write: bool) {
        assert!(self.active, "a cell was used outside of an execution");
        self.step();
        let id = match self.cell_ids.get(addr) {
            Some(id) => id,
            None => {
                self.cell_ids.insert(addr, self.cells.len());
                self.cells.push(CellSt {
                    gen: 0,
                    mem: Mem::Unknown,
                    write: (0, 0),
                    reads: [0; TIDS],
                });
                self.cells.len() - 1
            }
        };
        if self.cells[id].gen != self.gen {
            self.cells[id] = CellSt {
                gen: self.gen,
                mem: Mem::Unknown,
                write: (0, 0),
                reads: [0; TIDS],
            };
        }
        let mem = self.cells[id].mem;
        self.cells[id].mem = self.check_mem(addr, mem, if write { "write" } else { "read" });
        let cur = self.cur;
        let vc = self.threads[cur].now.vc;
        let c = &mut self.cells[id];
        let mut race = None;
        if vc[c.write.0] < c.write.1 {
            race = Some((c.write.0, "write"));
        }
        if write {
            for t in 0..TIDS {
                if vc[t] < c.reads[t] {
                    race = Some((t, "read"));
                }
            }
            c.write = (cur, vc[cur]);
            c.reads = [0; TIDS];
        } else {
            c.reads[cur] = vc[cur];
        }
        if let Some((t, how)) = race {
            let me = if write { "write" } else { "read" };
            self.note(|_| format!("{me} of the cell at {addr:x}"));
            self.fail(format!(
                "data race: {me} of a slot's value by thread {cur}, not ordered with its {how} by thread {t}"
            ));
        }
    }

    fn spin(&mut self) {
        self.step();
        let cur = self.cur;
        if cur == 0 {
            if self.threads[cur].quiet > 100 {
                self.fail("a single thread waits for itself".into());
            }
            self.threads[cur].quiet += 50;
            return;
        }
        if std::thread::panicking() {
            return;
        }
        let t = &mut self.threads[cur];
        if t.dirty {
            t.dirty = false;
            t.reads.clear();
            return;
        }
        t.st = St::Blocked;
        self.note(|_| "waits".into());
        self.leave();
    }
}

#[no_mangle]
#[allow(improper_ctypes_definitions, clippy::too_many_arguments)]
fn __numeric_mc_atomic(addr: usize, bits: u32, signed: bool, init: u64, op: u8, arg: u64, expect: u64, success: Ordering, failure: Ordering) -> (u64, bool) {
    arena::off();
    let out = mc().atomic(addr, bits, signed, init, op, arg, expect, success, failure);
    arena::set(mc().cur);
    out
}

#[no_mangle]
fn __numeric_mc_fence(order: Ordering) {
    arena::off();
    mc().fence(order);
    arena::set(mc().cur);
}

#[no_mangle]
fn __numeric_mc_cell(addr: usize, write: bool) {
    arena::off();
    mc().cell(addr, write);
    arena::set(mc().cur);
}

#[no_mangle]
fn __numeric_mc_spin() {
    arena::off();
    mc().spin();
    arena::set(mc().cur);
}

/// An atomic for scenarios on the explorer itself
pub struct Raw(pub u64);

impl Raw {
    fn op(&self, op: u8, arg: u64, expect: u64, o: Ordering, f: Ordering) -> (u64, bool) {
        // SAFETY: Only written by the explorer, on this OS thread
        let init = unsafe { std::ptr::read_volatile(&self.0) };
        __numeric_mc_atomic(&self.0 as *const u64 as usize, 64, false, init, op, arg, expect, o, f)
    }
    pub fn load(&self, o: Ordering) -> u64 {
        self.op(0, 0, 0, o, o).0
    }
    pub fn store(&self, v: u64, o: Ordering) {
        self.op(1, v, 0, o, o);
    }
    pub fn add(&self, v: u64, o: Ordering) -> u64 {
        self.op(5, v, 0, o, o).0
    }
    pub fn cas(&self, cur: u64, new: u64, o: Ordering, f: Ordering) -> (u64, bool) {
        self.op(3, new, cur, o, f)
    }
}

pub fn fence(o: Ordering) {
    __numeric_mc_fence(o)
}

pub fn cell(r: &u64, write: bool) {
    __numeric_mc_cell(r as *const u64 as usize, write)
}

pub fn spin() {
    __numeric_mc_spin()
}

/// Run code of the scenario itself, which is not part of what is explored
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let prev = arena::off();
    let out = f();
    arena::set(prev);
    out
}

/// The scenario found a violation
pub fn fail(msg: impl FnOnce() -> String) -> ! {
    arena::off();
    mc().fail(msg())
}

/// The scenario reads through a reference into a cell, as a user would
pub fn touch<T>(r: &T) {
    outside(|| {
        let at = r as *const T as usize;
        let size = std::mem::size_of::<Option<T>>();
        let m = mc();
        m.check_mem(at, Mem::Unknown, "read");
        // The cell that contains it, if the explored code announced it
        let mut back = 0;
        while back < size {
            let id = m.cell_ids.get(at - back);
            if id.is_some_and(|id| m.cells[id].gen == m.gen) {
                m.cell(at - back, false);
                break;
            }
            back += 1;
        }
    });
}

extern "C" fn entry() -> ! {
    let m = mc();
    let body = m.body.unwrap();
    let cur = m.cur;
    arena::set(cur);
    // SAFETY: The body outlives the execution
    let res = panic::catch_unwind(AssertUnwindSafe(|| unsafe { (*body)(cur - 1) }));
    arena::off();
    if res.is_err() {
        let what = engine::last_panic();
        mc().fail(format!("panic in thread {cur}: {what}"));
    }
    let m = mc();
    m.step();
    m.threads[cur].st = St::Done;
    m.note(|_| "ends".into());
    m.leave();
    unreachable!()
}

pub trait Scenario {
    type S;
    fn threads(&self) -> usize;
    fn setup(&self) -> Self::S;
    fn run(&self, s: &Self::S, tid: usize);
    /// Everything has joined. Returns what was observed, in any form
    fn finish(&self, s: Self::S) -> Result<u64, String>;
}

fn new_thread(now: Msg) -> Thread {
    Thread {
        st: St::Ready,
        sp: 0,
        now,
        pending: Msg::default(),
        fenced: None,
        reads: Vec::new(),
        dirty: false,
        quiet: 0,
        same: (0, 0, 0),
        same_count: 0,
    }
}

fn execute<X: Scenario>(x: &X, b: &Bounds) -> Result<u64, String> {
    let m = mc();
    arena::reset();
    m.gen += 1;
    m.msgs.clear();
    m.sc = Msg::default();
    m.pos = 0;
    m.pre_left = b.preemptions;
    m.dev_left = b.deviations;
    m.steps = 0;
    m.violation = None;
    m.diverged = false;
    m.cur = 0;
    m.threads.clear();
    let mut now = Msg::default();
    now.vc[0] = 1;
    m.threads.push(new_thread(now));
    arena::set_epoch(0, 1);
    m.active = true;

    arena::set(0);
    let s = panic::catch_unwind(AssertUnwindSafe(|| Box::new(x.setup())));
    arena::off();
    let Ok(s) = s else {
        return Err(format!("panic in setup: {}", engine::last_panic()));
    };

    let m = mc();
    for i in 0..x.threads() {
        let tid = i + 1;
        let mut now = m.threads[0].now.clone();
        now.vc[tid] = 1;
        arena::set_epoch(tid, 1);
        let mut t = new_thread(now);
        if m.stacks.len() <= i {
            // SAFETY: An anonymous private mapping
            let p = unsafe { mmap(std::ptr::null_mut(), STACK, 3, 0x22, -1, 0) };
            assert!(p as isize != -1);
            m.stacks.push(p as usize);
        }
        let top = m.stacks[i] + STACK;
        // SAFETY: Within the mapping
        unsafe {
            *((top - 8) as *mut usize) = 0;
            *((top - 16) as *mut usize) = entry as extern "C" fn() -> ! as usize;
            for k in 3..=8 {
                *((top - 8 * k) as *mut usize) = 0;
            }
        }
        t.sp = top - 64;
        m.threads.push(t);
    }
    // Spawning releases everything so far
    m.threads[0].now.vc[0] += 1;
    arena::set_epoch(0, m.threads[0].now.vc[0]);
    let sref: &X::S = &s;
    let body = |i: usize| x.run(sref, i);
    let body: &dyn Fn(usize) = &body;
    // SAFETY: Only used until the threads have ended
    m.body = Some(unsafe { std::mem::transmute::<*const dyn Fn(usize), *const (dyn Fn(usize) + 'static)>(body) });
    let first = m.choose(x.threads()) + 1;
    m.cur = first;
    let sp = m.threads[first].sp;
    let save: *mut usize = &mut m.driver_sp;
    // SAFETY: A fresh fiber
    unsafe { __numeric_mc_switch(save, sp, m) };

    let m = mc();
    let mut res = Err(String::new());
    if m.violation.is_none() {
        m.cur = 0;
        let all: Vec<Msg> = m.threads.iter().map(|t| t.now.clone()).collect();
        for v in &all {
            m.threads[0].now.join(v);
        }
        arena::set(0);
        res = panic::catch_unwind(AssertUnwindSafe(|| x.finish(*s)))
            .unwrap_or_else(|_| Err(format!("panic after joining: {}", engine::last_panic())));
        arena::off();
        if let Some(b) = arena::take_bad() {
            res = Err(b);
        }
    } else {
        std::mem::forget(s);
    }
    let m = mc();
    m.active = false;
    m.cur = 0;
    // Statics go back to their initial value
    let here = &m as *const _ as usize;
    for l in &m.locs {
        if l.gen == m.gen && !arena::contains(l.addr) && l.stores.last().unwrap().val != l.orig {
            let native = l.addr.abs_diff(here) < 8 << 20;
            let fiber = m.stacks.iter().any(|&s| l.addr >= s && l.addr < s + STACK);
            if !native && !fiber {
                // SAFETY: A static atomic of the explored code
                unsafe {
                    match l.bits {
                        1 | 8 => *(l.addr as *mut u8) = l.orig as u8,
                        16 => *(l.addr as *mut u16) = l.orig as u16,
                        32 => *(l.addr as *mut u32) = l.orig as u32,
                        _ => *(l.addr as *mut u64) = l.orig,
                    }
                }
            }
        }
    }
    match m.violation.take() {
        Some(v) => Err(v),
        None => res,
    }
}

fn next(m: &mut Mc) -> bool {
    while let Some((c, n)) = m.stack.pop() {
        if c + 1 < n {
            m.stack.push((c + 1, n));
            return true;
        }
    }
    false
}

/// Executions after which a scenario is given up on, and reported as not exhausted
const MAX_EXECUTIONS: u64 = 3_000_000;

pub struct Report {
    pub executions: u64,
    pub outcomes: usize,
    pub points: usize,
    pub truncated: bool,
}

/// Run every execution within the bounds
pub fn explore<X: Scenario>(x: &X, bounds: &[Bounds], t: &mut Tally) -> Result<Report, String> {
    let m = mc();
    m.ids.clear();
    m.locs.clear();
    m.cell_ids.clear();
    m.cells.clear();
    let mut rep = Report {
        executions: 0,
        outcomes: 0,
        points: 0,
        truncated: false,
    };
    let mut seen = std::collections::HashSet::new();
    let first = [Bounds {
        preemptions: 1,
        deviations: 0,
    }];
    for b in first.iter().chain(bounds) {
        'again: loop {
            let m = mc();
            m.stack.clear();
            m.grown = false;
            for l in &mut m.locs {
                l.conflict = l.new_conflict;
            }
            let mut count = 0;
            let mut ops = 0;
            loop {
                engine::heartbeat();
                let res = execute(x, b);
                let m = mc();
                count += 1;
                ops += m.steps;
                match res {
                    Err(e) => {
                        // Once more, to describe it
                        let choices = m.stack[..m.pos.min(m.stack.len())].to_vec();
                        m.stack = choices;
                        m.log = Some(Vec::new());
                        let e2 = execute(x, b).err().unwrap_or_else(|| "ENGINE: not reproduced".into());
                        let log = mc().log.take().unwrap();
                        let e = if e == e2 { e } else { format!("{e} / {e2}") };
                        if e.contains("ENGINE") {
                            println!("ENGINE {e}");
                            std::process::exit(5);
                        }
                        let from = log.len().saturating_sub(80);
                        return Err(format!("{e}; schedule: {}", log[from..].join("; ")));
                    }
                    Ok(o) => {
                        if seen.insert(o) {
                            t.saw(&o);
                        }
                    }
                }
                if m.diverged || m.pos != m.stack.len() {
                    println!("ENGINE execution diverged from its recorded prefix");
                    std::process::exit(5);
                }
                if m.grown {
                    // More locations are contended than was known: start over with all of them
                    continue 'again;
                }
                if !next(m) {
                    break;
                }
                if count >= MAX_EXECUTIONS || (count % 1024 == 0 && engine::late()) {
                    rep.truncated = true;
                    break;
                }
            }
            t.ops += ops;
            t.states += count;
            rep.executions += count;
            break;
        }
    }
    rep.outcomes = seen.len();
    rep.points = mc().locs.iter().filter(|l| l.conflict).count();
    Ok(rep)
}

/// Hash of something observed
pub fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
