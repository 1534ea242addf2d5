//! The allocator used by the explored code: one bump arena per thread, never reused within one
//! execution, so that addresses depend only on what the thread itself did, freed memory stays
//! recognisable, and every execution starts from the same state.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const TIDS: usize = 5;
const ARENA: usize = 8 << 20;

pub struct McAlloc;

thread_local! {
    /// The thread whose arena is used, or none outside explored code
    static ON: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub start: usize,
    pub size: usize,
    pub epoch: u32,
    pub freed: bool,
}

struct Arenas {
    base: usize,
    at: [usize; TIDS],
    recs: [Vec<Rec>; TIDS],
    epoch: [u32; TIDS],
    bad: Option<String>,
}

static mut A: Arenas = Arenas {
    base: 0,
    at: [0; TIDS],
    recs: [const { Vec::new() }; TIDS],
    epoch: [0; TIDS],
    bad: None,
};

#[allow(static_mut_refs)]
fn a() -> &'static mut Arenas {
    // SAFETY: Only the one thread that runs all fibers gets here, never reentrantly
    unsafe { &mut A }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn init() {
    if a().base == 0 {
        // SAFETY: An anonymous private mapping, not reserved
        let p = unsafe { mmap(std::ptr::null_mut(), ARENA * TIDS, 3, 0x4022, -1, 0) };
        assert!(p as isize != -1);
        a().base = p as usize;
    }
    reset();
}

pub fn reset() {
    a().at = [0; TIDS];
    a().epoch = [0; TIDS];
    for r in &mut a().recs {
        r.clear();
    }
    a().bad = None;
}

/// Switch the arena of this OS thread, returning the previous one
pub fn set(tid: usize) -> usize {
    ON.with(|o| o.replace(tid))
}

pub fn off() -> usize {
    set(usize::MAX)
}

pub fn set_epoch(tid: usize, epoch: u32) {
    a().epoch[tid] = epoch;
}

pub fn contains(addr: usize) -> bool {
    let b = a().base;
    b != 0 && addr >= b && addr < b + ARENA * TIDS
}

/// A dense index of every 8 bytes of all arenas
pub fn word(addr: usize) -> Option<usize> {
    contains(addr).then(|| (addr - a().base) / 8)
}

pub const WORDS: usize = ARENA * TIDS / 8;

/// A record by thread and index
pub fn rec(tid: usize, i: usize) -> Rec {
    a().recs[tid][i]
}

/// The thread and index of the allocation containing an address
pub fn find(addr: usize) -> Option<(usize, usize)> {
    if !contains(addr) {
        return None;
    }
    let tid = (addr - a().base) / ARENA;
    let recs = &a().recs[tid];
    let i = recs.partition_point(|r| r.start <= addr);
    (i > 0 && addr < recs[i - 1].start + recs[i - 1].size).then(|| (tid, i - 1))
}

/// The thread and record of the allocation containing an address
pub fn lookup(addr: usize) -> Option<(usize, Rec)> {
    if !contains(addr) {
        return None;
    }
    let tid = (addr - a().base) / ARENA;
    let recs = &a().recs[tid];
    let i = recs.partition_point(|r| r.start <= addr);
    (i > 0 && addr < recs[i - 1].start + recs[i - 1].size).then(|| (tid, recs[i - 1]))
}

pub fn take_bad() -> Option<String> {
    a().bad.take()
}

fn alloc_in(tid: usize, l: Layout) -> *mut u8 {
    let prev = off();
    let ar = a();
    let base = ar.base + tid * ARENA;
    let start = (base + ar.at[tid] + l.align() - 1) & !(l.align() - 1);
    let end = start + l.size();
    if end + 32 > base + ARENA {
        eprintln!("arena exhausted");
        std::process::exit(5);
    }
    ar.at[tid] = (end - base + 16 + 15) & !15;
    ar.recs[tid].push(Rec {
        start,
        size: l.size(),
        epoch: ar.epoch[tid],
        freed: false,
    });
    // SAFETY: Within the mapping
    unsafe { std::ptr::write_bytes(start as *mut u8, 0xAA, l.size()) };
    set(prev);
    start as *mut u8
}

fn dealloc_in(p: usize) {
    let prev = off();
    let ar = a();
    let tid = (p - ar.base) / ARENA;
    let recs = &mut ar.recs[tid];
    let i = recs.partition_point(|r| r.start <= p);
    if i == 0 || recs[i - 1].start != p {
        ar.bad = Some("free of an address that was not allocated".into());
    } else if recs[i - 1].freed {
        ar.bad = Some("double free".into());
    } else {
        recs[i - 1].freed = true;
        // SAFETY: Within the mapping
        unsafe { std::ptr::write_bytes(p as *mut u8, 0xDD, recs[i - 1].size) };
    }
    set(prev);
}

// SAFETY: Either the system allocator, or fresh parts of a mapping
unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match ON.with(|o| o.get()) {
            usize::MAX => System.alloc(l),
            // Part of reporting a panic
            _ if std::thread::panicking() => System.alloc(l),
            tid => alloc_in(tid, l),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if contains(p as usize) {
            dealloc_in(p as usize);
        } else {
            System.dealloc(p, l);
        }
    }
}
