//! The exhaustive-enumeration engine. A check is a deterministic enumeration of *cases*; every case
//! runs the real code and compares it with a reference model. Cases are split over worker processes
//! by index, so that (section, index) names a case for replay.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::Relaxed};

extern "C" {
    fn clock() -> i64;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

/// CPU seconds one case may take before it counts as not terminating
const CASE_CPU_LIMIT: i64 = 40;

static PROGRESS: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static CASE_SEQ: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// Counters of one case
#[derive(Default)]
pub struct Tally {
    /// Operations of the real code that were compared with the model
    pub ops: u64,
    /// States visited (distinct by construction of the enumeration, or deduplicated by the check)
    pub states: u64,
    outcome: u64,
}

impl Tally {
    #[inline]
    pub fn op(&mut self) {
        self.ops += 1;
    }

    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }

    /// Mix something observed into the outcome of this case
    #[inline]
    pub fn saw<T: std::hash::Hash>(&mut self, val: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.outcome.hash2(&mut h);
        val.hash(&mut h);
        self.outcome = h.finish();
    }
}

trait Hash2 {
    fn hash2(&self, h: &mut std::collections::hash_map::DefaultHasher);
}
impl Hash2 for u64 {
    fn hash2(&self, h: &mut std::collections::hash_map::DefaultHasher) {
        std::hash::Hash::hash(self, h)
    }
}

pub type Res = Result<(), String>;

pub struct Ctx {
    pub thorough: bool,
    shard: u64,
    shards: u64,
    only: Option<(u64, u64)>,
    describe: bool,
    known: HashSet<String>,
    sec_id: u64,
    sec_name: String,
    idx: u64,
    cases: u64,
    ops: u64,
    states: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    sections: Vec<(String, u64, u64)>,
    failed: bool,
    not_run: u64,
}

/// Wall seconds after which a quick run leaves the remaining cases of this worker out. On the
/// unchanged code nothing comes near to this; it is for code that got much slower.
const QUICK_WALL_LIMIT: u64 = 330;

static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
static QUICK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

/// Whether this run should come to an end
pub fn late() -> bool {
    QUICK.load(Relaxed)
        && START.get().is_some_and(|s| s.elapsed().as_secs() > QUICK_WALL_LIMIT)
}

/// Whether the library under test was built with debug assertions and overflow checks
pub const CHECKED: bool = cfg!(debug_assertions);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl Ctx {
    /// Start a section, a group of cases over one alphabet
    pub fn section(&mut self, name: &str) {
        self.sec_id += 1;
        if std::env::var_os("MC_TIMES").is_some() {
            // SAFETY: No preconditions
            eprintln!("{:>8} ms CPU before {name}", unsafe { clock() } / 1000);
        }
        self.sec_name = name.to_string();
        self.idx = 0;
        self.sections.push((name.to_string(), 0, 0));
    }

    /// Whether the next case belongs to this worker. Used to skip expensive preparation; must be
    /// followed by exactly one `case` (if true) or `skip` (if false).
    pub fn mine(&self) -> bool {
        match self.only {
            Some((s, i)) => s == self.sec_id && i == self.idx,
            None => self.idx % self.shards == self.shard,
        }
    }

    pub fn skip(&mut self) {
        self.idx += 1;
    }

    /// Run one case, if it belongs to this worker
    pub fn case(
        &mut self,
        desc: impl Fn() -> String,
        f: impl FnOnce(&mut Tally) -> Res,
    ) {
        let mine = self.mine();
        let idx = self.idx;
        self.idx += 1;
        if !mine || self.failed {
            return;
        }
        if self.describe {
            println!("DESC {}", desc().replace('\n', " "));
            return;
        }
        if self.cases % 16 == 0 && self.not_run == 0 && late() {
            self.not_run = 1;
        }
        if self.not_run > 0 {
            self.not_run += 1;
            return;
        }
        let p = PROGRESS.load(Relaxed);
        if !p.is_null() {
            // SAFETY: A shared mapping of two words
            unsafe {
                p.write_volatile(self.sec_id);
                p.add(1).write_volatile(idx);
            }
        }
        CASE_SEQ.fetch_add(1, Relaxed);
        let mut t = Tally::default();
        let res = match panic::catch_unwind(AssertUnwindSafe(|| f(&mut t))) {
            Ok(r) => r,
            Err(_) => LAST_PANIC.with(|l| {
                let l = l.borrow();
                Err(format!("unexpected panic at {}: {}", l.1, l.0))
            }),
        };
        self.cases += 1;
        self.ops += t.ops;
        self.states += t.states.max(1);
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(t.outcome ^ (t.ops << 1) ^ self.sec_id.rotate_left(40));
        }
        let sec = self.sections.last_mut().unwrap();
        sec.1 += 1;
        sec.2 += t.ops;
        if sec.1 == 3 && self.samples.len() < 12 {
            self.samples.push(format!("[{}] {}", self.sec_name, desc()));
        }
        if let Err(e) = res {
            let d = desc();
            if self.known.contains(&format!("[{}] {}", self.sec_name, d)) {
                println!("KNOWN [{}] {}", self.sec_name, d.replace('\n', " "));
                return;
            }
            self.failed = true;
            println!(
                "FAIL {{\"section\":{},\"section_name\":\"{}\",\"index\":{},\"case\":\"{}\",\"error\":\"{}\"}}",
                self.sec_id,
                esc(&self.sec_name),
                idx,
                esc(&d),
                esc(&e)
            );
        }
    }

    pub fn done(&self) -> bool {
        self.failed
    }
}

/// Run something that may panic; `Err` with the panic message if it does
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|l| {
            let l = l.borrow();
            format!("panic at {}: {}", l.1, l.0)
        })
    })
}

/// The last panic caught
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| {
        let l = l.borrow();
        format!("{} at {}", l.0, l.1)
    })
}

/// A long case makes progress. Called for every comparison, so that only a single operation that
/// does not end counts as one that hangs, not a long case on slow code
#[inline(always)]
pub fn heartbeat() {
    CASE_SEQ.store(CASE_SEQ.load(Relaxed).wrapping_add(1), Relaxed);
}

/// The given call must panic
pub fn must_panic<R: std::fmt::Debug>(what: impl Fn() -> String, f: impl FnOnce() -> R) -> Res {
    match catch(f) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{}: expected a panic, got {:?}", what(), v)),
    }
}

/// The given values must be equal
#[macro_export]
macro_rules! want_eq {
    ($t:expr, $got:expr, $want:expr, $($fmt:tt)*) => {{
        let got = $got;
        let want = $want;
        $t.ops += 1;
        $crate::engine::heartbeat();
        if got != want {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), got, want));
        }
    }};
}

#[macro_export]
macro_rules! want {
    ($t:expr, $cond:expr, $($fmt:tt)*) => {{
        $t.ops += 1;
        $crate::engine::heartbeat();
        if !$cond {
            return Err(format!($($fmt)*));
        }
    }};
}

pub fn main(body: fn(&mut Ctx)) {
    let mut c = Ctx {
        thorough: false,
        shard: 0,
        shards: 1,
        only: None,
        describe: false,
        known: HashSet::new(),
        sec_id: 0,
        sec_name: String::new(),
        idx: 0,
        cases: 0,
        ops: 0,
        states: 0,
        outcomes: HashSet::new(),
        samples: Vec::new(),
        sections: Vec::new(),
        failed: false,
        not_run: 0,
    };
    START.get_or_init(std::time::Instant::now);
    let mut args = std::env::args().skip(1);
    let mut mem_gb = 3u64;
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("missing argument value");
        match a.as_str() {
            "--tier" => c.thorough = val() == "thorough",
            "--shard" => c.shard = val().parse().unwrap(),
            "--shards" => c.shards = val().parse().unwrap(),
            "--section" => c.only = Some((val().parse().unwrap(), 0)),
            "--index" => c.only.as_mut().unwrap().1 = val().parse().unwrap(),
            "--describe" => c.describe = true,
            "--mem-gb" => mem_gb = val().parse().unwrap(),
            "--known" => {
                for l in std::fs::read_to_string(val()).unwrap_or_default().lines() {
                    if !l.is_empty() {
                        c.known.insert(l.to_string());
                    }
                }
            }
            "--progress" => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new()
                    .read(true)
                    .write(true)
                    .open(val())
                    .unwrap();
                // SAFETY: Maps a file of at least 16 bytes
                let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
                assert!(p as isize != -1);
                PROGRESS.store(p.cast(), Relaxed);
            }
            a => panic!("unknown argument {a}"),
        }
    }
    QUICK.store(!c.thorough && c.only.is_none(), Relaxed);
    // SAFETY: RLIMIT_AS is 9
    unsafe { setrlimit(9, &[mem_gb << 30, mem_gb << 30]) };
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = (msg, loc));
    }));
    std::thread::spawn(|| {
        let (mut seq, mut at) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = CASE_SEQ.load(Relaxed);
            // SAFETY: No preconditions
            let cpu = unsafe { clock() } / 1_000_000;
            if now != seq {
                (seq, at) = (now, cpu);
            } else if now != 0 && cpu - at > 1 && std::env::var_os("MC_TIMES").is_some() {
                eprintln!("TIME one operation takes over {} s", cpu - at);
            }
            if now == seq && now != 0 && cpu - at > CASE_CPU_LIMIT {
                println!("HANG");
                std::process::exit(3);
            }
        }
    });
    match panic::catch_unwind(AssertUnwindSafe(|| body(&mut c))) {
        Ok(()) => {}
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|l| l.borrow().clone());
            println!("PANIC {l}: {}", m.replace('\n', " "));
            std::process::exit(4);
        }
    }
    if c.describe {
        return;
    }
    for (n, cases, ops) in &c.sections {
        println!("SECTION {cases} {ops} {n}");
    }
    if c.not_run > 0 {
        println!("EXTRA cases_not_run_for_lack_of_time {}", c.not_run - 1);
    }
    for s in &c.samples {
        println!("SAMPLE {}", s.replace('\n', " "));
    }
    println!(
        "STATS {} {} {} {}",
        c.cases,
        c.ops,
        c.states,
        c.outcomes.len()
    );
    println!("{}", if c.failed { "FAILED" } else { "DONE" });
    std::process::exit(i32::from(c.failed));
}
