//! The monitoring framework: stages of generated cases, worker threads, verdicts, counters.

use refmodel::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
/// CPU time a single operation of the code under test may take.
const OP_CPU_LIMIT_NS: i64 = 60_000_000_000;

static OP_START: [AtomicI64; SLOTS] = [const { AtomicI64::new(-1) }; SLOTS];
static OP_CLOCK: [AtomicI64; SLOTS] = [const { AtomicI64::new(-1) }; SLOTS];
static CUR_INDEX: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static CUR_STAGE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static STAGES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HANG_EXEMPT: AtomicBool = AtomicBool::new(false);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_IMPL: Cell<u32> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC_IN_IMPL: Cell<bool> = const { Cell::new(false) };
}

thread_local! {
    /// Heap allocations made by this thread inside the code under test.
    static HEAP_CALLS: Cell<u64> = const { Cell::new(0) };
    static HEAP_LAST: Cell<usize> = const { Cell::new(0) };
}

/// The allocator of the monitor: notes what the code under test asks for.
pub struct Heap;
fn note(size: usize) {
    let _ = IN_IMPL.try_with(|c| {
        if c.get() > 0 {
            let _ = HEAP_CALLS.try_with(|h| h.set(h.get() + 1));
            let _ = HEAP_LAST.try_with(|h| h.set(size));
        }
    });
}
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}

fn thread_cpu_ns() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

/// Run an operation of the code under test: a panic inside is the code's, not the monitor's.
pub fn imp<T>(f: impl FnOnce() -> T) -> T {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            // While unwinding, leave the mark set: the panic hook has already classified.
            let d = IN_IMPL.with(|c| {
                c.set(c.get() - 1);
                c.get()
            });
            let s = SLOT.with(Cell::get);
            if d == 0 && s < SLOTS {
                OP_START[s].store(-1, Ordering::Relaxed);
            }
        }
    }
    let s = SLOT.with(Cell::get);
    let depth = IN_IMPL.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if depth == 1 && s < SLOTS {
        OP_START[s].store(thread_cpu_ns(), Ordering::Relaxed);
    }
    let _g = Guard;
    f()
}

/// Leave the code under test for a callback of the monitor (a generator, an allocator).
pub fn callback<T>(f: impl FnOnce() -> T) -> T {
    struct Guard(u32);
    impl Drop for Guard {
        fn drop(&mut self) {
            IN_IMPL.with(|c| c.set(self.0));
        }
    }
    let _g = Guard(IN_IMPL.with(|c| c.replace(0)));
    f()
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let in_impl = IN_IMPL.with(Cell::get) > 0;
        PANIC_IN_IMPL.with(|p| p.set(in_impl));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
    if std::env::var_os("MON_SANITIZED").is_some() {
        // The sanitizer has handlers of its own.
        return;
    }
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

/// Install only in processes that have no sanitizer handlers of their own.
extern "C" fn on_signal(sig: libc::c_int) {
    // Only async-signal-safe calls from here on.
    let slot = SLOT.with(Cell::get);
    let in_impl = IN_IMPL.with(Cell::get) > 0;
    let mut buf = [0u8; 128];
    let mut n = 0;
    let mut put = |b: &[u8]| {
        for x in b {
            if n < buf.len() {
                buf[n] = *x;
                n += 1;
            }
        }
    };
    fn dec(mut v: u64, out: &mut [u8; 20]) -> &[u8] {
        let mut i = 20;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        &out[i..]
    }
    let mut t = [0u8; 20];
    put(b"CRASH signal=");
    put(dec(sig as u64, &mut t));
    put(b" in_impl=");
    put(if in_impl { b"1" } else { b"0" });
    if slot < SLOTS {
        put(b" stage=");
        put(dec(CUR_STAGE[slot].load(Ordering::Relaxed) as u64, &mut t));
        put(b" index=");
        put(dec(CUR_INDEX[slot].load(Ordering::Relaxed), &mut t));
    }
    put(b"\n");
    unsafe {
        libc::write(2, buf.as_ptr().cast(), n);
        libc::_exit(if in_impl { 70 } else { 71 });
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stage: String,
    pub index: u64,
    pub what: String,
    pub detail: String,
}

/// A violation in the making: (what, detail).
pub struct Bad(pub String, pub String);
pub type R = Result<(), Bad>;

pub fn bad<T>(what: impl Into<String>, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad(what.into(), detail.into()))
}

pub fn hex(b: &[u8]) -> String {
    refmodel::selftest::hex(b)
}

/// Byte strings must be equal.
pub fn same(what: &str, got: &[u8], want: &[u8], detail: impl FnOnce() -> String) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    bad(
        format!("{what} differs from the specification"),
        format!("first difference at byte {at}; got {}; want {}; {}", hex(got), hex(want), detail()),
    )
}

pub fn check(c: bool, what: &str, detail: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        bad(what, detail())
    }
}

#[derive(Default)]
pub struct Local {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    /// signature -> (text, detail): violations that the check compares with the known findings
    pub findings: BTreeMap<String, (String, String)>,
    pub evaluations: u64,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

impl Local {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// Register a value of a set whose cardinality is reported.
    pub fn seen(&mut self, k: &str, v: u64) {
        match self.sets.get_mut(k) {
            Some(s) => {
                s.insert(v);
            }
            None => {
                self.sets.insert(k.to_string(), HashSet::from([v]));
            }
        }
    }
    /// A violation with a signature, which may be a known finding.
    pub fn finding(&mut self, sig: &str, text: &str, detail: &str) {
        if !self.findings.contains_key(sig) {
            self.findings.insert(sig.into(), (text.into(), detail.into()));
        }
    }
    /// Register a non-trivial case by its input.
    pub fn nontrivial(&mut self, parts: &[&[u8]]) {
        let mut v = Vec::new();
        for p in parts {
            v.extend((p.len() as u32).to_le_bytes());
            v.extend_from_slice(p);
        }
        self.distinct.insert(fnv(&v));
    }
    pub fn merge(&mut self, o: Local) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        for (k, v) in o.findings {
            self.findings.entry(k).or_insert(v);
        }
        self.evaluations += o.evaluations;
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub l: &'a mut Local,
}

impl Case<'_> {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.index < 1 {
            let s = f();
            self.l.samples.push(s);
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub prop: String,
    pub thorough: bool,
    /// Judge only heap use, or only panics: the workloads of other properties run for their operations.
    pub heap_only: bool,
    pub safety_only: bool,
    /// Put before stage names.
    pub prefix: String,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub scale: f64,
    pub total: Local,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub stages: Vec<(String, u64, f64)>,
    pub truncated: Vec<String>,
    pub deadline: Instant,
}

impl Ctx {
    /// quick / thorough case counts
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let b = if self.thorough { thorough } else { quick };
        ((b as f64 * self.scale).ceil() as u64).max(1)
    }

    pub fn start_watchdog() {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            if HANG_EXEMPT.load(Ordering::Relaxed) {
                continue;
            }
            for s in 0..SLOTS {
                let st = OP_START[s].load(Ordering::Relaxed);
                let clk = OP_CLOCK[s].load(Ordering::Relaxed);
                if st < 0 || clk == -1 {
                    continue;
                }
                let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                if unsafe { libc::clock_gettime(clk as libc::clockid_t, &mut ts) } != 0 {
                    continue;
                }
                let now = ts.tv_sec * 1_000_000_000 + ts.tv_nsec;
                if OP_START[s].load(Ordering::Relaxed) == st && now - st > OP_CPU_LIMIT_NS {
                    let stage = CUR_STAGE[s].load(Ordering::Relaxed);
                    eprintln!("HANG stage={} index={}", stage, CUR_INDEX[s].load(Ordering::Relaxed));
                    unsafe { libc::_exit(72) };
                }
            }
        });
    }

    /// Run `count` cases of a stage on the worker threads.
    pub fn stage(&mut self, name: &str, count: u64, f: impl Fn(&mut Case) -> R + Sync) {
        self.stage_threads(name, count, self.threads, f)
    }

    pub fn stage_threads(&mut self, name: &str, count: u64, threads: usize, f: impl Fn(&mut Case) -> R + Sync) {
        let name = &format!("{}{name}", self.prefix);
        if let Some((s, _)) = &self.only {
            if s != name.as_str() {
                return;
            }
        }
        if self.violations.len() >= 5 || !self.errors.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let stage_id = {
            let mut v = STAGES.lock().unwrap();
            v.push(name.to_string());
            eprintln!("STAGE {} {}", v.len() - 1, name);
            v.len() - 1
        };
        let next = AtomicU64::new(self.only.as_ref().map_or(0, |o| o.1));
        let end = self.only.as_ref().map_or(count, |o| o.1 + 1);
        let stop = AtomicBool::new(false);
        let trunc = AtomicBool::new(false);
        let viol: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let errs: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let locals: Mutex<Vec<Local>> = Mutex::new(Vec::new());
        let nthreads = if self.only.is_some() { 1 } else { threads.min(count.max(1) as usize) };
        let (seed, prop, deadline) = (self.seed, &self.prop, self.deadline);
        let (heap_only, safety_only) = (self.heap_only, self.safety_only);
        std::thread::scope(|sc| {
            for w in 0..nthreads {
                let (next, stop, trunc, viol, errs, locals, f) = (&next, &stop, &trunc, &viol, &errs, &locals, &f);
                let b = std::thread::Builder::new().stack_size(16 << 20);
                b.spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(w));
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    OP_CLOCK[w].store(i64::from(clk), Ordering::Relaxed);
                    CUR_STAGE[w].store(stage_id, Ordering::Relaxed);
                    let mut local = Local::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= end {
                            break;
                        }
                        if Instant::now() > deadline {
                            trunc.store(true, Ordering::Relaxed);
                            break;
                        }
                        CUR_INDEX[w].store(i, Ordering::Relaxed);
                        local.evaluations += 1;
                        IN_IMPL.with(|c| c.set(0));
                        let mut case = Case { rng: Rng::case(seed, prop, name, i), index: i, l: &mut local };
                        HEAP_CALLS.with(|h| h.set(0));
                        let mut r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                        if safety_only && (matches!(r, Ok(Err(_))) || (r.is_err() && !PANIC_IN_IMPL.with(Cell::get))) {
                            case.l.count("cases_wrong_otherwise", 1);
                            r = Ok(Ok(()));
                        }
                        if heap_only {
                            // A panic and its message are another property's matter.
                            if matches!(r, Ok(Err(_))) || (r.is_err() && PANIC_IN_IMPL.with(Cell::get)) {
                                case.l.count("cases_wrong_otherwise", 1);
                                r = Ok(Ok(()));
                            } else if r.is_ok() {
                                let n = HEAP_CALLS.with(Cell::get);
                                case.l.count("cases_watched", 1);
                                if n > 0 {
                                    r = Ok(bad(
                                        "an operation allocated heap memory",
                                        format!("{n} allocations, the last of {} bytes", HEAP_LAST.with(Cell::get)),
                                    ));
                                }
                            }
                        }
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(Bad(what, detail))) => {
                                let mut v = viol.lock().unwrap();
                                v.push(Violation { stage: name.into(), index: i, what, detail });
                                if v.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(_) => {
                                let msg = PANIC_MSG.with(|p| p.borrow().clone());
                                if PANIC_IN_IMPL.with(Cell::get) {
                                    let mut v = viol.lock().unwrap();
                                    v.push(Violation { stage: name.into(), index: i, what: format!("operation panicked: {msg}"), detail: String::new() });
                                    if v.len() >= 5 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                } else {
                                    errs.lock().unwrap().push(format!("monitor panicked in {name}:{i}: {msg}"));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    OP_CLOCK[w].store(-1, Ordering::Relaxed);
                    locals.lock().unwrap().push(local);
                })
                .unwrap();
            }
        });
        for l in locals.into_inner().unwrap() {
            self.total.merge(l);
        }
        let mut v = viol.into_inner().unwrap();
        v.sort_by_key(|v| v.index);
        self.violations.extend(v);
        self.errors.extend(errs.into_inner().unwrap());
        let dt = t0.elapsed().as_secs_f64();
        if trunc.load(Ordering::Relaxed) {
            self.truncated.push(name.to_string());
        }
        let done = next.load(Ordering::Relaxed).min(end);
        self.stages.push((name.to_string(), done, dt));
        eprintln!("STAGE-END {name} cases={done} {dt:.2}s");
    }

    /// Is a verdict over all cases of a workload called for?
    pub fn judging_totals(&self) -> bool {
        !self.heap_only && !self.safety_only && self.only.is_none() && self.violations.is_empty() && self.errors.is_empty()
    }

    /// The workload must have observed this many events, or the run says nothing.
    pub fn require(&mut self, counter: &str, at_least: u64) {
        if self.heap_only || self.safety_only || self.only.is_some() || !self.violations.is_empty() || !self.truncated.is_empty() {
            return;
        }
        let c = self.total.counts.get(counter).copied().unwrap_or(0);
        let s = self.total.sets.get(counter).map_or(0, |s| s.len() as u64);
        let m = self.total.maxes.get(counter).copied().unwrap_or(0);
        if c.max(s).max(m) < at_least {
            self.errors.push(format!("inconclusive: {counter} = {} < {at_least}", c.max(s).max(m)));
        }
    }

    pub fn json(&self) -> String {
        let mut o = String::from("{");
        let _ = write!(o, "\"evaluations\":{},\"distinct\":{}", self.total.evaluations, self.total.distinct.len());
        let _ = write!(o, ",\"counts\":{{");
        let mut first = true;
        for (k, v) in &self.total.counts {
            let _ = write!(o, "{}{}:{}", if first { "" } else { "," }, js(k), v);
            first = false;
        }
        let _ = write!(o, "}},\"maxes\":{{");
        first = true;
        for (k, v) in &self.total.maxes {
            let _ = write!(o, "{}{}:{}", if first { "" } else { "," }, js(k), v);
            first = false;
        }
        let _ = write!(o, "}},\"sets\":{{");
        first = true;
        for (k, v) in &self.total.sets {
            let _ = write!(o, "{}{}:{}", if first { "" } else { "," }, js(k), v.len());
            first = false;
        }
        let _ = write!(o, "}},\"stages\":[");
        first = true;
        for (n, c, t) in &self.stages {
            let _ = write!(o, "{}{{\"stage\":{},\"cases\":{},\"seconds\":{:.3}}}", if first { "" } else { "," }, js(n), c, t);
            first = false;
        }
        let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let _ = write!(o, "],\"samples\":[{}]", list(&self.total.samples[..self.total.samples.len().min(12)]));
        let _ = write!(o, ",\"errors\":[{}],\"truncated\":[{}]", list(&self.errors), list(&self.truncated));
        let _ = write!(o, ",\"findings\":[");
        first = true;
        for (k, (t, d)) in &self.total.findings {
            let _ = write!(
                o,
                "{}{{\"signature\":{},\"text\":{},\"detail\":{}}}",
                if first { "" } else { "," },
                js(k),
                js(t),
                js(d)
            );
            first = false;
        }
        let _ = write!(o, "],\"violations\":[");
        first = true;
        for v in &self.violations {
            let _ = write!(
                o,
                "{}{{\"stage\":{},\"index\":{},\"what\":{},\"detail\":{}}}",
                if first { "" } else { "," },
                js(&v.stage),
                v.index,
                js(&v.what),
                js(&v.detail)
            );
            first = false;
        }
        o.push_str("]}");
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The message of the last panic of this thread, and whether it was raised inside `imp`.
pub fn last_panic() -> (String, bool) {
    (PANIC_MSG.with(|p| p.borrow().clone()), PANIC_IN_IMPL.with(Cell::get))
}

/// Catch a panic of the code under test. A panic of the monitor goes on.
pub fn imp_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let depth = IN_IMPL.with(Cell::get);
    match catch_unwind(AssertUnwindSafe(|| imp(f))) {
        Ok(v) => Ok(v),
        Err(e) => {
            IN_IMPL.with(|c| c.set(depth));
            let (m, i) = last_panic();
            if i {
                Err(m)
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}
