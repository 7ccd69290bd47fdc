//! One operation stopped at points of its execution, down to any single instruction, while others run.

use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Once;

/// How long the stopped thread waits for the other at most. The other may need a lock the stopped one holds.
const PATIENCE_NS: i64 = 20_000_000;

#[derive(Clone, Copy, Debug)]
pub enum How {
    /// Single steps, begun after `gap` turns of a loop and `most` at most. A stop after `first` of them, and then every `every`.
    Step { gap: u64, first: u64, every: u64, most: u64 },
    /// Whenever a signal gets through; before each, a pause of so many turns of a loop.
    Signal { gap: u64 },
}

#[derive(Default)]
struct Slot {
    paused: AtomicU64,
    released: AtomicU64,
    steps: AtomicU64,
    next: AtomicU64,
    every: AtomicU64,
    most: AtomicU64,
    stop: AtomicBool,
    done: AtomicBool,
    late: AtomicU64,
}

thread_local! {
    static MINE: Cell<*const Slot> = const { Cell::new(std::ptr::null()) };
}

fn now() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

fn pause(s: &Slot) {
    if s.done.load(SeqCst) || s.stop.load(SeqCst) || s.late.load(SeqCst) > 10 {
        return;
    }
    let n = s.paused.fetch_add(1, SeqCst) + 1;
    let t = now();
    while s.released.load(SeqCst) < n {
        std::hint::spin_loop();
        if now() - t > PATIENCE_NS {
            s.late.fetch_add(1, SeqCst);
            return;
        }
    }
}

extern "C" fn on_step(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let p = MINE.with(Cell::get);
    let stop = match unsafe { p.as_ref() } {
        None => true,
        Some(s) => {
            let n = s.steps.fetch_add(1, SeqCst);
            if n >= s.next.load(SeqCst) {
                s.next.store(n + s.every.load(SeqCst), SeqCst);
                pause(s);
            }
            s.stop.load(SeqCst) || n >= s.most.load(SeqCst)
        }
    };
    if stop {
        set_trap(uc, false);
    }
}

#[cfg(target_arch = "x86_64")]
fn set_trap(uc: *mut libc::c_void, on: bool) {
    unsafe {
        let f = &mut (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_EFL as usize];
        *f = if on { *f | 0x100 } else { *f & !0x100 };
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn set_trap(_: *mut libc::c_void, _: bool) {}

/// The trap flag is set in the context a signal returns to.
extern "C" fn on_start(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    set_trap(uc, true);
}

extern "C" fn on_poke(_sig: libc::c_int) {
    if let Some(s) = unsafe { MINE.with(Cell::get).as_ref() } {
        pause(s);
    }
}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let with = |sig, f: usize, flags| {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f;
            sa.sa_flags = flags | libc::SA_RESTART;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        };
        with(libc::SIGTRAP, on_step as *const () as usize, libc::SA_SIGINFO);
        with(libc::SIGUSR1, on_start as *const () as usize, libc::SA_SIGINFO);
        with(libc::SIGUSR2, on_poke as *const () as usize, 0);
    });
}

pub struct Outcome {
    /// None: it panicked
    pub got: Option<Vec<u8>>,
    pub pauses: u64,
    pub steps: u64,
    pub late: u64,
}

/// Run `a` in a thread of its own, stopped as `how` says. At each stop `b` runs here, to its end.
pub fn preempted(a: impl FnOnce() -> Vec<u8> + Send, how: How, mut b: impl FnMut(u64)) -> Outcome {
    install();
    let slot = Slot::default();
    let (ready, ack, tid) = (AtomicBool::new(false), AtomicBool::new(false), AtomicU64::new(0));
    if let How::Step { first, every, most, .. } = how {
        slot.most.store(most, SeqCst);
        slot.next.store(first, SeqCst);
        slot.every.store(every.max(1), SeqCst);
    }
    let mut got = None;
    let mut pauses = 0;
    std::thread::scope(|sc| {
        let (slot, ready, ack, tid) = (&slot, &ready, &ack, &tid);
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, move || {
                MINE.with(|m| m.set(slot));
                tid.store(unsafe { libc::pthread_self() } as u64, SeqCst);
                ready.store(true, SeqCst);
                if matches!(how, How::Step { gap: 0, .. }) {
                    unsafe { libc::raise(libc::SIGUSR1) };
                }
                let r = catch_unwind(AssertUnwindSafe(a)).ok();
                slot.stop.store(true, SeqCst);
                slot.done.store(true, SeqCst);
                while !ack.load(SeqCst) {
                    std::hint::spin_loop();
                }
                MINE.with(|m| m.set(std::ptr::null()));
                r
            })
            .unwrap();
        while !ready.load(SeqCst) {
            std::hint::spin_loop();
        }
        let id = tid.load(SeqCst) as libc::pthread_t;
        match how {
            How::Step { gap, .. } if gap > 0 => {
                (0..gap).for_each(|_| std::hint::spin_loop());
                unsafe { libc::pthread_kill(id, libc::SIGUSR1) };
            }
            _ => {}
        }
        while !slot.done.load(SeqCst) {
            if let How::Signal { gap } = how {
                (0..gap).for_each(|_| std::hint::spin_loop());
                if slot.done.load(SeqCst) {
                    break;
                }
                unsafe { libc::pthread_kill(id, libc::SIGUSR2) };
            }
            while slot.paused.load(SeqCst) == pauses && !slot.done.load(SeqCst) && slot.late.load(SeqCst) <= 10 {
                std::hint::spin_loop();
            }
            if slot.late.load(SeqCst) > 10 {
                // locks: no use in stopping it further
                slot.stop.store(true, SeqCst);
                break;
            }
            if slot.paused.load(SeqCst) > pauses {
                b(pauses);
                pauses = slot.paused.load(SeqCst);
                slot.released.store(pauses, SeqCst);
            }
        }
        ack.store(true, SeqCst);
        got = h.join().unwrap_or(None);
    });
    Outcome { got, pauses, steps: slot.steps.load(SeqCst), late: slot.late.load(SeqCst) }
}
