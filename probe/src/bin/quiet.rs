//! C22: operations on caller-supplied randomness under an allocator that counts and a kernel that
//! refuses. The child process may make no system call, read no clock and touch no heap.
//!
//!   quiet CASES [EXTREME-FILE]

use probe::{Fnv, Sink};
use rand_core::{CryptoRng, Error, RngCore};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Relaxed) {
            CALLS.fetch_add(1, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Relaxed) {
            CALLS.fetch_add(1, Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARMED.load(Relaxed) {
            CALLS.fetch_add(1, Relaxed);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Relaxed) {
            CALLS.fetch_add(1, Relaxed);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// What parent and child share.
#[repr(C)]
struct Shared {
    ops: u64,
    values: u64,
    digest: u64,
    allocs: u64,
    syscall: i64,
    panicked: u64,
    done: u64,
    extreme: u64,
    at: [u8; 128],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}
fn here(parts: &[&str], n: u64) {
    let at = &mut shared().at;
    at.fill(0);
    let mut i = 0;
    for b in parts.iter().flat_map(|p| p.bytes().chain([b' '])) {
        if i < 100 {
            at[i] = b;
            i += 1;
        }
    }
    let mut d = 1_000_000_000u64;
    while d > 0 {
        if n >= d || d == 1 {
            at[i] = b'0' + ((n / d) % 10) as u8;
            i += 1;
        }
        d /= 10;
    }
}

struct Quiet;
impl Sink for Quiet {
    fn put(&mut self, section: &'static str, case: u64, step: &'static str, bytes: &[u8]) {
        let s = shared();
        let mut h = Fnv(s.digest);
        h.put(bytes);
        s.digest = h.0;
        s.values += 1;
        if CALLS.load(Relaxed) > 0 && s.allocs == 0 {
            s.allocs = CALLS.load(Relaxed);
            here(&["up to", step, "of", section, "case"], case);
        }
        if s.allocs == 0 {
            here(&["after", step, "of", section, "case"], case);
        }
    }
}

/// Serves a tape, then zeros.
pub struct Tape<'a>(&'a [u8]);
impl RngCore for Tape<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let n = dest.len().min(self.0.len());
        dest[..n].copy_from_slice(&self.0[..n]);
        dest[n..].fill(0);
        self.0 = &self.0[n..];
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape<'_> {}

fn extreme<K: ml_kem::KemCore>(d: &[u8], section: &'static str, i: u64, out: &mut Quiet) {
    use kem::{Decapsulate, Encapsulate};
    use ml_kem::EncodedSizeUser;
    let (dk, ek) = K::generate(&mut Tape(d));
    out.put(section, i, "extreme keygen", &dk.as_bytes());
    let (ct, ss) = ek.encapsulate(&mut Tape(d)).unwrap();
    out.put(section, i, "extreme encaps", &ss);
    out.put(section, i, "extreme decaps", &dk.decapsulate(&ct).unwrap());
    let ek = K::EncapsulationKey::from_bytes(&ek.as_bytes());
    out.put(section, i, "extreme parse", &ek.as_bytes());
}

extern "C" fn on_sigsys(_: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        // si_call_addr, si_syscall, si_arch follow the common header
        shared().syscall = i64::from(*(info as *const i32).add(6));
        libc::_exit(70);
    }
}
extern "C" fn on_segv(_: libc::c_int) {
    unsafe {
        shared().syscall = -2;
        libc::_exit(71);
    }
}

fn lock_down(allow: &[u32]) -> bool {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sigsys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::prctl(libc::PR_SET_TSC, libc::PR_TSC_SIGSEGV);
        let mut f: Vec<libc::sock_filter> = Vec::new();
        let ins = |code: u32, k: u32, jt: u8, jf: u8| libc::sock_filter { code: code as u16, jt, jf, k };
        f.push(ins(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0));
        for n in allow {
            f.push(ins(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, *n, 0, 1));
            f.push(ins(libc::BPF_RET | libc::BPF_K, 0x7fff_0000, 0, 0));
        }
        f.push(ins(libc::BPF_RET | libc::BPF_K, 0x0003_0000, 0, 0));
        let p = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, 2, &p) == 0
    }
}

/// Run `f` in a locked-down child; returns its wait status.
fn child(allow: &[u32], f: impl FnOnce()) -> i32 {
    unsafe {
        *SHARED = std::mem::zeroed();
        shared().syscall = -1;
        let pid = libc::fork();
        if pid == 0 {
            if !lock_down(allow) {
                libc::_exit(90);
            }
            CALLS.store(0, Relaxed);
            ARMED.store(true, Relaxed);
            f();
            ARMED.store(false, Relaxed);
            if shared().allocs == 0 {
                shared().allocs = CALLS.load(Relaxed);
            }
            shared().done = 1;
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        st
    }
}

fn report(name: &str, st: i32) {
    let s = shared();
    let at = String::from_utf8_lossy(&s.at).trim_end_matches('\0').to_string();
    println!(
        "result run={name} status={} done={} ops={} values={} extreme={} allocs={} syscall={} panicked={} digest={:016x} at={}",
        st, s.done, s.ops, s.values, s.extreme, s.allocs, s.syscall, s.panicked, s.digest, at
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cases: u64 = a[1].parse().unwrap();
    let ext: Vec<(String, u8, Vec<u8>)> = a.get(2).map_or(vec![], |f| {
        std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .map(|l| {
                let p: Vec<&str> = l.split_whitespace().collect();
                let b = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
                (p[0].to_string(), p[1].parse().unwrap(), b)
            })
            .collect()
    });
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p.cast();
    }
    std::panic::set_hook(Box::new(|_| {
        shared().panicked = 1;
        unsafe { libc::_exit(72) };
    }));
    // The monitor must be able to see: a child that allocates, one that calls the kernel, one that reads the clock.
    let st = child(&[231], || {
        std::hint::black_box(vec![1u8; 10]);
    });
    report("control-alloc", st);
    let st = child(&[231], || unsafe {
        libc::syscall(libc::SYS_getpid);
    });
    report("control-syscall", st);
    let st = child(&[231], || {
        std::hint::black_box(unsafe { std::arch::x86_64::_rdtsc() });
    });
    report("control-clock", st);

    for s in probe::SECTIONS {
        let st = child(&[231], || {
            let mut out = Quiet;
            for i in 0..cases {
                if !probe::run(s, i, false, &mut out) {
                    break;
                }
                shared().ops += 1;
            }
        });
        report(s, st);
    }
    let st = child(&[231], || {
        let mut out = Quiet;
        for (i, (kind, k, b)) in ext.iter().enumerate() {
            if kind == "x" {
                #[cfg(feature = "xwing")]
                {
                    use kem::{Decapsulate, Encapsulate};
                    let (dk, ek) = x_wing::generate_key_pair(&mut Tape(b));
                    let (ct, ss) = ek.encapsulate(&mut Tape(b)).unwrap();
                    out.put("xwing", i as u64, "extreme encaps", &ss);
                    out.put("xwing", i as u64, "extreme decaps", &dk.decapsulate(&ct).unwrap());
                }
            } else {
                match k {
                    2 => extreme::<ml_kem::MlKem512>(b, "mlkem-512", i as u64, &mut out),
                    3 => extreme::<ml_kem::MlKem768>(b, "mlkem-768", i as u64, &mut out),
                    _ => extreme::<ml_kem::MlKem1024>(b, "mlkem-1024", i as u64, &mut out),
                }
            }
            shared().extreme += 1;
        }
    });
    report("extreme", st);
    // The two functions documented to use the operating system: its entropy, and nothing else.
    #[cfg(feature = "xwing-getrandom")]
    {
        let allow = [231, 318, 257, 0, 3, 7, 2, 202, 5, 72];
        let st = child(&allow, || {
            let mut out = Quiet;
            for i in 0..cases.min(50) {
                let (dk, _) = x_wing::generate_key_pair_from_os_rng();
                out.put("os-rng", i, "key pair", dk.as_bytes());
                let dk = x_wing::DecapsulationKey::generate_from_os_rng();
                out.put("os-rng", i, "key", dk.as_bytes());
                shared().ops += 1;
            }
        });
        report("os-rng", st);
    }
}
