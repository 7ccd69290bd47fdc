//! The transcript without an operating system: no std, no libc, no allocator. Linux on 32-bit x86
//! only lends it a way to print and to exit. Same output as `transcript all N`.
#![no_std]
#![no_main]

use core::arch::{asm, global_asm};
use core::fmt::Write;
use probe::{Fnv, Sink};

global_asm!(
    ".globl _start",
    "_start:",
    "mov eax, esp",
    "and esp, -16",
    "sub esp, 12",
    "push eax",
    "call {main}",
    "ud2",
    main = sym start,
);

unsafe fn sys(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("int 0x80", inlateout("eax") n as isize => r, in("ecx") b, in("edx") c, in("ebx") a);
    r
}

fn exit(code: usize) -> ! {
    unsafe { sys(1, code, 0, 0) };
    loop {}
}

struct Out {
    buf: [u8; 4096],
    n: usize,
    lines: u64,
}
impl Out {
    fn flush(&mut self) {
        let mut at = 0;
        while at < self.n {
            let r = unsafe { sys(4, 1, self.buf.as_ptr() as usize + at, self.n - at) };
            if r <= 0 {
                exit(78);
            }
            at += r as usize;
        }
        self.n = 0;
    }
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for b in s.bytes() {
            if self.n == self.buf.len() {
                self.flush();
            }
            self.buf[self.n] = b;
            self.n += 1;
        }
        Ok(())
    }
}
struct Dashed(&'static str);
impl core::fmt::Display for Dashed {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        for c in self.0.chars() {
            f.write_char(if c == ' ' { '-' } else { c })?;
        }
        Ok(())
    }
}
impl Sink for Out {
    fn put(&mut self, section: &'static str, case: u64, step: &'static str, bytes: &[u8]) {
        let mut h = Fnv::new();
        h.put(bytes);
        let _ = writeln!(self, "{section} {case} {} {:016x}", Dashed(step), h.0);
        self.lines += 1;
    }
}

/// argc, argv...
extern "C" fn start(stack: *const usize) -> ! {
    let (argc, argv) = unsafe { (*stack, stack.add(1)) };
    let mut n = 0u64;
    if argc >= 2 {
        let mut p = unsafe { *argv.add(1) as *const u8 };
        while unsafe { *p } != 0 {
            n = n * 10 + u64::from(unsafe { *p } - b'0');
            p = unsafe { p.add(1) };
        }
    }
    let mut out = Out { buf: [0; 4096], n: 0, lines: 0 };
    for s in probe::SECTIONS {
        for i in 0..n {
            if !probe::run(s, i, false, &mut out) {
                break;
            }
        }
    }
    let lines = out.lines;
    let _ = writeln!(out, "end {lines}");
    out.flush();
    exit(0)
}

#[panic_handler]
fn panic(info: &core::panic::PanicInfo) -> ! {
    let mut out = Out { buf: [0; 4096], n: 0, lines: 0 };
    let _ = writeln!(out, "panicked {info}");
    out.flush();
    exit(79)
}

/// There is no heap; a dependency that merely links `alloc` still finds a symbol.
struct NoHeap;
unsafe impl core::alloc::GlobalAlloc for NoHeap {
    unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
        exit(77)
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {
        exit(77)
    }
}
#[global_allocator]
static HEAP: NoHeap = NoHeap;
