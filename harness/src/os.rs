//! The operating system's random source as the code under test sees it. The functions by which
//! this process could reach it are defined here, so that calls of an armed thread are recorded and
//! can be scripted or made to fail; all other calls go to the kernel unchanged.

use crate::rngs::{filler, REMEMBERED};
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void};

#[derive(Clone, Debug)]
pub enum Mode {
    /// Real randomness, recorded.
    Record,
    /// These bytes, then arbitrary ones.
    Script(Vec<u8>),
    /// Per call: an action, the last one repeated.
    Faults(Vec<Act>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// Deliver everything asked for.
    Full,
    /// Deliver at most this many bytes.
    Short(usize),
    /// Fail with errno.
    Errno(c_int),
}

#[derive(Default, Clone, Debug)]
pub struct Record {
    /// Bytes delivered, in order.
    pub bytes: Vec<u8>,
    pub calls: usize,
    pub failed: usize,
    /// (asked, delivered or -errno)
    pub log: Vec<(usize, i64)>,
}

struct State {
    mode: Mode,
    rec: Record,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
}

pub fn arm(mode: Mode) {
    STATE.with(|s| *s.borrow_mut() = Some(State { mode, rec: Record::default() }));
    ARMED.with(|a| a.set(true));
}

pub fn disarm() -> Record {
    ARMED.with(|a| a.set(false));
    STATE.with(|s| s.borrow_mut().take()).map(|s| s.rec).unwrap_or_default()
}

unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

fn armed() -> bool {
    ARMED.try_with(Cell::get).unwrap_or(false)
}

/// One delivery to an armed thread: a count or -errno.
unsafe fn deliver(buf: *mut u8, len: usize) -> c_long {
    ARMED.with(|a| a.set(false));
    let r = STATE.with(|s| {
        let mut g = s.borrow_mut();
        let st = g.as_mut().unwrap();
        let call = st.rec.calls;
        st.rec.calls += 1;
        let act = match &st.mode {
            Mode::Record | Mode::Script(_) => Act::Full,
            Mode::Faults(v) => v[call.min(v.len() - 1)],
        };
        let n = match act {
            Act::Errno(e) => {
                st.rec.failed += 1;
                if st.rec.log.len() < REMEMBERED {
                    st.rec.log.push((len, -i64::from(e)));
                }
                return -c_long::from(e);
            }
            Act::Full => len,
            Act::Short(n) => len.min(n),
        };
        match &st.mode {
            Mode::Script(v) => {
                for i in 0..n {
                    *buf.add(i) = v.get(st.rec.bytes.len() + i).copied().unwrap_or_else(|| filler(st.rec.bytes.len() + i));
                }
            }
            _ => {
                let mut done = 0;
                while done < n {
                    let k = raw(libc::SYS_getrandom, [buf.add(done) as c_long, (n - done) as c_long, 0, 0, 0, 0]);
                    assert!(k > 0);
                    done += k as usize;
                }
            }
        }
        if n > 0 && st.rec.bytes.len() < 1 << 16 {
            // a probe may pass no buffer
            st.rec.bytes.extend_from_slice(std::slice::from_raw_parts(buf, n));
        }
        if st.rec.log.len() < REMEMBERED {
            st.rec.log.push((len, n as i64));
        }
        n as c_long
    });
    ARMED.with(|a| a.set(true));
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && armed() {
        return ret(deliver(a as *mut u8, b as usize));
    }
    ret(raw(n, [a, b, c, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    if armed() {
        return ret(deliver(buf.cast(), len)) as isize;
    }
    ret(raw(libc::SYS_getrandom, [buf as c_long, len as c_long, c_long::from(flags), 0, 0, 0])) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int {
    if armed() {
        return if ret(deliver(buf.cast(), len)) as usize == len { 0 } else { -1 };
    }
    let r = ret(raw(libc::SYS_getrandom, [buf as c_long, len as c_long, 0, 0, 0, 0]));
    if r as usize == len {
        0
    } else {
        -1
    }
}

/// Reads of an armed thread from a random device.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if armed() {
        let mut path = *b"/proc/self/fd/0000000000\0";
        let mut i = 24;
        let mut v = fd;
        let mut digits = 0;
        while v > 0 || digits == 0 {
            i -= 1;
            path[i] = b'0' + (v % 10) as u8;
            v /= 10;
            digits += 1;
        }
        path.copy_within(i..25, 14);
        let mut name = [0u8; 32];
        let k = raw(libc::SYS_readlink, [path.as_ptr() as *const c_char as c_long, name.as_mut_ptr() as c_long, 31, 0, 0, 0]);
        if k > 0 && (&name[..k as usize] == b"/dev/urandom" || &name[..k as usize] == b"/dev/random") {
            return ret(deliver(buf.cast(), len)) as isize;
        }
    }
    ret(raw(libc::SYS_read, [c_long::from(fd), buf as c_long, len as c_long, 0, 0, 0])) as isize
}
