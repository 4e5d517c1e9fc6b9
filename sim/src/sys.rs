//! Raw system calls (inline assembly, never interposed) and the few real libc
//! functions the simulator needs underneath its own overrides.
use std::arch::asm;
use std::ffi::c_void;

#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
#[inline(always)]
pub unsafe fn raw3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    raw6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// libc convention: -1 and errno.
pub unsafe fn cvt(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub fn futex_wait(w: *const u32, val: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}
pub fn futex_wait_timeout(w: *const u32, val: u32, ms: i64) {
    let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
    unsafe {
        raw6(libc::SYS_futex, w as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, &ts as *const _ as i64, 0, 0);
    }
}
pub fn futex_wake(w: *const u32) {
    unsafe {
        raw6(libc::SYS_futex, w as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0);
    }
}
pub fn raw_write(fd: i32, b: &[u8]) {
    let mut o = 0usize;
    while o < b.len() {
        let r = unsafe { raw3(libc::SYS_write, fd as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64) };
        if r <= 0 {
            if r == -(libc::EINTR as i64) {
                continue;
            }
            return;
        }
        o += r as usize;
    }
}
/// Wall clock of the host, used only for budgets and watchdogs, never by the simulation.
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn real_cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw3(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as i64, &mut ts as *mut _ as i64, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}

extern "C" {
    fn dlvsym(handle: *mut c_void, sym: *const i8, ver: *const i8) -> *mut c_void;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
/// The next definition of a libc symbol after ours. `sym` is NUL terminated.
pub unsafe fn next(sym: &[u8]) -> *mut c_void {
    for v in [&b"GLIBC_2.34\0"[..], b"GLIBC_2.2.5\0", b"GLIBC_2.33\0", b"GLIBC_2.3\0", b"GLIBC_2.4\0"] {
        let p = dlvsym(RTLD_NEXT, sym.as_ptr() as *const i8, v.as_ptr() as *const i8);
        if !p.is_null() {
            return p;
        }
    }
    std::ptr::null_mut()
}
macro_rules! real {
    ($name:ident : fn($($t:ty),*) -> $r:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = $crate::sys::next(concat!(stringify!($name), "\0").as_bytes()) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}
pub(crate) use real;
