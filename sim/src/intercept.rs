//! libc overrides. Every function here shadows the libc symbol for the whole
//! program (std, tokio, mio, ntex, rustix, ...). Outside a simulated run, or
//! for descriptors the simulator does not own, they issue the real system call.
#![allow(clippy::missing_safety_doc)]
use crate::kernel::*;
use crate::sys::{cvt, raw3, raw6, real, set_errno};
use libc::*;
use std::collections::VecDeque;

#[inline(always)]
fn v(fd: c_int) -> bool {
    fd >= VFD_BASE && simulated()
}
unsafe fn err(e: c_int) -> c_int {
    set_errno(e);
    -1
}

// ------------------------------------------------------------------ time
unsafe fn put_ts(ts: *mut timespec, ns: u64) {
    (*ts).tv_sec = (ns / SEC) as i64;
    (*ts).tv_nsec = (ns % SEC) as i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_clock_gettime, id as i64, ts as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    kk.now += 50;
    match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => put_ts(ts, kk.realtime()),
        _ => put_ts(ts, 1_000 * SEC + kk.now),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn ns_of(ts: *const timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec.max(0) as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_nanosleep, req as i64, rem as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let d = kk.now.saturating_add(ns_of(req));
    kk.block(Block::Sleep, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !simulated() {
        return -raw6(SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let mut d = ns_of(req);
    if flags & TIMER_ABSTIME != 0 {
        d = if id == CLOCK_REALTIME { kk.now + d.saturating_sub(kk.realtime()) } else { d.saturating_sub(1_000 * SEC) };
    } else {
        d += kk.now;
    }
    kk.block(Block::Sleep, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: ((us % 1_000_000) * 1000) as i64 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !simulated() {
        return raw3(SYS_sched_yield, 0, 0, 0) as c_int;
    }
    let _e = Enter::new();
    k().sched_point(SP_YIELD);
    0
}

// ------------------------------------------------------------------ randomness
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !simulated() {
        return cvt(raw3(SYS_getrandom, buf as i64, len as i64, flags as i64)) as ssize_t;
    }
    let _e = Enter::new();
    k().re.fill(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    getrandom(buf, len, 0);
    0
}

// ------------------------------------------------------------------ generic syscall()
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if simulated() {
        match n {
            SYS_futex => return cvt(do_futex(a as usize, b as i32, c as u32, d as usize, e as usize, f as u32)),
            SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
            SYS_clock_gettime => return clock_gettime(a as clockid_t, b as *mut timespec) as c_long,
            SYS_sched_yield => return sched_yield() as c_long,
            SYS_gettid => return 1000 + cur() as c_long,
            SYS_epoll_pwait2 => {
                let to = if d == 0 { None } else { Some(ns_of(d as *const timespec)) };
                return epoll_impl(a as c_int, b as *mut epoll_event, c as c_int, to) as c_long;
            }
            SYS_eventfd2 => return eventfd(a as c_uint, b as c_int) as c_long,
            SYS_read => return read(a as c_int, b as *mut c_void, c as usize) as c_long,
            SYS_write => return write(a as c_int, b as *const c_void, c as usize) as c_long,
            SYS_close => return close(a as c_int) as c_long,
            SYS_timerfd_create => return timerfd_create(a as clockid_t, b as c_int) as c_long,
            SYS_timerfd_settime => {
                return timerfd_settime(a as c_int, b as c_int, c as *const itimerspec, d as *mut itimerspec) as c_long
            }
            SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            _ => {}
        }
    }
    cvt(raw6(n, a, b, c, d, e, f))
}
unsafe fn do_futex(addr: usize, op: i32, val: u32, ts: usize, _addr2: usize, val3: u32) -> i64 {
    let _e = Enter::new();
    let kk = k();
    let cmd = op & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    match cmd {
        FUTEX_WAIT => {
            let d = if ts == 0 { None } else { Some(kk.now.saturating_add(ns_of(ts as *const timespec))) };
            kk.futex_wait(addr, val, u32::MAX, d) as i64
        }
        FUTEX_WAIT_BITSET => {
            let d = if ts == 0 {
                None
            } else {
                let t = ns_of(ts as *const timespec);
                Some(if op & FUTEX_CLOCK_REALTIME != 0 {
                    kk.now.saturating_add(t.saturating_sub(kk.realtime()))
                } else {
                    t.saturating_sub(1_000 * SEC)
                })
            };
            kk.futex_wait(addr, val, val3, d) as i64
        }
        FUTEX_WAKE => {
            let r = kk.futex_wake(addr, val as i32, u32::MAX);
            kk.sched_point(SP_WAKE);
            r as i64
        }
        FUTEX_WAKE_BITSET => {
            let r = kk.futex_wake(addr, val as i32, val3);
            kk.sched_point(SP_WAKE);
            r as i64
        }
        _ => {
            crate::sys::raw_write(2, b"hrsim: unsupported futex op\n");
            -(ENOSYS as i64)
        }
    }
}

// ------------------------------------------------------------------ threads
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if !simulated() {
        return real!(pthread_create: fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int)(
            out, attr, f, arg,
        );
    }
    let _e = Enter::new();
    let mut sz: size_t = 0;
    if !attr.is_null() {
        pthread_attr_getstacksize(attr, &mut sz);
    }
    let r = create_thread(out, sz, f, arg);
    k().sched_point(SP_WAKE);
    r
}
extern "C" {
    fn pthread_attr_getstacksize(attr: *const pthread_attr_t, sz: *mut size_t) -> c_int;
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    if simulated() {
        let _e = Enter::new();
        let kk = k();
        if let Some(id) = kk.threads.iter().rev().find(|x| x.pth == t).map(|x| x.id) {
            while kk.threads[id].state != TState::Dead {
                kk.block(Block::Join(id), None);
            }
            kk.threads[id].pth = 0;
        }
    }
    real!(pthread_join: fn(pthread_t, *mut *mut c_void) -> c_int)(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(t: pthread_t, name: *const c_char) -> c_int {
    if simulated() {
        let _e = Enter::new();
        let n = std::ffi::CStr::from_ptr(name).to_string_lossy().to_string();
        let c = cur();
        let kk = k();
        if kk.threads[c].pth == t {
            kk.threads[c].name = n;
        }
        return 0;
    }
    real!(pthread_setname_np: fn(pthread_t, *const c_char) -> c_int)(t, name)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, sz: size_t, set: *mut cpu_set_t) -> c_int {
    if !simulated() {
        // libc convention returns 0
        let r = raw3(SYS_sched_getaffinity, pid as i64, sz as i64, set as i64);
        return if r < 0 { err(-r as c_int) } else { 0 };
    }
    std::ptr::write_bytes(set as *mut u8, 0, sz);
    *(set as *mut u8) = 0b11;
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if simulated() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) {
        return 2;
    }
    real!(sysconf: fn(c_int) -> c_long)(name)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if simulated() {
        return 4242;
    }
    raw3(SYS_getpid, 0, 0, 0) as pid_t
}

// ------------------------------------------------------------------ signals
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, act: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if simulated() && matches!(sig, SIGTERM | SIGINT | SIGQUIT | SIGHUP | SIGUSR1 | SIGUSR2 | SIGCHLD) {
        let _e = Enter::new();
        if !old.is_null() {
            std::ptr::write_bytes(old as *mut u8, 0, std::mem::size_of::<libc::sigaction>());
        }
        if !act.is_null() {
            k().sig_handlers.insert(sig, (*act).sa_sigaction);
        }
        return 0;
    }
    real!(sigaction: fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(sig, act, old)
}

// ------------------------------------------------------------------ descriptors
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if v(fd) {
        let _e = Enter::new();
        let kk = k();
        if !kk.close_fd(fd) {
            return err(EBADF);
        }
        return 0;
    }
    cvt(raw3(SYS_close, fd as i64, 0, 0)) as c_int
}
unsafe fn do_read(fd: c_int, iov: &[(*mut u8, usize)], flags: c_int) -> ssize_t {
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let o = match kk.fds.get(&fd) {
        Some(o) => *o,
        None => return err(EBADF) as ssize_t,
    };
    let total: usize = iov.iter().map(|x| x.1).sum();
    loop {
        let nonblock = kk.objs[o].nonblock || flags & MSG_DONTWAIT != 0;
        let mut got: Option<Vec<u8>> = None;
        match &mut kk.objs[o].kind {
            ObjKind::Conn(c) => {
                let c = *c;
                let peek = flags & MSG_PEEK != 0;
                let cn = &mut kk.conns[c];
                if cn.conn_err > 0 {
                    let e = cn.conn_err;
                    return err(e) as ssize_t;
                }
                if cn.rx_rst {
                    return err(ECONNRESET) as ssize_t;
                }
                if !cn.rx.is_empty() && total > 0 {
                    let n = cn.rx.len().min(total);
                    if peek {
                        got = Some(cn.rx.iter().take(n).cloned().collect());
                    } else {
                        let full = cn.rx.len() + cn.rx_pending >= cn.rx_window;
                        got = Some(cn.rx.drain(..n).collect());
                        if full {
                            if let Some(t) = cn.wtask.take() {
                                kk.wake_task(t);
                            }
                        }
                    }
                } else if cn.rx_fin || cn.router_shut_rd || total == 0 {
                    return 0;
                }
            }
            ObjKind::EventFd { val, sema } => {
                if *val > 0 {
                    let x = if *sema { 1 } else { *val };
                    *val -= x;
                    got = Some(x.to_ne_bytes().to_vec());
                }
            }
            ObjKind::TimerFd { expirations, .. } => {
                if *expirations > 0 {
                    got = Some(expirations.to_ne_bytes().to_vec());
                    *expirations = 0;
                }
            }
            ObjKind::Pipe { buf, peer_closed, .. } => {
                if !buf.is_empty() {
                    let n = buf.len().min(total);
                    got = Some(buf.drain(..n).collect());
                } else if *peer_closed {
                    return 0;
                }
            }
            ObjKind::Inotify { queue, .. } => {
                let mut out: Vec<u8> = Vec::new();
                while let Some(e) = queue.front() {
                    if out.len() + e.len() > total {
                        break;
                    }
                    out.extend(queue.pop_front().unwrap());
                }
                if !out.is_empty() {
                    got = Some(out);
                }
            }
            ObjKind::File { path, pos, snap, .. } => {
                let path = path.clone();
                let pos0 = *pos as usize;
                let data = snap.clone();
                if let Some((n, e)) = kk.fs.read_err.get_mut(&path) {
                    if *n > 0 {
                        *n -= 1;
                        let e = *e;
                        kk.fault("disk-read-error");
                        return err(e) as ssize_t;
                    }
                }
                let d = match data {
                    Some(d) => d,
                    None => kk.fs.files.get(&path).map(|f| f.data.clone()).unwrap_or_default(),
                };
                let n = d.len().saturating_sub(pos0).min(total);
                let piece = d[pos0.min(d.len())..pos0.min(d.len()) + n].to_vec();
                if let ObjKind::File { pos, .. } = &mut kk.objs[o].kind {
                    *pos += n as u64;
                }
                if n == 0 {
                    return 0;
                }
                got = Some(piece);
            }
            _ => return err(EINVAL) as ssize_t,
        }
        if let Some(g) = got {
            let mut off = 0;
            for (p, l) in iov {
                if off >= g.len() {
                    break;
                }
                let n = (*l).min(g.len() - off);
                std::ptr::copy_nonoverlapping(g[off..].as_ptr(), *p, n);
                off += n;
            }
            kk.h(0xa000 ^ ((fd as u64) << 24) ^ off as u64);
            return off as ssize_t;
        }
        if nonblock {
            return err(EAGAIN) as ssize_t;
        }
        kk.block(Block::Fd(o as i32), None);
    }
}
unsafe fn do_write(fd: c_int, data: &[(*const u8, usize)], flags: c_int) -> ssize_t {
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let o = match kk.fds.get(&fd) {
        Some(o) => *o,
        None => return err(EBADF) as ssize_t,
    };
    let total: usize = data.iter().map(|x| x.1).sum();
    loop {
        let nonblock = kk.objs[o].nonblock || flags & MSG_DONTWAIT != 0;
        match &mut kk.objs[o].kind {
            ObjKind::Conn(c) => {
                let c = *c;
                let cn = &mut kk.conns[c];
                if cn.conn_err > 0 {
                    let e = cn.conn_err;
                    return err(e) as ssize_t;
                }
                if cn.rx_rst {
                    return err(ECONNRESET) as ssize_t;
                }
                if cn.router_shut_wr {
                    return err(EPIPE) as ssize_t;
                }
                if !cn.connected {
                    return err(EAGAIN) as ssize_t;
                }
                let used = cn.wx.len() + cn.wx_pending;
                let room = cn.tx_window.saturating_sub(used);
                if room > 0 || total == 0 {
                    let n = total.min(room);
                    let mut buf = Vec::with_capacity(n);
                    for (p, l) in data {
                        let take = (*l).min(n - buf.len());
                        buf.extend_from_slice(std::slice::from_raw_parts(*p, take));
                    }
                    if n < total {
                        cn.tx_blocked = true;
                        kk.fault("short-write");
                    }
                    kk.h(0xb000 ^ ((fd as u64) << 24) ^ n as u64);
                    if n > 0 {
                        kk.conn_to_world(c, 0, buf);
                    }
                    return n as ssize_t;
                }
                cn.tx_blocked = true;
            }
            ObjKind::EventFd { val, .. } => {
                let x = (data[0].0 as *const u64).read_unaligned();
                if *val <= u64::MAX - 1 - x {
                    *val += x;
                    kk.edge_in(o);
                    kk.sched_point(SP_WAKE);
                    return 8;
                }
            }
            ObjKind::Pipe { peer, .. } => {
                let peer = *peer;
                let mut buf = Vec::new();
                for (p, l) in data {
                    buf.extend_from_slice(std::slice::from_raw_parts(*p, *l));
                }
                let n = buf.len();
                if let ObjKind::Pipe { buf: b, .. } = &mut kk.objs[peer].kind {
                    b.extend(buf);
                    kk.edge_in(peer);
                    return n as ssize_t;
                }
                return err(EPIPE) as ssize_t;
            }
            ObjKind::File { path, pos, append, .. } => {
                let path = path.clone();
                let mut buf = Vec::new();
                for (p, l) in data {
                    buf.extend_from_slice(std::slice::from_raw_parts(*p, *l));
                }
                let at = if *append { usize::MAX } else { *pos as usize };
                *pos += buf.len() as u64;
                let n = buf.len();
                let rt = kk.realtime();
                if let Some(f) = kk.fs.files.get_mut(&path) {
                    let mut d = (*f.data).clone();
                    let at = at.min(d.len());
                    let end = (at + n).max(d.len());
                    d.resize(end, 0);
                    d[at..at + n].copy_from_slice(&buf);
                    f.data = std::sync::Arc::new(d);
                    f.mtime_ns = rt;
                }
                return n as ssize_t;
            }
            _ => return err(EINVAL) as ssize_t,
        }
        if nonblock {
            return err(EAGAIN) as ssize_t;
        }
        kk.block(Block::Fd(o as i32), None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if v(fd) {
        return do_read(fd, &[(buf as *mut u8, n)], 0);
    }
    cvt(raw3(SYS_read, fd as i64, buf as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if v(fd) {
        let old = {
            let kk = k();
            match kk.fds.get(&fd).map(|o| &mut kk.objs[*o].kind) {
                Some(ObjKind::File { pos, .. }) => {
                    let p = *pos;
                    *pos = off as u64;
                    p
                }
                _ => return err(EBADF) as ssize_t,
            }
        };
        let r = do_read(fd, &[(buf as *mut u8, n)], 0);
        let kk = k();
        if let Some(ObjKind::File { pos, .. }) = kk.fds.get(&fd).map(|o| &mut kk.objs[*o].kind) {
            *pos = old;
        }
        return r;
    }
    cvt(raw6(SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if v(fd) {
        let l: Vec<(*mut u8, usize)> =
            std::slice::from_raw_parts(iov, n as usize).iter().map(|x| (x.iov_base as *mut u8, x.iov_len)).collect();
        return do_read(fd, &l, 0);
    }
    cvt(raw3(SYS_readv, fd as i64, iov as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if v(fd) {
        return do_read(fd, &[(buf as *mut u8, n)], flags);
    }
    cvt(raw6(SYS_recvfrom, fd as i64, buf as i64, n as i64, flags as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if v(fd) {
        return do_read(fd, &[(buf as *mut u8, n)], flags);
    }
    cvt(raw6(SYS_recvfrom, fd as i64, buf as i64, n as i64, flags as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    if v(fd) {
        (*m).msg_flags = 0;
        (*m).msg_controllen = 0;
        let l: Vec<(*mut u8, usize)> = std::slice::from_raw_parts((*m).msg_iov, (*m).msg_iovlen)
            .iter()
            .map(|x| (x.iov_base as *mut u8, x.iov_len))
            .collect();
        return do_read(fd, &l, flags);
    }
    cvt(raw3(SYS_recvmsg, fd as i64, m as i64, flags as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if v(fd) {
        return do_write(fd, &[(buf as *const u8, n)], 0);
    }
    if (fd == 1 || fd == 2) && simulated() {
        return stdio(fd, std::slice::from_raw_parts(buf as *const u8, n));
    }
    cvt(raw3(SYS_write, fd as i64, buf as i64, n as i64)) as ssize_t
}
unsafe fn stdio(fd: c_int, b: &[u8]) -> ssize_t {
    let _e = Enter::new();
    let kk = k();
    if kk.stdio.len() < 4 << 20 {
        kk.stdio.extend_from_slice(b);
    }
    if kk.echo {
        crate::sys::raw_write(2, b);
    }
    let _ = fd;
    b.len() as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    let l: &[iovec] = std::slice::from_raw_parts(iov, n as usize);
    if v(fd) {
        let l: Vec<(*const u8, usize)> = l.iter().map(|x| (x.iov_base as *const u8, x.iov_len)).collect();
        return do_write(fd, &l, 0);
    }
    if (fd == 1 || fd == 2) && simulated() {
        let mut t = 0;
        for x in l {
            t += stdio(fd, std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return t;
    }
    cvt(raw3(SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if v(fd) {
        return do_write(fd, &[(buf as *const u8, n)], flags);
    }
    cvt(raw6(SYS_sendto, fd as i64, buf as i64, n as i64, flags as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if v(fd) {
        return do_write(fd, &[(buf as *const u8, n)], flags);
    }
    cvt(raw6(SYS_sendto, fd as i64, buf as i64, n as i64, flags as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    if v(fd) {
        let l: Vec<(*const u8, usize)> = std::slice::from_raw_parts((*m).msg_iov, (*m).msg_iovlen)
            .iter()
            .map(|x| (x.iov_base as *const u8, x.iov_len))
            .collect();
        return do_write(fd, &l, flags);
    }
    cvt(raw3(SYS_sendmsg, fd as i64, m as i64, flags as i64)) as ssize_t
}
unsafe fn do_dup(fd: c_int) -> c_int {
    let _e = Enter::new();
    let kk = k();
    match kk.fds.get(&fd).cloned() {
        Some(o) => kk.new_fd(o),
        None => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if v(fd) {
        return do_dup(fd);
    }
    cvt(raw3(SYS_dup, fd as i64, 0, 0)) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if v(fd) {
        match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => return do_dup(fd),
            F_GETFD => return FD_CLOEXEC,
            F_SETFD => return 0,
            F_GETFL => {
                let kk = k();
                return match kk.fds.get(&fd) {
                    Some(o) => O_RDWR | if kk.objs[*o].nonblock { O_NONBLOCK } else { 0 },
                    None => err(EBADF),
                };
            }
            F_SETFL => {
                let kk = k();
                if let Some(o) = kk.fds.get(&fd).cloned() {
                    kk.objs[o].nonblock = arg as c_int & O_NONBLOCK != 0;
                    return 0;
                }
                return err(EBADF);
            }
            _ => return 0,
        }
    }
    cvt(raw3(SYS_fcntl, fd as i64, cmd as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: i64) -> c_int {
    if v(fd) {
        if req == FIONBIO {
            let kk = k();
            if let Some(o) = kk.fds.get(&fd).cloned() {
                kk.objs[o].nonblock = *(arg as *const c_int) != 0;
            }
            return 0;
        }
        if req == FIONREAD {
            *(arg as *mut c_int) = 0;
            return 0;
        }
        if req == 0x5451 || req == 0x5450 {
            return 0; // FIOCLEX
        }
        return err(ENOTTY);
    }
    cvt(raw3(SYS_ioctl, fd as i64, req as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_eventfd2, init as i64, flags as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = kk.new_obj(ObjKind::EventFd { val: init as u64, sema: flags & EFD_SEMAPHORE != 0 });
    kk.objs[o].nonblock = flags & EFD_NONBLOCK != 0;
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(id: clockid_t, flags: c_int) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_timerfd_create, id as i64, flags as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = kk.new_obj(ObjKind::TimerFd { deadline: 0, interval: 0, expirations: 0, gen: 0 });
    kk.objs[o].nonblock = flags & TFD_NONBLOCK != 0;
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(fd: c_int, flags: c_int, new: *const itimerspec, old: *mut itimerspec) -> c_int {
    if !v(fd) {
        return cvt(raw6(SYS_timerfd_settime, fd as i64, flags as i64, new as i64, old as i64, 0, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = match kk.fds.get(&fd) {
        Some(o) => *o,
        None => return err(EBADF),
    };
    let val = ns_of(&(*new).it_value);
    let int = ns_of(&(*new).it_interval);
    let now = kk.now;
    let mut arm = None;
    if let ObjKind::TimerFd { deadline, interval, expirations, gen } = &mut kk.objs[o].kind {
        *gen += 1;
        *expirations = 0;
        *interval = int;
        if val == 0 {
            *deadline = 0;
        } else {
            *deadline = if flags & TFD_TIMER_ABSTIME != 0 { val.saturating_sub(1_000 * SEC) } else { now + val };
            arm = Some((*deadline, *gen));
        }
    }
    if let Some((d, g)) = arm {
        kk.at(d, Ev::TimerFd(o, g));
    }
    0
}
unsafe fn mk_pair(a: *mut c_int, nonblock: bool) -> c_int {
    let _e = Enter::new();
    let kk = k();
    let x = kk.new_obj(ObjKind::Pipe { peer: 0, buf: VecDeque::new(), peer_closed: false });
    let y = kk.new_obj(ObjKind::Pipe { peer: x, buf: VecDeque::new(), peer_closed: false });
    if let ObjKind::Pipe { peer, .. } = &mut kk.objs[x].kind {
        *peer = y;
    }
    kk.objs[x].nonblock = nonblock;
    kk.objs[y].nonblock = nonblock;
    *a = kk.new_fd(x);
    *a.add(1) = kk.new_fd(y);
    0
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    if !simulated() {
        return cvt(raw6(SYS_socketpair, d as i64, t as i64, p as i64, sv as i64, 0, 0)) as c_int;
    }
    mk_pair(sv, t & SOCK_NONBLOCK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_pipe2, p as i64, flags as i64, 0)) as c_int;
    }
    mk_pair(p, flags & O_NONBLOCK != 0)
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    pipe2(p, 0)
}

// ------------------------------------------------------------------ epoll / poll
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_epoll_create1, flags as i64, 0, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = kk.new_obj(ObjKind::Epoll(Epoll::default()));
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if !v(ep) {
        return cvt(raw6(SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let eo = match kk.fds.get(&ep) {
        Some(o) => *o,
        None => return err(EBADF),
    };
    let o = match kk.fds.get(&fd) {
        Some(o) => *o,
        None => return err(if fd >= VFD_BASE { EBADF } else { EPERM }),
    };
    let e = match &mut kk.objs[eo].kind {
        ObjKind::Epoll(e) => e,
        _ => return err(EINVAL),
    };
    match op {
        EPOLL_CTL_ADD => {
            if e.regs.contains_key(&fd) {
                return err(EEXIST);
            }
            e.regs.insert(fd, Reg { events: (*ev).events, data: (*ev).u64, rep_in: 0, rep_out: 0, armed: true, obj: o });
            if !kk.objs[o].watchers.contains(&eo) {
                kk.objs[o].watchers.push(eo);
            }
        }
        EPOLL_CTL_MOD => match e.regs.get_mut(&fd) {
            Some(r) => {
                r.events = (*ev).events;
                r.data = (*ev).u64;
                r.rep_in = 0;
                r.rep_out = 0;
                r.armed = true;
            }
            None => return err(ENOENT),
        },
        _ => {
            if e.regs.remove(&fd).is_none() {
                return err(ENOENT);
            }
            let still = e.regs.values().any(|r| r.obj == o);
            if !still {
                kk.objs[o].watchers.retain(|x| *x != eo);
            }
        }
    }
    if op != EPOLL_CTL_DEL {
        // wake a thread already waiting on this epoll instance
        for id in 0..kk.threads.len() {
            if kk.threads[id].state == TState::Blocked(Block::Epoll(eo as i32)) {
                kk.make_runnable(id);
            }
        }
    }
    0
}
unsafe fn epoll_impl(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: Option<u64>) -> c_int {
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let eo = match kk.fds.get(&ep) {
        Some(o) => *o,
        None => return err(EBADF),
    };
    let deadline = timeout.map(|t| kk.now.saturating_add(t));
    let mut out = Vec::new();
    loop {
        kk.epoll_collect(eo, max as usize, &mut out);
        if !out.is_empty() || timeout == Some(0) {
            break;
        }
        if let Some(d) = deadline {
            if d <= kk.now {
                break;
            }
        }
        kk.block(Block::Epoll(eo as i32), deadline);
    }
    for (i, (m, d)) in out.iter().enumerate() {
        *evs.add(i) = epoll_event { events: *m, u64: *d };
    }
    if out.is_empty() && timeout == Some(0) {
        kk.sched_point(SP_YIELD);
    }
    out.len() as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !v(ep) {
        return cvt(raw6(SYS_epoll_pwait, ep as i64, evs as i64, max as i64, timeout as i64, 0, 8)) as c_int;
    }
    epoll_impl(ep, evs, max, if timeout < 0 { None } else { Some(timeout as u64 * MS) })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int, _s: *const sigset_t) -> c_int {
    epoll_wait(ep, evs, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(ep: c_int, evs: *mut epoll_event, max: c_int, ts: *const timespec, _s: *const sigset_t) -> c_int {
    epoll_impl(ep, evs, max, if ts.is_null() { None } else { Some(ns_of(ts)) })
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let l = std::slice::from_raw_parts_mut(fds, n as usize);
    if !simulated() || !l.iter().any(|p| p.fd >= VFD_BASE) {
        return cvt(raw3(SYS_poll, fds as i64, n as i64, timeout as i64)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let deadline = if timeout < 0 { None } else { Some(kk.now + timeout as u64 * MS) };
    loop {
        let mut c = 0;
        let mut last = 0;
        for p in l.iter_mut() {
            p.revents = 0;
            if let Some(o) = kk.fds.get(&p.fd) {
                last = *o;
                p.revents = (kk.mask(*o) as i16) & (p.events | POLLERR | POLLHUP);
                if p.revents != 0 {
                    c += 1;
                }
            }
        }
        if c > 0 || deadline.map(|d| d <= kk.now).unwrap_or(false) {
            return c;
        }
        kk.block(Block::Fd(last as i32), deadline);
    }
}

// ------------------------------------------------------------------ sockets
unsafe fn rd_addr(a: *const sockaddr) -> Option<(u32, u16)> {
    if (*a).sa_family as c_int == AF_INET {
        let s = &*(a as *const sockaddr_in);
        Some((u32::from_be(s.sin_addr.s_addr), u16::from_be(s.sin_port)))
    } else if (*a).sa_family as c_int == AF_INET6 {
        let s = &*(a as *const sockaddr_in6);
        let b = s.sin6_addr.s6_addr;
        let ip = if b[..12] == [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff] {
            u32::from_be_bytes([b[12], b[13], b[14], b[15]])
        } else {
            0x7f000001
        };
        Some((ip, u16::from_be(s.sin6_port)))
    } else {
        None
    }
}
unsafe fn wr_addr(a: *mut sockaddr, l: *mut socklen_t, x: (u32, u16)) {
    if a.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_addr.s_addr = x.0.to_be();
    s.sin_port = x.1.to_be();
    let n = std::mem::size_of::<sockaddr_in>().min(*l as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as socklen_t;
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !simulated() || (d != AF_INET && d != AF_INET6) {
        return cvt(raw3(SYS_socket, d as i64, t as i64, p as i64)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = kk.new_obj(ObjKind::TcpNew { bound: (0, 0) });
    kk.objs[o].nonblock = t & SOCK_NONBLOCK != 0;
    kk.new_fd(o)
}
unsafe fn obj(fd: c_int) -> Option<usize> {
    k().fds.get(&fd).cloned()
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_bind, fd as i64, a as i64, l as i64)) as c_int;
    }
    let _e = Enter::new();
    let addr = rd_addr(a).unwrap();
    let kk = k();
    if kk.listeners.contains_key(&addr) {
        return err(EADDRINUSE);
    }
    if let Some(o) = obj(fd) {
        kk.objs[o].kind = ObjKind::TcpNew { bound: addr };
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_listen, fd as i64, n as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    if let Some(o) = obj(fd) {
        if let ObjKind::TcpNew { bound } = kk.objs[o].kind {
            kk.objs[o].kind = ObjKind::Listener { addr: bound, backlog: VecDeque::new() };
            kk.listeners.insert(bound, o);
            kk.log(|| format!("router listens on {}", bound.1));
        }
    }
    0
}
unsafe fn do_accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let o = match obj(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    loop {
        let c = match &mut kk.objs[o].kind {
            ObjKind::Listener { backlog, .. } => backlog.pop_front(),
            _ => return err(EINVAL),
        };
        if let Some(c) = c {
            let co = kk.conns[c].obj;
            kk.objs[co].nonblock = flags & SOCK_NONBLOCK != 0;
            let nfd = kk.new_fd(co);
            wr_addr(a, l, kk.conns[c].router_peer);
            kk.h(0xc000 ^ c as u64);
            kk.log(|| format!("router accepted conn {}", c));
            return nfd;
        }
        if kk.objs[o].nonblock {
            return err(EAGAIN);
        }
        kk.block(Block::Fd(o as i32), None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    if v(fd) {
        return do_accept(fd, a, l, flags);
    }
    cvt(raw6(SYS_accept4, fd as i64, a as i64, l as i64, flags as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_connect, fd as i64, a as i64, l as i64)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = match obj(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    let addr = rd_addr(a).unwrap();
    kk.next_port += 1;
    let local = (0x0a000001, kk.next_port);
    let c = kk.new_conn(local, addr);
    kk.conns[c].obj = o;
    kk.objs[o].kind = ObjKind::Conn(c);
    let lat = kk.rn.range(20_000, 400_000);
    let t = kk.now + lat;
    kk.at(t, Ev::Connect(c));
    kk.log(|| format!("router connects conn {} to {}:{}", c, std::net::Ipv4Addr::from(addr.0), addr.1));
    if kk.objs[o].nonblock {
        return err(EINPROGRESS);
    }
    loop {
        if kk.conns[c].connected {
            return 0;
        }
        if kk.conns[c].conn_err > 0 {
            return err(kk.conns[c].conn_err);
        }
        kk.block(Block::Fd(o as i32), None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_shutdown, fd as i64, how as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    if let Some(o) = obj(fd) {
        if let ObjKind::Conn(c) = kk.objs[o].kind {
            if !kk.conns[c].connected {
                return err(ENOTCONN);
            }
            if how != SHUT_RD && !kk.conns[c].router_shut_wr {
                kk.conns[c].router_shut_wr = true;
                kk.conn_to_world(c, 1, Vec::new());
            }
            if how != SHUT_WR {
                kk.conns[c].router_shut_rd = true;
                kk.edge_in(o);
            }
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, opt: c_int, val: *mut c_void, l: *mut socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw6(SYS_getsockopt, fd as i64, level as i64, opt as i64, val as i64, l as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    std::ptr::write_bytes(val as *mut u8, 0, *l as usize);
    if level == SOL_SOCKET && opt == SO_ERROR {
        if let Some(o) = obj(fd) {
            if let ObjKind::Conn(c) = kk.objs[o].kind {
                let cn = &mut kk.conns[c];
                let e = if cn.conn_err > 0 {
                    cn.conn_err
                } else if cn.rx_rst {
                    ECONNRESET
                } else {
                    0
                };
                *(val as *mut c_int) = e;
            }
        }
    } else if level == SOL_SOCKET && opt == SO_TYPE {
        *(val as *mut c_int) = SOCK_STREAM;
    } else if level == SOL_SOCKET && opt == SO_DOMAIN {
        *(val as *mut c_int) = AF_INET;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, opt: c_int, val: *const c_void, l: socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw6(SYS_setsockopt, fd as i64, level as i64, opt as i64, val as i64, l as i64, 0)) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_getsockname, fd as i64, a as i64, l as i64)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let x = match obj(fd).map(|o| &kk.objs[o].kind) {
        Some(ObjKind::Conn(c)) => kk.conns[*c].router_local,
        Some(ObjKind::Listener { addr, .. }) => *addr,
        Some(ObjKind::TcpNew { bound }) => *bound,
        _ => return err(ENOTSOCK),
    };
    wr_addr(a, l, x);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_getpeername, fd as i64, a as i64, l as i64)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    match obj(fd).map(|o| &kk.objs[o].kind) {
        Some(ObjKind::Conn(c)) => {
            wr_addr(a, l, kk.conns[*c].router_peer);
            0
        }
        _ => err(ENOTCONN),
    }
}
#[repr(C)]
struct AddrBlk {
    ai: addrinfo,
    sa: sockaddr_in,
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    if !simulated() {
        return real!(getaddrinfo: fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int)(node, service, hints, res);
    }
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    let name = if node.is_null() { String::new() } else { std::ffi::CStr::from_ptr(node).to_string_lossy().to_string() };
    let ip = if let Ok(ip) = name.parse::<std::net::Ipv4Addr>() {
        u32::from(ip)
    } else if name == "localhost" {
        0x7f000001
    } else if let Some(ip) = kk.dns.get(&name) {
        *ip
    } else {
        return EAI_NONAME;
    };
    let b = Box::leak(Box::new(AddrBlk { ai: std::mem::zeroed(), sa: std::mem::zeroed() }));
    b.sa.sin_family = AF_INET as u16;
    b.sa.sin_addr.s_addr = ip.to_be();
    b.ai.ai_family = AF_INET;
    b.ai.ai_socktype = if hints.is_null() { SOCK_STREAM } else { (*hints).ai_socktype };
    b.ai.ai_addrlen = std::mem::size_of::<sockaddr_in>() as u32;
    b.ai.ai_addr = &mut b.sa as *mut _ as *mut sockaddr;
    *res = &mut b.ai;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(a: *mut addrinfo) {
    if !simulated() {
        real!(freeaddrinfo: fn(*mut addrinfo) -> ())(a)
    }
}

// ------------------------------------------------------------------ file system (paths below /sim/ only)
unsafe fn spath(p: *const c_char) -> Option<String> {
    if p.is_null() || !simulated() {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    if s.starts_with(b"/sim/") || s == b"/sim" {
        let _e = Enter::new();
        let mut t = String::from_utf8_lossy(s).to_string();
        while t.len() > 4 && t.ends_with('/') {
            t.pop();
        }
        return Some(t.replace("/./", "/"));
    }
    None
}
unsafe fn do_open(path: String, flags: c_int) -> c_int {
    let _e = Enter::new();
    let kk = k();
    kk.sched_point(SP_IO);
    if let Some((n, e)) = kk.fs.open_err.get_mut(&path) {
        if *n > 0 {
            *n -= 1;
            let e = *e;
            kk.fault("disk-open-error");
            return err(e);
        }
    }
    let is_dir = kk.is_dir(&path);
    if is_dir {
        let o = kk.new_obj(ObjKind::Dir { path, names: Vec::new(), pos: 0 });
        return kk.new_fd(o);
    }
    if !kk.fs.files.contains_key(&path) {
        if flags & O_CREAT == 0 {
            return err(ENOENT);
        }
        kk.fs_write(&path, Vec::new());
    }
    if flags & O_TRUNC != 0 {
        kk.fs_write(&path, Vec::new());
    }
    let snap = kk.fs.files.get(&path).map(|f| f.data.clone());
    let write = flags & O_ACCMODE != O_RDONLY;
    let o = kk.new_obj(ObjKind::File { path, pos: 0, append: flags & O_APPEND != 0, write, snap: if write { None } else { snap } });
    kk.new_fd(o)
}
impl Kernel {
    pub fn is_dir(&self, path: &str) -> bool {
        let p = format!("{}/", path);
        path == "/sim" || self.fs.files.keys().any(|f| f.starts_with(&p))
    }
    /// Replace a file's contents (as by rename), updating mtime and notifying watchers.
    pub fn fs_write(&mut self, path: &str, data: Vec<u8>) {
        let t = self.realtime();
        self.fs_write_at(path, data, t);
    }
    pub fn fs_write_at(&mut self, path: &str, data: Vec<u8>, mtime_ns: u64) {
        self.fs.next_ino += 1;
        let ino = self.fs.next_ino;
        let existed = self.fs.files.contains_key(path);
        self.fs.files.insert(path.to_string(), MemFile { data: std::sync::Arc::new(data), mtime_ns, ino });
        let (dir, name) = path.rsplit_once('/').unwrap();
        let (dir, name) = (dir.to_string(), name.to_string());
        for o in 0..self.objs.len() {
            let mut hit = false;
            if let ObjKind::Inotify { watches, queue, .. } = &mut self.objs[o].kind {
                for (wd, p) in watches.iter() {
                    if *p == dir {
                        if !existed {
                            queue.push_back(ino_event(*wd, IN_CREATE, &name));
                        }
                        queue.push_back(ino_event(*wd, IN_MODIFY, &name));
                        queue.push_back(ino_event(*wd, IN_CLOSE_WRITE, &name));
                        hit = true;
                    } else if *p == path {
                        queue.push_back(ino_event(*wd, IN_MODIFY, ""));
                        queue.push_back(ino_event(*wd, IN_CLOSE_WRITE, ""));
                        hit = true;
                    }
                }
            }
            if hit {
                self.edge_in(o);
            }
        }
    }
    pub fn fs_remove(&mut self, path: &str) {
        self.fs.files.remove(path);
    }
}
fn ino_event(wd: i32, mask: u32, name: &str) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&wd.to_ne_bytes());
    v.extend_from_slice(&mask.to_ne_bytes());
    v.extend_from_slice(&0u32.to_ne_bytes());
    let mut n = name.as_bytes().to_vec();
    if !n.is_empty() {
        n.push(0);
        while n.len() % 16 != 0 {
            n.push(0);
        }
    }
    v.extend_from_slice(&(n.len() as u32).to_ne_bytes());
    v.extend(n);
    v
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(s) = spath(p) {
        return do_open(s, flags);
    }
    cvt(raw6(SYS_openat, AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(s) = spath(p) {
        return do_open(s, flags);
    }
    cvt(raw6(SYS_openat, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if v(fd) {
        let kk = k();
        let size = match obj(fd).map(|o| &kk.objs[o].kind) {
            Some(ObjKind::File { path, .. }) => kk.fs.files.get(path).map(|f| f.data.len()).unwrap_or(0) as i64,
            _ => return err(ESPIPE) as off64_t,
        };
        if let Some(ObjKind::File { pos, .. }) = obj(fd).map(|o| &mut kk.objs[o].kind) {
            *pos = match whence {
                SEEK_SET => off,
                SEEK_CUR => *pos as i64 + off,
                _ => size + off,
            } as u64;
            return *pos as off64_t;
        }
        return err(EBADF) as off64_t;
    }
    cvt(raw3(SYS_lseek, fd as i64, off, whence as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
unsafe fn fill_statx(kk: &Kernel, path: &str, st: *mut libc::statx) -> c_int {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*st).stx_mask = STATX_BASIC_STATS;
    (*st).stx_blksize = 4096;
    (*st).stx_nlink = 1;
    if let Some(f) = kk.fs.files.get(path) {
        (*st).stx_mode = (S_IFREG | 0o644) as u16;
        (*st).stx_size = f.data.len() as u64;
        (*st).stx_ino = f.ino;
        (*st).stx_mtime.tv_sec = (f.mtime_ns / SEC) as i64;
        (*st).stx_mtime.tv_nsec = (f.mtime_ns % SEC) as u32;
        (*st).stx_ctime = (*st).stx_mtime;
        (*st).stx_atime = (*st).stx_mtime;
        return 0;
    }
    if kk.is_dir(path) {
        (*st).stx_mode = (S_IFDIR | 0o755) as u16;
        (*st).stx_ino = 1;
        return 0;
    }
    err(ENOENT)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    if let Some(s) = spath(p) {
        let _e = Enter::new();
        let kk = k();
        kk.sched_point(SP_IO);
        return fill_statx(kk, &s, st);
    }
    if v(d) {
        let _e = Enter::new();
        let kk = k();
        let path = match obj(d).map(|o| &kk.objs[o].kind) {
            Some(ObjKind::File { path, .. }) => path.clone(),
            Some(ObjKind::Dir { path, .. }) => path.clone(),
            _ => return err(EBADF),
        };
        return fill_statx(kk, &path, st);
    }
    cvt(raw6(SYS_statx, d as i64, p as i64, flags as i64, mask as i64, st as i64, 0)) as c_int
}
unsafe fn fill_stat(path: &str, st: *mut stat64) -> c_int {
    let kk = k();
    let mut x: libc::statx = std::mem::zeroed();
    if fill_statx(kk, path, &mut x) != 0 {
        return -1;
    }
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    (*st).st_mode = x.stx_mode as u32;
    (*st).st_size = x.stx_size as i64;
    (*st).st_ino = x.stx_ino;
    (*st).st_mtime = x.stx_mtime.tv_sec;
    (*st).st_mtime_nsec = x.stx_mtime.tv_nsec as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(s) = spath(p) {
        let _e = Enter::new();
        return fill_stat(&s, st);
    }
    cvt(raw3(SYS_stat, p as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if let Some(s) = spath(p) {
        let _e = Enter::new();
        return fill_stat(&s, st);
    }
    cvt(raw3(SYS_lstat, p as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if v(fd) {
        let _e = Enter::new();
        let kk = k();
        let path = match obj(fd).map(|o| &kk.objs[o].kind) {
            Some(ObjKind::File { path, .. }) => path.clone(),
            _ => return err(EBADF),
        };
        return fill_stat(&path, st);
    }
    cvt(raw3(SYS_fstat, fd as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(s) = spath(p) {
        let kk = k();
        if !kk.fs.files.contains_key(&s) && !kk.is_dir(&s) {
            set_errno(ENOENT);
            return std::ptr::null_mut();
        }
        let buf = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
        *buf.add(s.len()) = 0;
        return buf;
    }
    real!(realpath: fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(s) = spath(p) {
        let kk = k();
        return if kk.fs.files.contains_key(&s) || kk.is_dir(&s) { 0 } else { err(ENOENT) };
    }
    cvt(raw3(SYS_access, p as i64, mode as i64, 0)) as c_int
}

// ------------------------------------------------------------------ inotify
#[no_mangle]
pub unsafe extern "C" fn inotify_init1(flags: c_int) -> c_int {
    if !simulated() {
        return cvt(raw3(SYS_inotify_init1, flags as i64, 0, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    let o = kk.new_obj(ObjKind::Inotify { watches: Default::default(), queue: VecDeque::new(), next_wd: 1 });
    kk.objs[o].nonblock = flags & IN_NONBLOCK != 0;
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn inotify_add_watch(fd: c_int, p: *const c_char, mask: u32) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_inotify_add_watch, fd as i64, p as i64, mask as i64)) as c_int;
    }
    let s = match spath(p) {
        Some(s) => s,
        None => return 1,
    };
    let _e = Enter::new();
    let kk = k();
    if !kk.fs.files.contains_key(&s) && !kk.is_dir(&s) {
        return err(ENOENT);
    }
    if let Some(o) = obj(fd) {
        if let ObjKind::Inotify { watches, next_wd, .. } = &mut kk.objs[o].kind {
            for (wd, p) in watches.iter() {
                if *p == s {
                    return *wd;
                }
            }
            let wd = *next_wd;
            *next_wd += 1;
            watches.insert(wd, s);
            return wd;
        }
    }
    err(EBADF)
}
#[no_mangle]
pub unsafe extern "C" fn inotify_rm_watch(fd: c_int, wd: c_int) -> c_int {
    if !v(fd) {
        return cvt(raw3(SYS_inotify_rm_watch, fd as i64, wd as i64, 0)) as c_int;
    }
    let _e = Enter::new();
    let kk = k();
    if let Some(o) = obj(fd) {
        if let ObjKind::Inotify { watches, queue, .. } = &mut kk.objs[o].kind {
            watches.remove(&wd);
            queue.push_back(ino_event(wd, IN_IGNORED, ""));
        }
    }
    0
}

// ------------------------------------------------------------------ symbol lookup and exit
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    macro_rules! ours {
        ($($x:ident),*) => { match n { $( x if x == stringify!($x).as_bytes() => return $x as *const () as *mut c_void, )* _ => {} } };
    }
    ours!(
        statx, getrandom, getentropy, epoll_wait, epoll_create1, epoll_ctl, epoll_pwait, epoll_pwait2, eventfd, timerfd_create,
        timerfd_settime, accept4, pipe2, clock_gettime, poll, read, write, close, nanosleep, clock_nanosleep, sched_getaffinity, sysconf,
        inotify_init1, pthread_setname_np, socketpair, open64, openat64, fcntl, fcntl64, recvmsg, sendmsg, realpath
    );
    // names std or crates probe for that glibc has but the simulator does not want them to find
    if n == b"__clock_gettime64" || n == b"__timerfd_settime64" {
        return std::ptr::null_mut();
    }
    let mut buf = [0u8; 128];
    buf[..n.len()].copy_from_slice(n);
    extern "C" {
        fn dlvsym(handle: *mut c_void, sym: *const c_char, ver: *const c_char) -> *mut c_void;
    }
    // the un-versioned lookup, through glibc's own entry point
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut p = REAL.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 {
        for ver in [&b"GLIBC_2.34\0"[..], b"GLIBC_2.2.5\0"] {
            let q = dlvsym(-1isize as *mut c_void, b"dlsym\0".as_ptr() as *const c_char, ver.as_ptr() as *const c_char);
            if !q.is_null() {
                p = q as usize;
                break;
            }
        }
        REAL.store(p, std::sync::atomic::Ordering::Relaxed);
    }
    let f: unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void = std::mem::transmute(p);
    f(h, name)
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if simulated() {
        let _e = Enter::new();
        let kk = k();
        kk.exited = Some(code as i64);
        kk.log(|| format!("process called exit({})", code));
        kk.do_finish(Finish::Done);
    }
    let f = real!(exit: fn(c_int) -> ());
    f(code);
    loop {}
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if simulated() {
        let _e = Enter::new();
        let kk = k();
        kk.exited = Some(134);
        kk.log(|| "process aborted".to_string());
        kk.panics.push("abort".into());
        kk.do_finish(Finish::Done);
    }
    crate::sys::exit_group(134)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const pthread_attr_t, sz: *mut size_t) -> c_int {
    if simulated() {
        *sz = 4096; // thread stacks are ours and sit between unmapped gaps
        return 0;
    }
    real!(pthread_attr_getguardsize: fn(*const pthread_attr_t, *mut size_t) -> c_int)(a, sz)
}
