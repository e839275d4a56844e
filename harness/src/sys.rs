//! libc entry points used by the library under test (through std, mio, nix, libloading).
//! The definitions here win over libc's at link time.  When the calling thread is inside a
//! simulated execution they are answered by the simulated kernel; otherwise they go to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::world::{self, World};
use libc::*;
use std::ffi::CStr;

#[inline]
unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}
#[inline]
unsafe fn ret(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
macro_rules! sys {
    ($n:expr $(, $a:expr)*) => { libc::syscall($n $(, $a)*) };
}
#[inline]
fn fake(fd: c_int) -> bool {
    fd >= world::FD_BASE
}
/// Runs `f` in the simulated kernel if this thread is in a simulated execution (and not already in it).
#[inline]
fn sim<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    world::enter(f)
}
fn active() -> bool {
    world::active()
}

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if d == AF_INET || d == AF_INET6 {
        if let Some(r) = sim(|w| w.socket(d, t)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_socket, d, t, p) as c_int
}
unsafe fn parse_addr(a: *const sockaddr, _l: socklen_t) -> Option<(String, u16)> {
    if a.is_null() {
        return None;
    }
    match (*a).sa_family as i32 {
        AF_INET => {
            let s = &*(a as *const sockaddr_in);
            let ip = std::net::Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr));
            Some((ip.to_string(), u16::from_be(s.sin_port)))
        }
        AF_INET6 => {
            let s = &*(a as *const sockaddr_in6);
            let ip = std::net::Ipv6Addr::from(s.sin6_addr.s6_addr);
            Some((ip.to_string(), u16::from_be(s.sin6_port)))
        }
        _ => None,
    }
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, ip: &str, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let ip: std::net::Ipv4Addr = ip.parse().unwrap_or(std::net::Ipv4Addr::new(10, 0, 0, 1));
    let s = sockaddr_in {
        sin_family: AF_INET as u16,
        sin_port: port.to_be(),
        sin_addr: in_addr { s_addr: u32::from(ip).to_be() },
        sin_zero: [0; 8],
    };
    let n = (*l as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fake(fd) {
        let addr = parse_addr(a, l);
        if let Some(r) = sim(|w| w.connect(fd, addr)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_connect, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fake(fd) {
        let addr = parse_addr(a, l);
        if let Some(r) = sim(|w| w.bind(fd, addr)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_bind, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.getsockname(fd)) {
            return match r {
                Ok((ip, port)) => {
                    put_addr(a, l, &ip, port);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    sys!(SYS_getsockname, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.getpeername(fd)) {
            return match r {
                Ok((ip, port)) => {
                    put_addr(a, l, &ip, port);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    sys!(SYS_getpeername, fd, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(
    fd: c_int,
    lvl: c_int,
    name: c_int,
    v: *const c_void,
    l: socklen_t,
) -> c_int {
    if fake(fd) {
        let val = std::slice::from_raw_parts(v as *const u8, l as usize).to_vec();
        if let Some(r) = sim(|w| w.setsockopt(fd, lvl, name, &val)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_setsockopt, fd, lvl, name, v, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(
    fd: c_int,
    lvl: c_int,
    name: c_int,
    v: *mut c_void,
    l: *mut socklen_t,
) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.getsockopt(fd, lvl, name)) {
            return match r {
                Ok(x) => {
                    let n = (*l as usize).min(x.len());
                    std::ptr::copy_nonoverlapping(x.as_ptr(), v as *mut u8, n);
                    *l = n as u32;
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    sys!(SYS_getsockopt, fd, lvl, name, v, l) as c_int
}
unsafe fn do_recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> Option<ssize_t> {
    let buf = std::slice::from_raw_parts_mut(b as *mut u8, n);
    let mut from = None;
    let r = sim(|w| w.recv(fd, buf, fl, &mut from))?;
    if let Some((ip, port)) = from {
        put_addr(a, l, &ip, port);
    }
    Some(ret(r) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    if fake(fd) {
        if let Some(r) = do_recv(fd, b, n, fl, std::ptr::null_mut(), std::ptr::null_mut()) {
            return r;
        }
    }
    sys!(SYS_recvfrom, fd, b, n, fl, 0usize, 0usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    b: *mut c_void,
    n: size_t,
    fl: c_int,
    a: *mut sockaddr,
    l: *mut socklen_t,
) -> ssize_t {
    if fake(fd) {
        if let Some(r) = do_recv(fd, b, n, fl, a, l) {
            return r;
        }
    }
    sys!(SYS_recvfrom, fd, b, n, fl, a, l) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
    if fake(fd) && active() {
        let mut tmp = vec![0u8; iov_len((*m).msg_iov, (*m).msg_iovlen)];
        let mut l = (*m).msg_namelen;
        if let Some(r) = do_recv(fd, tmp.as_mut_ptr() as *mut c_void, tmp.len(), fl, (*m).msg_name as *mut sockaddr, &mut l) {
            (*m).msg_namelen = l;
            if r > 0 {
                iov_scatter((*m).msg_iov, (*m).msg_iovlen, &tmp[..r as usize]);
            }
            return r;
        }
    }
    sys!(SYS_recvmsg, fd, m, fl) as ssize_t
}
unsafe fn iov_len(iov: *const iovec, c: usize) -> usize {
    (0..c).map(|i| (*iov.add(i)).iov_len).sum()
}
unsafe fn iov_scatter(iov: *const iovec, c: usize, d: &[u8]) {
    let mut off = 0;
    for i in 0..c {
        let v = &*iov.add(i);
        let n = v.iov_len.min(d.len() - off);
        std::ptr::copy_nonoverlapping(d[off..].as_ptr(), v.iov_base as *mut u8, n);
        off += n;
    }
}
unsafe fn iov_gather(iov: *const iovec, c: usize) -> Vec<u8> {
    let mut o = vec![];
    for i in 0..c {
        let v = &*iov.add(i);
        o.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    o
}
unsafe fn do_send(fd: c_int, d: &[u8], to: Option<(String, u16)>) -> Option<ssize_t> {
    sim(|w| w.send(fd, d, to)).map(|r| ret(r) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if fake(fd) {
        if let Some(r) = do_send(fd, std::slice::from_raw_parts(b as *const u8, n), None) {
            return r;
        }
    }
    sys!(SYS_sendto, fd, b, n, fl, 0usize, 0usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    b: *const c_void,
    n: size_t,
    fl: c_int,
    a: *const sockaddr,
    l: socklen_t,
) -> ssize_t {
    if fake(fd) {
        let to = parse_addr(a, l);
        if let Some(r) = do_send(fd, std::slice::from_raw_parts(b as *const u8, n), to) {
            return r;
        }
    }
    sys!(SYS_sendto, fd, b, n, fl, a, l) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
    if fake(fd) && active() {
        let d = iov_gather((*m).msg_iov, (*m).msg_iovlen);
        let to = parse_addr((*m).msg_name as *const sockaddr, (*m).msg_namelen);
        if let Some(r) = do_send(fd, &d, to) {
            return r;
        }
    }
    sys!(SYS_sendmsg, fd, m, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if fake(fd) {
        if let Some(r) = do_recv(fd, b, n, 0, std::ptr::null_mut(), std::ptr::null_mut()) {
            return r;
        }
    }
    sys!(SYS_read, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, c: c_int) -> ssize_t {
    if fake(fd) && active() {
        let mut tmp = vec![0u8; iov_len(iov, c as usize)];
        if let Some(r) = do_recv(fd, tmp.as_mut_ptr() as *mut c_void, tmp.len(), 0, std::ptr::null_mut(), std::ptr::null_mut()) {
            if r > 0 {
                iov_scatter(iov, c as usize, &tmp[..r as usize]);
            }
            return r;
        }
    }
    sys!(SYS_readv, fd, iov, c) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fake(fd) {
        if let Some(r) = do_send(fd, std::slice::from_raw_parts(b as *const u8, n), None) {
            return r;
        }
    }
    if (fd == 1 || fd == 2) && active() && !world::in_sim() {
        return n as ssize_t; // diagnostics of the library under test are not part of its results
    }
    sys!(SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, c: c_int) -> ssize_t {
    if fake(fd) && active() {
        let d = iov_gather(iov, c as usize);
        if let Some(r) = do_send(fd, &d, None) {
            return r;
        }
    }
    if (fd == 1 || fd == 2) && active() && !world::in_sim() {
        return iov_len(iov, c as usize) as ssize_t;
    }
    sys!(SYS_writev, fd, iov, c) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.close(fd)) {
            return ret(r) as c_int;
        }
        return 0;
    }
    sys!(SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if fake(fd) && active() {
        return 0;
    }
    sys!(SYS_shutdown, fd, how) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| {
            if req == FIONBIO as c_ulong {
                w.set_nonblock(fd, *(arg as *const c_int) != 0)
            } else if req == FIONREAD as c_ulong {
                w.avail(fd).map(|n| {
                    *(arg as *mut c_int) = n as c_int;
                    0
                })
            } else if req == FIOCLEX as c_ulong {
                Ok(0)
            } else {
                Err(ENOTTY)
            }
        }) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_ioctl, fd, req, arg) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| match cmd {
            F_GETFL => w.is_nonblock(fd).map(|b| (O_RDWR | if b { O_NONBLOCK } else { 0 }) as i64),
            F_SETFL => w.set_nonblock(fd, arg as c_int & O_NONBLOCK != 0),
            F_GETFD => w.is_nonblock(fd).map(|_| FD_CLOEXEC as i64),
            F_SETFD => Ok(0),
            F_DUPFD | F_DUPFD_CLOEXEC => w.dup(fd),
            _ => Err(EINVAL),
        }) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, to: c_int) -> c_int {
    if n > 0 && !p.is_null() && fake((*p).fd) {
        let fds = std::slice::from_raw_parts_mut(p, n as usize);
        if let Some(r) = sim(|w| w.poll(fds, to)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_poll, p, n, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut pollfd, n: nfds_t, to: *const timespec, ss: *const c_void) -> c_int {
    if n > 0 && !p.is_null() && fake((*p).fd) {
        let ms = if to.is_null() { -1 } else { ((*to).tv_sec * 1000 + ((*to).tv_nsec + 999_999) / 1_000_000) as c_int };
        return poll(p, n, ms);
    }
    sys!(SYS_ppoll, p, n, to, ss, 8) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if let Some(r) = sim(|w| w.epoll_create()) {
        return ret(r) as c_int;
    }
    sys!(SYS_epoll_create1, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if fake(ep) {
        let e = if ev.is_null() { None } else { Some(((*ev).events, (*ev).u64)) };
        if let Some(r) = sim(|w| w.epoll_ctl(ep, op, fd, e)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_epoll_ctl, ep, op, fd, ev) as c_int
}
unsafe fn do_epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, to_ns: Option<u64>) -> Option<c_int> {
    let r = sim(|w| w.epoll_wait(ep, max.max(0) as usize, to_ns))?;
    Some(match r {
        Ok(v) => {
            for (i, (e, d)) in v.iter().enumerate() {
                *evs.add(i) = epoll_event { events: *e, u64: *d };
            }
            v.len() as c_int
        }
        Err(e) => ret(Err(e)) as c_int,
    })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, to: c_int) -> c_int {
    if fake(ep) {
        let t = if to < 0 { None } else { Some(to as u64 * 1_000_000) };
        if let Some(r) = do_epoll_wait(ep, evs, max, t) {
            return r;
        }
    }
    sys!(SYS_epoll_wait, ep, evs, max, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut epoll_event, max: c_int, to: c_int, ss: *const sigset_t) -> c_int {
    if fake(ep) {
        let t = if to < 0 { None } else { Some(to as u64 * 1_000_000) };
        if let Some(r) = do_epoll_wait(ep, evs, max, t) {
            return r;
        }
    }
    sys!(SYS_epoll_pwait, ep, evs, max, to, ss, 8) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if let Some(ns) = sim(|w| w.clock(c)) {
        (*t).tv_sec = (ns / 1_000_000_000) as time_t;
        (*t).tv_nsec = (ns % 1_000_000_000) as c_long;
        return 0;
    }
    sys!(SYS_clock_gettime, c, t) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, rem: *mut timespec) -> c_int {
    if sim(|w| w.sleep((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64)).is_some() {
        return 0;
    }
    sys!(SYS_nanosleep, r, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, r: *const timespec, rem: *mut timespec) -> c_int {
    if active() && !world::in_sim() {
        let t = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
        sim(|w| {
            let d = if fl & TIMER_ABSTIME != 0 { t.saturating_sub(w.k.now) } else { t };
            w.sleep(d)
        });
        return 0;
    }
    if sys!(SYS_clock_nanosleep, c, fl, r, rem) == 0 {
        0
    } else {
        *__errno_location()
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim(|w| w.yielded()).is_some() {
        return 0;
    }
    sys!(SYS_sched_yield) as c_int
}
// ---- name resolution -------------------------------------------------------------------------
#[repr(C)]
struct Ai {
    ai: addrinfo,
    sa: sockaddr_in,
}
unsafe fn next_sym(name: &CStr) -> *mut c_void {
    extern "C" {
        fn dlvsym(h: *mut c_void, n: *const c_char, v: *const c_char) -> *mut c_void;
    }
    for v in [c"GLIBC_2.34", c"GLIBC_2.2.5", c"GLIBC_2.33", c"GLIBC_2.28"] {
        let p = dlvsym(RTLD_NEXT, name.as_ptr(), v.as_ptr());
        if !p.is_null() {
            return p;
        }
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    svc: *const c_char,
    hints: *const addrinfo,
    res: *mut *mut addrinfo,
) -> c_int {
    if active() && !world::in_sim() {
        let host = if node.is_null() { String::new() } else { CStr::from_ptr(node).to_string_lossy().into_owned() };
        let r = sim(|w| w.resolve(&host));
        return match r {
            Some(Ok(ips)) => {
                // one block per entry, tagged so that freeaddrinfo below can tell them apart
                let mut head: *mut addrinfo = std::ptr::null_mut();
                for ip in ips.iter().rev() {
                    let b = Box::into_raw(Box::new(Ai {
                        ai: addrinfo {
                            ai_flags: 0x5a5a,
                            ai_family: AF_INET,
                            ai_socktype: SOCK_STREAM,
                            ai_protocol: 0,
                            ai_addrlen: std::mem::size_of::<sockaddr_in>() as u32,
                            ai_addr: std::ptr::null_mut(),
                            ai_canonname: std::ptr::null_mut(),
                            ai_next: head,
                        },
                        sa: sockaddr_in {
                            sin_family: AF_INET as u16,
                            sin_port: 0,
                            sin_addr: in_addr { s_addr: u32::from(*ip).to_be() },
                            sin_zero: [0; 8],
                        },
                    }));
                    (*b).ai.ai_addr = &mut (*b).sa as *mut _ as *mut sockaddr;
                    head = &mut (*b).ai;
                }
                *res = head;
                0
            }
            Some(Err(e)) => e,
            None => EAI_FAIL,
        };
    }
    type F = unsafe extern "C" fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int;
    let p = next_sym(c"getaddrinfo");
    if p.is_null() {
        return EAI_FAIL;
    }
    std::mem::transmute::<*mut c_void, F>(p)(node, svc, hints, res)
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut r: *mut addrinfo) {
    if !r.is_null() && (*r).ai_flags == 0x5a5a {
        while !r.is_null() {
            let n = (*r).ai_next;
            drop(Box::from_raw(r as *mut Ai));
            r = n;
        }
        return;
    }
    type F = unsafe extern "C" fn(*mut addrinfo);
    let p = next_sym(c"freeaddrinfo");
    if !p.is_null() {
        std::mem::transmute::<*mut c_void, F>(p)(r)
    }
}
// ---- scheduling and memory (never let the code under test change this machine) -----------------
#[no_mangle]
pub unsafe extern "C" fn sched_get_priority_max(p: c_int) -> c_int {
    if let Some(r) = sim(|w| w.rt_call("prio_max", &[p as i64])) {
        return ret(r) as c_int;
    }
    sys!(SYS_sched_get_priority_max, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_get_priority_min(p: c_int) -> c_int {
    sys!(SYS_sched_get_priority_min, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setschedparam(_t: pthread_t, pol: c_int, prm: *const sched_param) -> c_int {
    match sim(|w| w.rt_call("setsched", &[pol as i64, (*prm).sched_priority as i64])) {
        Some(Ok(_)) => 0,
        Some(Err(e)) => e,
        None => EPERM,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_setscheduler(_pid: pid_t, pol: c_int, prm: *const sched_param) -> c_int {
    match sim(|w| w.rt_call("setsched", &[pol as i64, (*prm).sched_priority as i64])) {
        Some(r) => ret(r) as c_int,
        None => ret(Err(EPERM)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mlockall(fl: c_int) -> c_int {
    match sim(|w| w.rt_call("mlockall", &[fl as i64])) {
        Some(r) => ret(r) as c_int,
        None => ret(Err(EPERM)) as c_int,
    }
}
// ---- files -------------------------------------------------------------------------------------
unsafe fn path_of(p: *const c_char) -> String {
    if p.is_null() {
        String::new()
    } else {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    }
}
fn watched(p: &str) -> bool {
    active() && !world::in_sim() && !["/sys/kernel", "/tmp"].contains(&p.trim_end_matches('/')) && (p.starts_with("/sys/kernel") || p.starts_with("/tmp") || p.starts_with("/etc/modeltest"))
}
unsafe fn do_open(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        if let Some(r) = sim(|w| w.fs_open(&path, fl)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_openat, AT_FDCWD, p, fl, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    do_open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    do_open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        return do_open(p, fl, mode);
    }
    sys!(SYS_openat, d, p, fl, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        if let Some(r) = sim(|w| w.fs_unlink(&path)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = (path_of(a), path_of(b));
    if watched(&pa) || watched(&pb) {
        if let Some(r) = sim(|w| w.fs_rename(&pa, &pb)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fake(fd) && active() {
        return 0;
    }
    sys!(SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if fake(fd) && active() {
        if let Some(r) = sim(|w| w.fs_seek(fd, o, wh)) {
            return ret(r);
        }
        return ret(Err(ESPIPE));
    }
    sys!(SYS_lseek, fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, wh: c_int) -> i64 {
    lseek64(fd, o, wh)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fake(fd) && active() {
        return 0;
    }
    sys!(SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.fs_truncate(fd, n)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_ftruncate, fd, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if fake(fd) && active() {
        return 0;
    }
    sys!(SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        if let Some(r) = sim(|w| w.fs_stat(&path).map(|_| 0)) {
            return ret(r) as c_int;
        }
    }
    sys!(SYS_chmod, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if fl == 0 {
        let path = path_of(p);
        if watched(&path) {
            if let Some(r) = sim(|w| w.fs_unlink(&path)) {
                return ret(r) as c_int;
            }
        }
    }
    sys!(SYS_unlinkat, d, p, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat) -> c_int {
    if fake(fd) {
        if let Some(r) = sim(|w| w.fs_fstat(fd)) {
            return match r {
                Ok(sz) => {
                    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat>());
                    (*st).st_mode = S_IFREG | 0o644;
                    (*st).st_size = sz;
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    sys!(SYS_fstat, fd, st) as c_int
}
unsafe fn fill_stat(st: *mut stat, size: i64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat>());
    (*st).st_mode = S_IFREG | 0o644;
    (*st).st_size = size;
}
unsafe fn do_stat(p: *const c_char, st: *mut stat, nr: c_long) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        if let Some(r) = sim(|w| w.fs_stat(&path)) {
            return match r {
                Ok(sz) => {
                    fill_stat(st, sz);
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    sys!(nr, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat) -> c_int {
    do_stat(p, st, SYS_stat)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat) -> c_int {
    do_stat(p, st, SYS_lstat)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let path = path_of(p);
    if watched(&path) {
        if let Some(r) = sim(|w| w.fs_stat(&path)) {
            return match r {
                Ok(sz) => {
                    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*buf).stx_mask = STATX_BASIC_STATS;
                    (*buf).stx_mode = (S_IFREG | 0o644) as u16;
                    (*buf).stx_size = sz as u64;
                    0
                }
                Err(e) => ret(Err(e)) as c_int,
            };
        }
    }
    if fake(d) && active() {
        std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*buf).stx_mask = STATX_BASIC_STATS;
        (*buf).stx_mode = (S_IFREG | 0o644) as u16;
        if let Some(Ok(sz)) = sim(|w| w.fs_fstat(d)) {
            (*buf).stx_size = sz as u64;
        }
        return 0;
    }
    sys!(SYS_statx, d, p, fl, mask, buf) as c_int
}
unsafe fn do_access(p: *const c_char) -> Option<c_int> {
    let path = path_of(p);
    if watched(&path) {
        return sim(|w| w.fs_stat(&path).map(|_| 0)).map(|r| ret(r) as c_int);
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    do_access(p).unwrap_or_else(|| sys!(SYS_access, p, m) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, _fl: c_int) -> c_int {
    do_access(p).unwrap_or_else(|| sys!(SYS_faccessat, d, p, m) as c_int)
}
// ---- dynamic loading ----------------------------------------------------------------------------
unsafe fn real_dl(name: &CStr) -> *mut c_void {
    next_sym(name)
}
#[no_mangle]
pub unsafe extern "C" fn dlopen(p: *const c_char, fl: c_int) -> *mut c_void {
    if active() && !world::in_sim() {
        let path = if p.is_null() { None } else { Some(path_of(p)) };
        if let Some(h) = sim(|w| w.dl_open(path.as_deref(), fl)) {
            return h as *mut c_void;
        }
    }
    type F = unsafe extern "C" fn(*const c_char, c_int) -> *mut c_void;
    let f = real_dl(c"dlopen");
    if f.is_null() {
        return f;
    }
    std::mem::transmute::<*mut c_void, F>(f)(p, fl)
}
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void {
    if active() && !world::in_sim() && world::is_fake_handle(h as usize) {
        let name = path_of(n);
        if let Some(r) = sim(|w| w.dl_sym(h as usize, &name)) {
            return r as *mut c_void;
        }
    }
    type F = unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void;
    let f = real_dl(c"dlsym");
    if f.is_null() {
        return f;
    }
    std::mem::transmute::<*mut c_void, F>(f)(h, n)
}
#[no_mangle]
pub unsafe extern "C" fn dlclose(h: *mut c_void) -> c_int {
    if world::is_fake_handle(h as usize) {
        sim(|w| w.dl_close(h as usize));
        return 0;
    }
    type F = unsafe extern "C" fn(*mut c_void) -> c_int;
    let f = real_dl(c"dlclose");
    if f.is_null() {
        return 0;
    }
    std::mem::transmute::<*mut c_void, F>(f)(h)
}
#[no_mangle]
pub unsafe extern "C" fn dlerror() -> *mut c_char {
    if active() && !world::in_sim() {
        if let Some(p) = sim(|w| w.dl_error()) {
            return p as *mut c_char;
        }
    }
    type F = unsafe extern "C" fn() -> *mut c_char;
    let f = real_dl(c"dlerror");
    if f.is_null() {
        return std::ptr::null_mut();
    }
    std::mem::transmute::<*mut c_void, F>(f)()
}
