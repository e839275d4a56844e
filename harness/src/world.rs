//! The simulated kernel: sockets (blocking TCP, UDP), edge/level triggered epoll, virtual clock,
//! virtual files, scheduling calls and dynamic loading, all driven by an environment model (`Env`)
//! and by the choice sequence of the execution being explored (`Chooser`).
use libc::*;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::net::Ipv4Addr;

pub const FD_BASE: i32 = 1_000_000;
pub const SERVER_IP: &str = "10.0.0.1";
pub const SERVER_UDP_PORT: u16 = 20101;
pub const CLIENT_UDP_PORT: u16 = 41234;
pub const MS: u64 = 1_000_000;

// ------------------------------------------------------------------------------------ choices
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point {
    pub n: u16,
    pub dev: bool,
}
#[derive(Default)]
pub struct Chooser {
    pub script: Vec<u16>,
    pub points: Vec<Point>,
    pub choices: Vec<u16>,
    pub diverged: bool,
}
impl Chooser {
    fn raw(&mut self, n: usize, dev: bool) -> usize {
        assert!(n >= 1 && n < 65536);
        if n == 1 {
            return 0;
        }
        let i = self.choices.len();
        let c = if i < self.script.len() { self.script[i] as usize } else { 0 };
        // a script that does not fit was recorded when the library behaved differently; the
        // explorer notices that the script was not followed
        let c = if c >= n { 0 } else { c };
        self.choices.push(c as u16);
        self.points.push(Point { n: n as u16, dev });
        c
    }
    /// A parameter of the execution: all values are explored, no deviation cost.
    pub fn pick(&mut self, n: usize) -> usize {
        self.raw(n, false)
    }
    /// A deviation from the default environment answer 0.
    pub fn dev(&mut self, n: usize) -> usize {
        self.raw(n, true)
    }
}

// ------------------------------------------------------------------------------------ objects
pub type Addr = (String, u16);
#[derive(Default)]
pub struct Tcp {
    pub nonblock: bool,
    pub connected: bool,
    pub rx: VecDeque<u8>,
    pub fin: bool,
    pub err: Option<i32>,
    pub dead: bool,
    pub opts: Vec<(i32, i32, Vec<u8>)>,
    pub rcvtimeo: Option<u64>,
    pub peer: Option<Addr>,
}
#[derive(Default)]
pub struct Udp {
    pub nonblock: bool,
    pub port: u16,
    pub rx: VecDeque<Vec<u8>>,
    pub err: Option<i32>,
    pub rcvtimeo: Option<u64>,
    pub peer: Option<Addr>,
}
#[derive(Clone)]
pub struct EpEntry {
    pub obj: usize,
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    pub edge: bool,
}
pub struct FileObj {
    pub path: String,
    pub pos: usize,
    pub writable: bool,
}
pub enum Obj {
    Tcp(Tcp),
    Udp(Udp),
    Ep(Vec<EpEntry>),
    File(FileObj),
    Closed,
}
/// What the client is blocked on.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    Tcp,
    Udp,
    Both,
    Sleep,
}
pub enum Blk {
    Progress,
    Timeout,
    Eintr,
}
/// The system call about to be executed (for fault injection and early deliveries).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    SocketTcp,
    SocketUdp,
    Connect,
    Bind,
    GetSockName,
    SetSockOpt,
    TcpRecv,
    UdpRecv,
    TcpSend,
    UdpSend,
    EpollCreate,
    EpollCtl,
    EpollWait,
    FileOpen,
    FileWrite,
    FileRead,
    FileUnlink,
    DlOpen,
    DlSym,
    RtCall,
}
pub trait Env {
    /// Before a call is executed: return Some(errno) to make it fail.  May deliver things.
    fn before(&mut self, _k: &mut Kernel, _c: Call) -> Option<i32> {
        None
    }
    fn resolve(&mut self, _k: &mut Kernel, _h: &str) -> Result<Vec<Ipv4Addr>, i32> {
        Ok(vec![Ipv4Addr::new(10, 0, 0, 1)])
    }
    fn on_connect(&mut self, _k: &mut Kernel, _a: &Addr) -> Result<(), i32> {
        Ok(())
    }
    fn on_tcp_send(&mut self, k: &mut Kernel, d: &[u8]) -> Result<usize, i32>;
    fn on_udp_send(&mut self, k: &mut Kernel, d: &[u8], to: Option<Addr>) -> Result<usize, i32>;
    fn on_block(&mut self, k: &mut Kernel, w: Wait, deadline: Option<u64>) -> Blk;
    fn on_close(&mut self, _k: &mut Kernel, _tcp: bool) {}
    /// A datagram was taken out of the receive queue by the client.
    fn on_udp_recv(&mut self, _k: &mut Kernel, _d: &[u8], _cap: usize) {}
    fn file_write_len(&mut self, _k: &mut Kernel, len: usize) -> Result<usize, i32> {
        Ok(len)
    }
    fn rt_call(&mut self, _k: &mut Kernel, _name: &'static str, _a: &[i64]) -> Result<i64, i32> {
        Err(EPERM)
    }
    fn dl_sym_missing(&mut self, _k: &mut Kernel, _n: &str) -> bool {
        false
    }
}
pub struct Kernel {
    pub ch: Chooser,
    pub now: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_now: u64,
    pub objs: Vec<Obj>,
    pub refs: Vec<u32>,
    pub fds: Vec<Option<usize>>,
    pub tcp: Option<usize>,
    pub udp: Option<usize>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub rt_log: Vec<(&'static str, Vec<i64>, bool)>,
    pub dl_handles: Vec<String>,
    pub dl_open_count: i64,
    /// path and content of every library that was opened
    pub dl_images: Vec<(String, Vec<u8>)>,
    pub dl_err: bool,
    pub dl_math_global: bool,
    /// the model library has unresolvable references / references to libm without naming it
    pub dl_unresolved: bool,
    pub dl_needs_math: bool,
    pub spin: u64,
    /// port given to a UDP socket that asks for any
    pub next_port: u16,
}
pub struct World {
    pub k: Kernel,
    pub env: Option<Box<dyn Env>>,
}
thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}
#[inline]
pub fn active() -> bool {
    !WORLD.get().is_null()
}
#[inline]
pub fn in_sim() -> bool {
    IN_SIM.get()
}
#[inline]
pub fn enter<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let p = WORLD.get();
    if p.is_null() || IN_SIM.get() {
        return None;
    }
    IN_SIM.set(true);
    let r = f(unsafe { &mut *p });
    IN_SIM.set(false);
    Some(r)
}
/// Access to the world from scenario code on the same thread (not from inside the kernel).
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    match enter(f) {
        Some(r) => r,
        None => crate::explore::fatal("world access outside an execution"),
    }
}
pub fn install(w: Box<World>) {
    WORLD.set(Box::into_raw(w));
}
pub fn uninstall() -> Box<World> {
    let p = WORLD.get();
    WORLD.set(std::ptr::null_mut());
    unsafe { Box::from_raw(p) }
}
pub fn suspend() -> *mut World {
    WORLD.replace(std::ptr::null_mut())
}
pub fn resume(p: *mut World) {
    WORLD.set(p)
}
const DL_BASE: usize = 0x7abc_0000;
pub fn is_fake_handle(h: usize) -> bool {
    (DL_BASE..DL_BASE + 4096).contains(&h)
}
static DLERR: &[u8] = b"simulated: no such library or symbol\0";

impl Kernel {
    pub fn new(script: Vec<u16>) -> Kernel {
        Kernel {
            ch: Chooser { script, ..Default::default() },
            now: 1_000 * MS,
            steps: 0,
            max_steps: 2_000_000,
            max_now: 1_000 * MS + 300_000 * MS,
            objs: vec![],
            refs: vec![],
            fds: vec![],
            tcp: None,
            udp: None,
            files: BTreeMap::new(),
            rt_log: vec![],
            dl_handles: vec![],
            dl_open_count: 0,
            dl_images: vec![],
            dl_err: false,
            dl_math_global: false,
            dl_unresolved: false,
            dl_needs_math: true,
            spin: 0,
            next_port: CLIENT_UDP_PORT,
        }
    }
    fn step(&mut self) {
        self.steps += 1;
        self.now += 1000;
        if self.steps > self.max_steps || self.now > self.max_now {
            let why = format!(
                "no result after {} system calls and {} ms of simulated time (hang)",
                self.steps,
                (self.now - 1_000 * MS) / MS
            );
            crate::explore::report_hang(&why, &self.ch.choices);
        }
    }
    pub fn ms(&self) -> u64 {
        (self.now - 1_000 * MS) / MS
    }
    fn new_obj(&mut self, o: Obj) -> i64 {
        self.objs.push(o);
        self.refs.push(1);
        self.fds.push(Some(self.objs.len() - 1));
        (FD_BASE as usize + self.fds.len() - 1) as i64
    }
    fn id(&self, fd: i32) -> Result<usize, i32> {
        self.fds.get((fd - FD_BASE) as usize).copied().flatten().ok_or(EBADF)
    }
    fn edge(&mut self, obj: usize) {
        for o in self.objs.iter_mut() {
            if let Obj::Ep(v) = o {
                for e in v.iter_mut() {
                    if e.obj == obj {
                        e.edge = true;
                    }
                }
            }
        }
    }
    pub fn tcp_mut(&mut self) -> Option<&mut Tcp> {
        match self.tcp.map(|i| &mut self.objs[i]) {
            Some(Obj::Tcp(t)) => Some(t),
            _ => None,
        }
    }
    pub fn udp_mut(&mut self) -> Option<&mut Udp> {
        match self.udp.map(|i| &mut self.objs[i]) {
            Some(Obj::Udp(t)) => Some(t),
            _ => None,
        }
    }
    /// Delivers one TCP segment to the client's receive queue.
    pub fn deliver_tcp(&mut self, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        if let Some(t) = self.tcp_mut() {
            if t.dead || t.fin {
                return;
            }
            t.rx.extend(d);
            let i = self.tcp.unwrap();
            self.edge(i);
        }
    }
    pub fn deliver_fin(&mut self) {
        if let Some(t) = self.tcp_mut() {
            t.fin = true;
            let i = self.tcp.unwrap();
            self.edge(i);
        }
    }
    pub fn deliver_rst(&mut self, errno: i32) {
        if let Some(t) = self.tcp_mut() {
            // data that arrived before the reset stays readable (tcp_reset keeps the receive queue)
            t.dead = true;
            t.err = Some(errno);
            let i = self.tcp.unwrap();
            self.edge(i);
        }
    }
    pub fn deliver_udp(&mut self, d: Vec<u8>) {
        if let Some(u) = self.udp_mut() {
            if u.rx.len() >= 160 {
                return; // receive buffer full: the kernel drops the datagram
            }
            u.rx.push_back(d);
            let i = self.udp.unwrap();
            self.edge(i);
        }
    }
    /// An asynchronous error on the UDP socket (e.g. ICMP port unreachable).
    pub fn deliver_udp_err(&mut self, e: i32) {
        if let Some(u) = self.udp_mut() {
            u.err = Some(e);
            let i = self.udp.unwrap();
            self.edge(i);
        }
    }
    pub fn udp_waiting(&mut self) -> usize {
        self.udp_mut().map(|u| u.rx.len()).unwrap_or(0)
    }
    fn ready(&self, obj: usize) -> u32 {
        match &self.objs[obj] {
            Obj::Tcp(t) => {
                let mut m = 0;
                if !t.rx.is_empty() {
                    m |= EPOLLIN;
                }
                if t.fin || t.dead {
                    m |= EPOLLIN | EPOLLRDHUP;
                }
                if t.err.is_some() {
                    m |= EPOLLERR;
                }
                if t.dead {
                    m |= EPOLLHUP;
                }
                if t.connected {
                    m |= EPOLLOUT;
                }
                m as u32
            }
            Obj::Udp(u) => {
                let mut m = EPOLLOUT;
                if !u.rx.is_empty() {
                    m |= EPOLLIN;
                }
                if u.err.is_some() {
                    m |= EPOLLERR;
                }
                m as u32
            }
            _ => 0,
        }
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|x| x.is_some()).count()
    }
}
impl World {
    pub fn new(script: Vec<u16>) -> Box<World> {
        Box::new(World { k: Kernel::new(script), env: None })
    }
    fn with_env<R>(&mut self, f: impl FnOnce(&mut dyn Env, &mut Kernel) -> R) -> Option<R> {
        let mut e = self.env.take()?;
        let r = f(&mut *e, &mut self.k);
        self.env = Some(e);
        Some(r)
    }
    fn before(&mut self, c: Call) -> Result<(), i32> {
        self.k.step();
        match self.with_env(|e, k| e.before(k, c)).flatten() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    fn block(&mut self, w: Wait, deadline: Option<u64>) -> Blk {
        self.k.step();
        self.k.spin = 0;
        self.with_env(|e, k| e.on_block(k, w, deadline)).unwrap_or(Blk::Timeout)
    }
    pub fn clock(&mut self, c: clockid_t) -> u64 {
        self.k.now += 100;
        if c == CLOCK_REALTIME {
            1_700_000_000_000_000_000 + self.k.now
        } else {
            self.k.now
        }
    }
    pub fn sleep(&mut self, ns: u64) {
        let dl = self.k.now + ns;
        while self.k.now < dl {
            match self.block(Wait::Sleep, Some(dl)) {
                Blk::Progress => {}
                _ => self.k.now = dl,
            }
        }
    }
    pub fn yielded(&mut self) {
        self.k.step();
    }
    pub fn socket(&mut self, _d: i32, t: i32) -> Result<i64, i32> {
        let nb = t & SOCK_NONBLOCK != 0;
        let ty = t & 0xf;
        if ty == SOCK_STREAM {
            self.before(Call::SocketTcp)?;
            let fd = self.k.new_obj(Obj::Tcp(Tcp { nonblock: nb, ..Default::default() }));
            self.k.tcp = Some(self.k.objs.len() - 1);
            Ok(fd)
        } else if ty == SOCK_DGRAM {
            self.before(Call::SocketUdp)?;
            let fd = self.k.new_obj(Obj::Udp(Udp { nonblock: nb, ..Default::default() }));
            self.k.udp = Some(self.k.objs.len() - 1);
            Ok(fd)
        } else {
            Err(EPROTONOSUPPORT)
        }
    }
    pub fn connect(&mut self, fd: i32, a: Option<Addr>) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.before(Call::Connect)?;
        let a = a.ok_or(EINVAL)?;
        match &mut self.k.objs[id] {
            Obj::Udp(u) => {
                u.peer = Some(a);
                Ok(0)
            }
            Obj::Tcp(_) => {
                let r = self.with_env(|e, k| e.on_connect(k, &a)).unwrap_or(Err(ECONNREFUSED));
                if let Obj::Tcp(t) = &mut self.k.objs[id] {
                    t.peer = Some(a);
                    match r {
                        Ok(()) => {
                            t.connected = true;
                            Ok(0)
                        }
                        Err(EINPROGRESS) => {
                            t.connected = true;
                            Err(EINPROGRESS)
                        }
                        Err(EINTR) => {
                            // POSIX: the connection is established asynchronously
                            t.connected = true;
                            Err(EINTR)
                        }
                        Err(e) => {
                            t.dead = true;
                            Err(e)
                        }
                    }
                } else {
                    Err(EBADF)
                }
            }
            _ => Err(ENOTSOCK),
        }
    }
    pub fn bind(&mut self, fd: i32, a: Option<Addr>) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.before(Call::Bind)?;
        let p = a.map(|x| x.1).unwrap_or(0);
        let next_port = self.k.next_port;
        if let Obj::Udp(u) = &mut self.k.objs[id] {
            u.port = if p == 0 { next_port } else { p };
        }
        Ok(0)
    }
    pub fn getsockname(&mut self, fd: i32) -> Result<Addr, i32> {
        let id = self.k.id(fd)?;
        self.before(Call::GetSockName)?;
        match &self.k.objs[id] {
            Obj::Udp(u) => Ok(("0.0.0.0".into(), u.port)),
            Obj::Tcp(_) => Ok(("10.0.0.2".into(), 51000)),
            _ => Err(ENOTSOCK),
        }
    }
    pub fn getpeername(&mut self, fd: i32) -> Result<Addr, i32> {
        let id = self.k.id(fd)?;
        match &self.k.objs[id] {
            Obj::Tcp(Tcp { peer: Some(p), dead: false, .. }) | Obj::Udp(Udp { peer: Some(p), .. }) => Ok(p.clone()),
            _ => Err(ENOTCONN),
        }
    }
    pub fn setsockopt(&mut self, fd: i32, l: i32, n: i32, v: &[u8]) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.before(Call::SetSockOpt)?;
        let tmo = || {
            if v.len() >= 16 {
                let s = u64::from_le_bytes(v[0..8].try_into().unwrap());
                let us = u64::from_le_bytes(v[8..16].try_into().unwrap());
                let t = s.saturating_mul(1_000_000_000).saturating_add(us * 1000);
                if t == 0 {
                    None
                } else {
                    Some(t)
                }
            } else {
                None
            }
        };
        match &mut self.k.objs[id] {
            Obj::Tcp(t) => {
                if l == SOL_SOCKET && n == SO_RCVTIMEO {
                    t.rcvtimeo = tmo();
                }
                t.opts.push((l, n, v.to_vec()));
            }
            Obj::Udp(u) => {
                if l == SOL_SOCKET && n == SO_RCVTIMEO {
                    u.rcvtimeo = tmo();
                }
            }
            _ => return Err(ENOTSOCK),
        }
        Ok(0)
    }
    pub fn getsockopt(&mut self, fd: i32, l: i32, n: i32) -> Result<Vec<u8>, i32> {
        let id = self.k.id(fd)?;
        if l == SOL_SOCKET && n == SO_ERROR {
            let e = match &mut self.k.objs[id] {
                Obj::Tcp(t) => t.err.take(),
                Obj::Udp(u) => u.err.take(),
                _ => None,
            };
            return Ok(e.unwrap_or(0).to_le_bytes().to_vec());
        }
        if let Obj::Tcp(t) = &self.k.objs[id] {
            if let Some(o) = t.opts.iter().rev().find(|o| o.0 == l && o.1 == n) {
                return Ok(o.2.clone());
            }
        }
        Ok(0i32.to_le_bytes().to_vec())
    }
    pub fn recv(&mut self, fd: i32, b: &mut [u8], fl: i32, from: &mut Option<Addr>) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        let kind = match &self.k.objs[id] {
            Obj::Tcp(_) => Call::TcpRecv,
            Obj::Udp(_) => Call::UdpRecv,
            Obj::File(_) => Call::FileRead,
            _ => return Err(EINVAL),
        };
        self.before(kind)?;
        if let Obj::File(f) = &mut self.k.objs[id] {
            let d = self.k.files.get(&f.path).ok_or(EIO)?;
            let n = b.len().min(d.len().saturating_sub(f.pos));
            b[..n].copy_from_slice(&d[f.pos..f.pos + n]);
            f.pos += n;
            return Ok(n as i64);
        }
        let (nb, tmo) = match &self.k.objs[id] {
            Obj::Tcp(t) => (t.nonblock, t.rcvtimeo),
            Obj::Udp(u) => (u.nonblock, u.rcvtimeo),
            _ => return Err(EBADF),
        };
        let nb = nb || fl & MSG_DONTWAIT != 0;
        let peek = fl & MSG_PEEK != 0;
        let want = if fl & MSG_WAITALL != 0 && !peek { b.len() } else { 1 };
        let dl = tmo.map(|t| self.k.now + t);
        let mut got = 0usize;
        loop {
            match &mut self.k.objs[id] {
                Obj::Tcp(t) => {
                    if !t.rx.is_empty() {
                        let n = (b.len() - got).min(t.rx.len());
                        for (i, x) in t.rx.iter().take(n).enumerate() {
                            b[got + i] = *x;
                        }
                        if !peek {
                            t.rx.drain(..n);
                        }
                        got += n;
                        if !peek {
                            self.k.spin = 0;
                        }
                        if got >= want || got == b.len() {
                            return Ok(got as i64);
                        }
                    }
                    if got > 0 && (t.fin || t.dead) {
                        return Ok(got as i64);
                    }
                    if let Some(e) = t.err.take() {
                        return Err(e);
                    }
                    if t.fin || t.dead {
                        return Ok(0);
                    }
                    if !t.connected {
                        return Err(ENOTCONN);
                    }
                }
                Obj::Udp(u) => {
                    if let Some(e) = u.err.take() {
                        return Err(e);
                    }
                    if let Some(d) = u.rx.front() {
                        let n = d.len().min(b.len());
                        b[..n].copy_from_slice(&d[..n]);
                        let full = d.len();
                        *from = Some((SERVER_IP.into(), SERVER_UDP_PORT));
                        if !peek {
                            let d = u.rx.pop_front().unwrap();
                            self.k.spin = 0;
                            let cap = b.len();
                            self.with_env(|e, k| e.on_udp_recv(k, &d, cap));
                        }
                        return Ok(if fl & MSG_TRUNC != 0 { full as i64 } else { n as i64 });
                    }
                }
                _ => return Err(EBADF),
            }
            if nb {
                if got > 0 {
                    return Ok(got as i64);
                }
                self.spin_tick();
                return Err(EAGAIN);
            }
            let w = if kind == Call::TcpRecv { Wait::Tcp } else { Wait::Udp };
            match self.block(w, dl) {
                Blk::Progress => {}
                Blk::Timeout => {
                    if let Some(d) = dl {
                        self.k.now = self.k.now.max(d);
                        if got > 0 {
                            return Ok(got as i64);
                        }
                        return Err(EAGAIN);
                    }
                    // nothing will ever arrive: let time pass until the horizon is hit
                    self.k.now += 1_000 * MS;
                }
                Blk::Eintr => {
                    if got > 0 {
                        return Ok(got as i64);
                    }
                    return Err(EINTR);
                }
            }
        }
    }
    /// A long run of non-blocking calls that find nothing lets simulated time pass.
    fn spin_tick(&mut self) {
        self.k.spin += 1;
        let n = self.k.spin;
        if n >= 64 && n % 4 == 0 {
            // one millisecond at a time for the first seconds, longer later
            let ms = 1 << ((n / 4096).saturating_sub(3)).min(12);
            let dl = self.k.now + ms * MS;
            if let Blk::Timeout = self.block(Wait::Sleep, Some(dl)) {
                self.k.now = self.k.now.max(dl);
            }
            self.k.spin = n;
        }
    }
    pub fn send(&mut self, fd: i32, d: &[u8], to: Option<Addr>) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        match &self.k.objs[id] {
            Obj::Tcp(_) => {
                self.before(Call::TcpSend)?;
                if let Obj::Tcp(t) = &mut self.k.objs[id] {
                    if !t.connected {
                        return Err(ENOTCONN);
                    }
                    if let Some(e) = t.err.take() {
                        return Err(e);
                    }
                    if t.dead {
                        return Err(EPIPE);
                    }
                }
                if d.is_empty() {
                    return Ok(0);
                }
                self.with_env(|e, k| e.on_tcp_send(k, d)).unwrap_or(Err(EPIPE)).map(|n| n as i64)
            }
            Obj::Udp(_) => {
                self.before(Call::UdpSend)?;
                let to = match (&self.k.objs[id], to) {
                    (_, Some(t)) => Some(t),
                    (Obj::Udp(u), None) => u.peer.clone(),
                    _ => None,
                };
                if to.is_none() {
                    return Err(EDESTADDRREQ);
                }
                self.with_env(|e, k| e.on_udp_send(k, d, to)).unwrap_or(Err(EPIPE)).map(|n| n as i64)
            }
            Obj::File(f) => {
                if !f.writable {
                    return Err(EBADF);
                }
                let path = f.path.clone();
                self.before(Call::FileWrite)?;
                if d.is_empty() {
                    return Ok(0);
                }
                let n = self.with_env(|e, k| e.file_write_len(k, d.len())).unwrap_or(Err(EIO))?;
                if let Obj::File(f) = &mut self.k.objs[id] {
                    let pos = f.pos;
                    let c = self.k.files.entry(path).or_default();
                    if c.len() < pos + n {
                        c.resize(pos + n, 0);
                    }
                    c[pos..pos + n].copy_from_slice(&d[..n]);
                    f.pos += n;
                }
                Ok(n as i64)
            }
            _ => Err(EINVAL),
        }
    }
    pub fn close(&mut self, fd: i32) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.k.fds[(fd - FD_BASE) as usize] = None;
        self.k.refs[id] -= 1;
        if self.k.refs[id] == 0 {
            let was = std::mem::replace(&mut self.k.objs[id], Obj::Closed);
            for o in self.k.objs.iter_mut() {
                if let Obj::Ep(v) = o {
                    v.retain(|e| e.obj != id);
                }
            }
            match was {
                Obj::Tcp(_) => {
                    self.with_env(|e, k| e.on_close(k, true));
                }
                Obj::Udp(_) => {
                    self.with_env(|e, k| e.on_close(k, false));
                }
                _ => {}
            }
        }
        Ok(0)
    }
    pub fn dup(&mut self, fd: i32) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.k.refs[id] += 1;
        self.k.fds.push(Some(id));
        Ok((FD_BASE as usize + self.k.fds.len() - 1) as i64)
    }
    pub fn set_nonblock(&mut self, fd: i32, b: bool) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        match &mut self.k.objs[id] {
            Obj::Tcp(t) => t.nonblock = b,
            Obj::Udp(u) => u.nonblock = b,
            _ => {}
        }
        Ok(0)
    }
    pub fn is_nonblock(&mut self, fd: i32) -> Result<bool, i32> {
        let id = self.k.id(fd)?;
        Ok(match &self.k.objs[id] {
            Obj::Tcp(t) => t.nonblock,
            Obj::Udp(u) => u.nonblock,
            _ => false,
        })
    }
    pub fn avail(&mut self, fd: i32) -> Result<usize, i32> {
        let id = self.k.id(fd)?;
        Ok(match &self.k.objs[id] {
            Obj::Tcp(t) => t.rx.len(),
            Obj::Udp(u) => u.rx.front().map(|d| d.len()).unwrap_or(0),
            _ => 0,
        })
    }
    fn wait_kind(&self, objs: &[usize]) -> Wait {
        let t = objs.iter().any(|o| matches!(self.k.objs[*o], Obj::Tcp(_)));
        let u = objs.iter().any(|o| matches!(self.k.objs[*o], Obj::Udp(_)));
        match (t, u) {
            (true, false) => Wait::Tcp,
            (false, true) => Wait::Udp,
            (true, true) => Wait::Both,
            _ => Wait::Sleep,
        }
    }
    pub fn poll(&mut self, fds: &mut [pollfd], to: i32) -> Result<i64, i32> {
        self.before(Call::EpollWait)?;
        let dl = if to < 0 { None } else { Some(self.k.now + to as u64 * MS) };
        loop {
            let mut n = 0;
            let mut ids = vec![];
            for p in fds.iter_mut() {
                p.revents = 0;
                match self.k.id(p.fd) {
                    Ok(id) => {
                        ids.push(id);
                        let m = self.k.ready(id) as i16;
                        p.revents = m & (p.events | POLLERR | POLLHUP);
                    }
                    Err(_) => p.revents = POLLNVAL,
                }
                if p.revents != 0 {
                    n += 1;
                }
            }
            if n > 0 {
                return Ok(n);
            }
            if to == 0 {
                self.spin_tick();
                return Ok(0);
            }
            let w = self.wait_kind(&ids);
            match self.block(w, dl) {
                Blk::Progress => {}
                Blk::Eintr => return Err(EINTR),
                Blk::Timeout => match dl {
                    Some(d) => {
                        self.k.now = self.k.now.max(d);
                        return Ok(0);
                    }
                    None => self.k.now += 1_000 * MS,
                },
            }
        }
    }
    pub fn epoll_create(&mut self) -> Result<i64, i32> {
        self.before(Call::EpollCreate)?;
        Ok(self.k.new_obj(Obj::Ep(vec![])))
    }
    pub fn epoll_ctl(&mut self, ep: i32, op: i32, fd: i32, ev: Option<(u32, u64)>) -> Result<i64, i32> {
        let epid = self.k.id(ep)?;
        let id = self.k.id(fd)?;
        self.before(Call::EpollCtl)?;
        let ready = self.k.ready(id);
        if let Obj::Ep(v) = &mut self.k.objs[epid] {
            match op {
                EPOLL_CTL_ADD => {
                    if v.iter().any(|e| e.fd == fd) {
                        return Err(EEXIST);
                    }
                    let (events, data) = ev.ok_or(EFAULT)?;
                    v.push(EpEntry { obj: id, fd, events, data, edge: ready & events != 0 });
                }
                EPOLL_CTL_MOD => {
                    let (events, data) = ev.ok_or(EFAULT)?;
                    let e = v.iter_mut().find(|e| e.fd == fd).ok_or(ENOENT)?;
                    e.events = events;
                    e.data = data;
                    e.edge = true;
                }
                EPOLL_CTL_DEL => {
                    let l = v.len();
                    v.retain(|e| e.fd != fd);
                    if v.len() == l {
                        return Err(ENOENT);
                    }
                }
                _ => return Err(EINVAL),
            }
            Ok(0)
        } else {
            Err(EINVAL)
        }
    }
    pub fn epoll_wait(&mut self, ep: i32, max: usize, to: Option<u64>) -> Result<Vec<(u32, u64)>, i32> {
        let epid = self.k.id(ep)?;
        if max == 0 {
            return Err(EINVAL);
        }
        self.before(Call::EpollWait)?;
        let dl = to.map(|t| self.k.now + t);
        loop {
            let entries = match &self.k.objs[epid] {
                Obj::Ep(v) => v.clone(),
                _ => return Err(EINVAL),
            };
            let mut out = vec![];
            for (i, e) in entries.iter().enumerate() {
                if out.len() >= max {
                    break;
                }
                let m = self.k.ready(e.obj) & (e.events | (EPOLLERR | EPOLLHUP) as u32);
                let et = e.events & EPOLLET as u32 != 0;
                if m != 0 && (!et || e.edge) {
                    out.push((m, e.data));
                    if let Obj::Ep(v) = &mut self.k.objs[epid] {
                        v[i].edge = false;
                        if e.events & EPOLLONESHOT as u32 != 0 {
                            v[i].events = 0;
                        }
                    }
                }
            }
            if !out.is_empty() {
                return Ok(out);
            }
            if to == Some(0) {
                self.spin_tick();
                return Ok(out);
            }
            let ids: Vec<usize> = entries.iter().map(|e| e.obj).collect();
            let w = self.wait_kind(&ids);
            match self.block(w, dl) {
                Blk::Progress => {}
                Blk::Eintr => return Err(EINTR),
                Blk::Timeout => match dl {
                    Some(d) => {
                        self.k.now = self.k.now.max(d);
                        return Ok(vec![]);
                    }
                    None => self.k.now += 1_000 * MS,
                },
            }
        }
    }
    pub fn resolve(&mut self, h: &str) -> Result<Vec<Ipv4Addr>, i32> {
        self.k.step();
        self.with_env(|e, k| e.resolve(k, h)).unwrap_or(Err(EAI_NONAME))
    }
    pub fn rt_call(&mut self, n: &'static str, a: &[i64]) -> Result<i64, i32> {
        self.k.step();
        let r = self.with_env(|e, k| e.rt_call(k, n, a)).unwrap_or(Err(EPERM));
        self.k.rt_log.push((n, a.to_vec(), r.is_ok()));
        r
    }
    // ---- files
    pub fn fs_open(&mut self, p: &str, fl: i32) -> Result<i64, i32> {
        self.before(Call::FileOpen)?;
        let wr = fl & (O_WRONLY | O_RDWR) != 0;
        let exists = self.k.files.contains_key(p);
        if !exists && fl & O_CREAT == 0 {
            return Err(ENOENT);
        }
        if exists && fl & O_CREAT != 0 && fl & O_EXCL != 0 {
            return Err(EEXIST);
        }
        if !exists || fl & O_TRUNC != 0 {
            self.k.files.insert(p.to_string(), vec![]);
        }
        let pos = if fl & O_APPEND != 0 { self.k.files[p].len() } else { 0 };
        Ok(self.k.new_obj(Obj::File(FileObj { path: p.to_string(), pos, writable: wr })))
    }
    pub fn fs_unlink(&mut self, p: &str) -> Result<i64, i32> {
        self.before(Call::FileUnlink)?;
        self.k.files.remove(p).map(|_| 0).ok_or(ENOENT)
    }
    pub fn fs_rename(&mut self, a: &str, b: &str) -> Result<i64, i32> {
        self.k.step();
        let d = self.k.files.remove(a).ok_or(ENOENT)?;
        self.k.files.insert(b.to_string(), d);
        Ok(0)
    }
    pub fn fs_stat(&mut self, p: &str) -> Result<i64, i32> {
        self.k.step();
        self.k.files.get(p).map(|d| d.len() as i64).ok_or(ENOENT)
    }
    /// Size of an open file.
    pub fn fs_fstat(&mut self, fd: i32) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.k.step();
        match &self.k.objs[id] {
            Obj::File(f) => Ok(self.k.files.get(&f.path).map(|d| d.len()).unwrap_or(0) as i64),
            _ => Ok(0),
        }
    }
    pub fn fs_seek(&mut self, fd: i32, o: i64, wh: i32) -> Result<i64, i32> {
        let size = self.fs_fstat(fd)?;
        let id = self.k.id(fd)?;
        match &mut self.k.objs[id] {
            Obj::File(f) => {
                let to = o + match wh {
                    SEEK_SET => 0,
                    SEEK_CUR => f.pos as i64,
                    SEEK_END => size,
                    _ => return Err(EINVAL),
                };
                if to < 0 {
                    return Err(EINVAL);
                }
                f.pos = to as usize;
                Ok(to)
            }
            _ => Err(ESPIPE),
        }
    }
    pub fn fs_truncate(&mut self, fd: i32, n: i64) -> Result<i64, i32> {
        let id = self.k.id(fd)?;
        self.k.step();
        match &self.k.objs[id] {
            Obj::File(f) if f.writable && n >= 0 => {
                self.k.files.entry(f.path.clone()).or_default().resize(n as usize, 0);
                Ok(0)
            }
            _ => Err(EINVAL),
        }
    }
    // ---- dynamic loading: a file is a loadable model iff it starts with MODEL_MAGIC
    pub fn dl_open(&mut self, p: Option<&str>, flags: i32) -> usize {
        if self.before(Call::DlOpen).is_err() {
            self.k.dl_err = true;
            return 0;
        }
        let p = p.unwrap_or("");
        let ok = if p.contains("libm.so") && !p.contains("nolibm") {
            self.k.dl_math_global |= flags & RTLD_GLOBAL != 0;
            true
        } else {
            match self.k.files.get(p) {
                // immediate binding finds unresolved references; the math functions come from libm
                Some(d) => {
                    crate::fakemodel::loadable(d)
                        && (flags & RTLD_NOW == 0 || !self.k.dl_unresolved && (!self.k.dl_needs_math || self.k.dl_math_global))
                }
                None => false,
            }
        };
        if !ok {
            self.k.dl_err = true;
            return 0;
        }
        let img = self.k.files.get(p).cloned().unwrap_or_default();
        self.k.dl_images.push((p.to_string(), img));
        self.k.dl_handles.push(p.to_string());
        self.k.dl_open_count += 1;
        DL_BASE + self.k.dl_handles.len() - 1
    }
    pub fn dl_sym(&mut self, h: usize, n: &str) -> usize {
        if self.before(Call::DlSym).is_err() {
            self.k.dl_err = true;
            return 0;
        }
        let is_model = self.k.dl_handles.get(h - DL_BASE).map(|p| !p.is_empty() && !p.contains("libm.so")).unwrap_or(false);
        let missing = self.with_env(|e, k| e.dl_sym_missing(k, n)).unwrap_or(false);
        let r = if is_model && !missing { crate::fakemodel::symbol(n) } else { 0 };
        if r == 0 {
            self.k.dl_err = true;
        }
        r
    }
    pub fn dl_close(&mut self, h: usize) {
        self.k.dl_open_count -= 1;
        if let Some(p) = self.k.dl_handles.get_mut(h - DL_BASE) {
            p.clear();
        }
    }
    pub fn dl_error(&mut self) -> usize {
        if std::mem::replace(&mut self.k.dl_err, false) {
            DLERR.as_ptr() as usize
        } else {
            0
        }
    }
}
