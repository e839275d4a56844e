//! Conformance of the simulated kernel: every program of at most `depth` socket operations from a
//! small alphabet is run against the simulated kernel and against the real one over loopback, and
//! every result (return value, errno, data, readiness) has to agree.
use crate::world::{self, Blk, Env, Kernel, Wait, World, MS};
use libc::*;
use std::io::Write;
use std::net::{TcpListener, TcpStream, UdpSocket};
use std::os::fd::AsRawFd;

struct Quiet;
impl Env for Quiet {
    fn on_tcp_send(&mut self, _k: &mut Kernel, d: &[u8]) -> Result<usize, i32> {
        Ok(d.len())
    }
    fn on_udp_send(&mut self, _k: &mut Kernel, d: &[u8], _to: Option<world::Addr>) -> Result<usize, i32> {
        Ok(d.len())
    }
    fn on_block(&mut self, k: &mut Kernel, _w: Wait, deadline: Option<u64>) -> Blk {
        k.now = deadline.unwrap_or(k.now + MS).max(k.now);
        Blk::Timeout
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    PeerSend,
    PeerFin,
    PeerRst,
    Recv(usize, i32),
    Timed,
    Send,
    WaitLevel,
    WaitEdge,
    Rearm,
    Readd,
    Avail,
    SoError,
    Poll,
    Peer,
    UPeerSend(usize),
    URecv(usize, i32),
    UTimed,
    UAvail,
    UPoll,
}
use Op::*;
const NB: i32 = MSG_DONTWAIT;
const TCP: &[Op] = &[
    PeerSend, PeerFin, PeerRst, Recv(1, NB), Recv(8, NB), Recv(8, NB | MSG_PEEK), Recv(0, NB), Recv(3, NB | MSG_WAITALL), Timed, Send, WaitLevel, WaitEdge,
    Rearm, Readd, Avail, SoError, Poll, Peer,
];
const UDP: &[Op] = &[
    UPeerSend(5), UPeerSend(0), URecv(2, NB), URecv(8, NB), URecv(8, NB | MSG_PEEK), URecv(2, NB | MSG_TRUNC), URecv(0, NB), UTimed, WaitLevel, WaitEdge, Rearm,
    Readd, UAvail, UPoll,
];
const BOTH: &[Op] = &[PeerSend, PeerFin, PeerRst, Recv(8, NB), UPeerSend(5), URecv(8, NB), WaitLevel, WaitEdge, Rearm, Send];

struct Rig {
    t: i32,
    u: i32,
    lv: i32,
    ed: i32,
    seq: u8,
    settle: bool,
    peer: Option<(TcpStream, UdpSocket, u16)>,
    over: bool,
}
unsafe fn errno(r: i64) -> i64 {
    if r < 0 {
        -(*__errno_location() as i64)
    } else {
        r
    }
}
impl Rig {
    unsafe fn open(l: Option<&TcpListener>, settle: bool) -> Rig {
        let t = socket(AF_INET, SOCK_STREAM, 0);
        let u = socket(AF_INET, SOCK_DGRAM, 0);
        let port = l.map(|l| l.local_addr().unwrap().port()).unwrap_or(1337);
        let mk = |port: u16| sockaddr_in { sin_family: AF_INET as u16, sin_port: port.to_be(), sin_addr: in_addr { s_addr: u32::from(std::net::Ipv4Addr::LOCALHOST).to_be() }, sin_zero: [0; 8] };
        let a = mk(port);
        assert_eq!(connect(t, &a as *const _ as *const sockaddr, 16), 0);
        let a = mk(0);
        assert_eq!(bind(u, &a as *const _ as *const sockaddr, 16), 0);
        let peer = l.map(|l| {
            let (s, _) = l.accept().unwrap();
            s.set_nodelay(true).unwrap();
            let mut sa: sockaddr_in = std::mem::zeroed();
            let mut n = 16u32;
            getsockname(u, &mut sa as *mut _ as *mut sockaddr, &mut n);
            (s, UdpSocket::bind("127.0.0.1:0").unwrap(), u16::from_be(sa.sin_port))
        });
        let lv = epoll_create1(0);
        let ed = epoll_create1(0);
        let mut r = Rig { t, u, lv, ed, seq: 0, settle, peer, over: false };
        r.ctl(EPOLL_CTL_ADD);
        let tv = timeval { tv_sec: 0, tv_usec: 3000 };
        for fd in [t, u] {
            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv as *const _ as *const c_void, 16);
        }
        r
    }
    unsafe fn ctl(&mut self, op: i32) -> i64 {
        let mut x = 0;
        for (fd, d) in [(self.t, 1u64), (self.u, 2)] {
            let mut e = epoll_event { events: (EPOLLIN | EPOLLRDHUP) as u32, u64: d };
            if op != EPOLL_CTL_MOD {
                x = x * 100 + errno(epoll_ctl(self.lv, op, fd, &mut e) as i64);
            }
            e.events |= EPOLLET as u32;
            x = x * 100 + errno(epoll_ctl(self.ed, op, fd, &mut e) as i64);
        }
        x
    }
    unsafe fn wait(&self, ep: i32) -> Vec<i64> {
        let mut ev: [epoll_event; 4] = std::mem::zeroed();
        let n = epoll_wait(ep, ev.as_mut_ptr(), 4, 0);
        let mut v: Vec<i64> = ev[..n.max(0) as usize].iter().map(|e| (e.u64 as i64) << 32 | e.events as i64).collect();
        v.sort();
        v.push(errno(n as i64));
        v
    }
    fn settle(&self) {
        if self.settle {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    }
    unsafe fn run(&mut self, op: Op) -> Vec<i64> {
        let get = |fd: i32, n: usize, fl: i32| -> Vec<i64> {
            let mut b = [0u8; 16];
            let r = errno(recv(fd, b.as_mut_ptr() as *mut c_void, n, fl) as i64);
            let mut v = vec![r];
            v.extend(b.iter().map(|x| *x as i64));
            v
        };
        match op {
            PeerSend => {
                if !self.over {
                    let d = [self.seq + 1, self.seq + 2];
                    self.seq += 2;
                    match &mut self.peer {
                        Some(p) => p.0.write_all(&d).unwrap(),
                        None => world::with(|w| w.k.deliver_tcp(&d)),
                    }
                }
                self.settle();
                vec![]
            }
            PeerFin => {
                if !self.over {
                    self.over = true;
                    match &mut self.peer {
                        Some(p) => p.0.shutdown(std::net::Shutdown::Write).unwrap(),
                        None => world::with(|w| w.k.deliver_fin()),
                    }
                }
                self.settle();
                vec![]
            }
            PeerRst => {
                if !self.over {
                    self.over = true;
                    match &mut self.peer {
                        Some(p) => {
                            let l = linger { l_onoff: 1, l_linger: 0 };
                            setsockopt(p.0.as_raw_fd(), SOL_SOCKET, SO_LINGER, &l as *const _ as *const c_void, 8);
                            let s = std::mem::replace(&mut p.0, TcpStream::from(std::os::fd::OwnedFd::from(std::fs::File::open("/dev/null").unwrap())));
                            drop(s);
                        }
                        None => world::with(|w| w.k.deliver_rst(ECONNRESET)),
                    }
                }
                self.settle();
                vec![]
            }
            Recv(n, fl) => get(self.t, n, fl),
            URecv(n, fl) => get(self.u, n, fl),
            Timed => get(self.t, 8, 0),
            UTimed => get(self.u, 8, 0),
            Send => vec![errno(send(self.t, b"x".as_ptr() as *const c_void, 1, MSG_NOSIGNAL) as i64)],
            WaitLevel => self.wait(self.lv),
            WaitEdge => self.wait(self.ed),
            Rearm => vec![self.ctl(EPOLL_CTL_MOD)],
            Readd => vec![self.ctl(EPOLL_CTL_DEL), self.ctl(EPOLL_CTL_DEL), self.ctl(EPOLL_CTL_ADD), self.ctl(EPOLL_CTL_ADD)],
            Avail | UAvail => {
                let mut n: c_int = 0;
                let fd = if op == Avail { self.t } else { self.u };
                let r = ioctl(fd, FIONREAD, &mut n as *mut _ as usize);
                vec![errno(r as i64), n as i64]
            }
            SoError => {
                let mut e: c_int = 0;
                let mut l = 4u32;
                let r = getsockopt(self.t, SOL_SOCKET, SO_ERROR, &mut e as *mut _ as *mut c_void, &mut l);
                vec![errno(r as i64), e as i64]
            }
            Poll | UPoll => {
                let mut p = pollfd { fd: if op == Poll { self.t } else { self.u }, events: POLLIN | POLLOUT, revents: 0 };
                let r = poll(&mut p, 1, 0);
                vec![errno(r as i64), p.revents as i64]
            }
            Peer => {
                let mut sa: sockaddr_in = std::mem::zeroed();
                let mut n = 16u32;
                vec![errno(getpeername(self.t, &mut sa as *mut _ as *mut sockaddr, &mut n) as i64), sa.sin_family as i64]
            }
            UPeerSend(n) => {
                let d: Vec<u8> = (0..n as u8).map(|i| self.seq + 1 + i).collect();
                self.seq += n as u8;
                match &mut self.peer {
                    Some(p) => {
                        p.1.send_to(&d, ("127.0.0.1", p.2)).unwrap();
                    }
                    None => world::with(|w| w.k.deliver_udp(d)),
                }
                self.settle();
                vec![]
            }
        }
    }
    unsafe fn shut(self) {
        for fd in [self.ed, self.lv, self.u, self.t] {
            close(fd);
        }
    }
}
fn simulated(p: &[Op]) -> Vec<Vec<i64>> {
    let mut w = World::new(vec![]);
    w.env = Some(Box::new(Quiet));
    world::install(w);
    let o = unsafe {
        let mut r = Rig::open(None, false);
        let o = p.iter().map(|x| r.run(*x)).collect();
        r.shut();
        o
    };
    drop(world::uninstall());
    o
}
fn real(l: &TcpListener, p: &[Op], settle: bool) -> Vec<Vec<i64>> {
    unsafe {
        let mut r = Rig::open(Some(l), settle);
        let o = p.iter().map(|x| r.run(*x)).collect();
        // no TIME_WAIT on the client's ports
        let lg = linger { l_onoff: 1, l_linger: 0 };
        setsockopt(r.t, SOL_SOCKET, SO_LINGER, &lg as *const _ as *const c_void, 8);
        r.shut();
        o
    }
}
pub fn main(depth: usize) -> i32 {
    let mut bad = 0;
    for (name, ops) in [("tcp", TCP), ("udp", UDP), ("both", BOTH)] {
        let total = ops.len().pow(depth as u32);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let worst = std::sync::Mutex::new(Vec::<String>::new());
        let odd = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    let l = TcpListener::bind("127.0.0.1:0").unwrap();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= total {
                            break;
                        }
                        let mut k = i;
                        let mut p: Vec<Op> = vec![];
                        for _ in 0..depth {
                            p.push(ops[k % ops.len()]);
                            k /= ops.len();
                        }
                        let a = simulated(&p);
                        let mut b = real(&l, &p, false);
                        if a != b {
                            b = real(&l, &p, true);
                        }
                        if a != b {
                            odd.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            let mut w = worst.lock().unwrap();
                            if w.len() < 12 {
                                let j = (0..depth).find(|j| a[*j] != b[*j]).unwrap();
                                w.push(format!("{:?}: simulated {:?} real {:?}", &p[..=j], a[j], b[j]));
                            }
                        }
                    }
                });
            }
        });
        let odd = odd.into_inner();
        println!("conformance {name}: {total} programs of {depth} operations, {odd} differ");
        for l in worst.into_inner().unwrap() {
            println!("  {l}");
        }
        bad += odd;
    }
    (bad > 0) as i32
}
