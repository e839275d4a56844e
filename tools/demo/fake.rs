//! A scripted robot or gripper on a loopback address of its own, for demonstrations.
#![allow(dead_code)]
use crate::wire::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::time::Duration;

pub fn watchdog(seconds: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(seconds));
        eprintln!("the demonstration hangs");
        std::process::exit(3);
    });
}
pub fn address() -> String {
    let p = std::process::id();
    format!("127.{}.{}.{}", 1 + (p >> 14) % 200, (p >> 7) & 127, 1 + (p & 127))
}
pub fn fail(text: impl AsRef<str>) -> ! {
    eprintln!("BROKEN: {}", text.as_ref());
    std::process::exit(1)
}
#[macro_export]
macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fake::fail(format!($($t)*)) } };
}
pub struct Fake {
    pub tcp: TcpStream,
    pub udp: UdpSocket,
    pub to: SocketAddr,
    pub msg: u64,
    pub st: State,
    gripper: bool,
}
pub fn listen(gripper: bool) -> TcpListener {
    let port = if gripper { 1338 } else { 1337 };
    for _ in 0..50 {
        match TcpListener::bind((address().as_str(), port)) {
            Ok(l) => return l,
            Err(_) => std::thread::sleep(Duration::from_millis(200)),
        }
    }
    panic!("cannot listen")
}
impl Fake {
    pub fn accept(l: TcpListener, gripper: bool) -> Fake {
        let (mut tcp, peer) = l.accept().unwrap();
        tcp.set_nodelay(true).unwrap();
        tcp.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let r = read_req(&mut tcp, gripper);
        let mut rd = Rd::new(&r.payload);
        let (_version, port) = (rd.u16(), rd.u16());
        let udp = UdpSocket::bind((address().as_str(), 0)).unwrap();
        udp.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let mut f = Fake { tcp, udp, to: SocketAddr::new(peer.ip(), port), msg: 100, st: State::new(), gripper };
        let v = if gripper { GRIPPER_VERSION } else { ROBOT_VERSION };
        let w = if gripper { Wr(vec![]).u16(0).u16(v) } else { Wr(vec![]).u8(0).u16(v) };
        f.reply(&r, &w.0);
        if !gripper {
            f.state();
        }
        f
    }
    pub fn raw_reply(&mut self, b: &[u8]) {
        self.tcp.write_all(b).unwrap();
    }
    pub fn encode(&self, r: &Req, payload: &[u8]) -> Vec<u8> {
        if self.gripper { gripper_msg(r.cmd as u16, r.id, payload) } else { robot_msg(r.cmd, r.id, payload) }
    }
    pub fn reply(&mut self, r: &Req, payload: &[u8]) {
        let b = self.encode(r, payload);
        self.raw_reply(&b)
    }
    pub fn req(&mut self) -> Req {
        read_req(&mut self.tcp, self.gripper)
    }
    pub fn state(&mut self) {
        self.msg += 1;
        self.st.set_msg(self.msg);
        self.udp.send_to(&self.st.b, self.to).unwrap();
    }
    /// The command that answers the newest state.
    pub fn cmd(&mut self) -> Option<Cmd> {
        loop {
            let mut b = [0; 2000];
            let n = self.udp.recv(&mut b).ok()?;
            let c = parse_cmd(&b[..n])?;
            if c.msg >= self.msg {
                return Some(c);
            }
        }
    }
    /// Sends states until the motion runs, and returns its first command.
    pub fn first(&mut self) -> Option<Cmd> {
        self.udp.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
        let mut c = None;
        for _ in 0..20 {
            self.state();
            c = self.cmd();
            if c.is_some() {
                break;
            }
        }
        self.udp.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        c
    }
    /// Answers the next Move request with "started" and reports the motion active.
    pub fn start(&mut self) -> (Req, u8, u8) {
        let r = self.req();
        if r.cmd != cmd::MOVE {
            fail(format!("expected a Move request, got {r:?}"));
        }
        let mut rd = Rd::new(&r.payload);
        let (c, m) = (rd.u32() as u8, rd.u32() as u8);
        self.reply(&r, &[1]);
        let (mg, cm) = (m + 1, c);
        self.st.set_modes(mg, cm, RM_MOVE);
        self.state();
        (r, mg, cm)
    }
    /// One whole motion in lock step. `world` may change the next state after each command.
    pub fn motion(&mut self, mut world: impl FnMut(&Cmd, &mut State)) -> Vec<Cmd> {
        let (r, _, _) = self.start();
        let mut out = vec![];
        let mut next = self.first();
        loop {
            let Some(c) = next else { return out };
            world(&c, &mut self.st);
            out.push(c.clone());
            if c.finished {
                self.st.set_modes(MG_IDLE, CM_OTHER, RM_IDLE);
                self.reply(&r, &[0]);
                self.state();
                return out;
            }
            self.state();
            next = self.cmd();
        }
    }
}
pub fn read_req(tcp: &mut TcpStream, gripper: bool) -> Req {
    let h = if gripper { 10 } else { 12 };
    let mut b = vec![0; h];
    tcp.read_exact(&mut b).expect("no request");
    let mut r = Rd::new(&b);
    let cmd = if gripper { r.u16() as u32 } else { r.u32() };
    let (id, size) = (r.u32(), r.u32());
    let mut payload = vec![0; (size as usize).saturating_sub(h)];
    tcp.read_exact(&mut payload).expect("incomplete request");
    Req { cmd, id, payload }
}
/// Runs `robot` as the server and `client` as the user of the library, both on the same address.
pub fn scene<T: Send + 'static, R>(gripper: bool, server: impl FnOnce(Fake) -> T + Send + 'static, client: impl FnOnce(&str) -> R) -> (T, R) {
    watchdog(90);
    let l = listen(gripper);
    let h = std::thread::spawn(move || server(Fake::accept(l, gripper)));
    let r = client(&address());
    (h.join().unwrap_or_else(|_| fail("the fake robot saw something unexpected")), r)
}
