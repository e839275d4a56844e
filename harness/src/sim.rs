//! Environment model: the robot controller / gripper and the network between it and the library.
//! One tick = one control cycle of 1 ms.  A tick happens whenever the client blocks.
use crate::wire::{self, cmd, parse_cmd, robot_msg, st, Cmd, Req, State};
use crate::world::{Addr, Blk, Call, Env, Kernel, Wait, MS, SERVER_IP, SERVER_UDP_PORT};
use libc::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::net::Ipv4Addr;
use std::rc::Rc;

// Move statuses
pub const MV_SUCCESS: u8 = 0;
pub const MV_STARTED: u8 = 1;
pub const MV_PREEMPTED: u8 = 2;
pub const MV_NOT_POSSIBLE: u8 = 3;
pub const MV_SINGULAR: u8 = 4;
pub const MV_INVALID: u8 = 5;
pub const MV_REFLEX: u8 = 6;
pub const MV_EMERGENCY: u8 = 7;
pub const MV_INPUT: u8 = 8;
pub const MV_ABORTED: u8 = 9;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// request `i` (index into `reqs`) completely received
    Req(usize),
    /// command datagram received by the robot
    Cmd(Cmd),
    BadCmd(usize),
    /// state datagram `msg` taken from the socket by the library (false: truncated)
    Read(u64, bool),
    /// callback invoked with state `msg`, time step in ns; which callback (0 motion, 1 control, 2 read)
    Cb(u8, u64, u128),
    /// newest whole state waiting in the socket when the client looks for its next state
    Look(u64),
    /// something the scenario notes
    Note(&'static str),
}
#[derive(Clone, Debug)]
pub struct Abort {
    /// number of active ticks after which the motion aborts
    pub at: u64,
    pub status: u8,
    pub mode: u8,
    /// the reply comes this many ticks after / the state this many ticks after the abort
    pub reply_lag: u64,
    pub state_lag: u64,
    pub flags: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Plan {
    /// 1 = started, otherwise the request is rejected with this status
    pub start: u8,
    pub start_reply_lag: u64,
    /// ticks until the state shows the motion active
    pub start_state_lag: u64,
    /// never becomes active; final reply with this status after that many ticks
    pub die: Option<(u8, u64, u8)>,
    pub abort: Option<Abort>,
    pub finish_lag: u64,
    pub final_status: u8,
    pub final_reply_lag: u64,
    pub final_state_lag: u64,
    pub final_mode: u8,
    pub final_flags: Vec<usize>,
    /// reply status to a stop request, lag of the reply, lag of the state
    pub stop: (u8, u64, u64),
    /// Move reply after a successful stop (0xff = none)
    pub stop_move: (u8, u64),
    /// (motion generator, controller, robot mode) shown while the motion is being activated (needs start_state_lag > len)
    pub prelude: Vec<(u8, u8, u8)>,
    /// the same after the end of an aborted or stopped motion, before everything is idle
    pub epilogue: Vec<(u8, u8, u8)>,
    /// the same while the robot winds down a finished motion, before it reports the end
    pub fade: Vec<(u8, u8, u8)>,
    /// tick of `fade` at which the final reply is already sent (u64::MAX: with the end)
    pub early_reply: u64,
}
impl Default for Plan {
    fn default() -> Plan {
        Plan {
            start: MV_STARTED,
            start_reply_lag: 0,
            start_state_lag: 1,
            die: None,
            abort: None,
            finish_lag: 1,
            final_status: MV_SUCCESS,
            final_reply_lag: 0,
            final_state_lag: 0,
            final_mode: wire::RM_IDLE,
            final_flags: vec![],
            stop: (0, 0, 1),
            stop_move: (MV_PREEMPTED, 0),
            prelude: vec![],
            epilogue: vec![],
            fade: vec![],
            early_reply: u64::MAX,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Motion {
    pub plan: Plan,
    pub id: u32,
    pub mg: u8,
    pub cm: u8,
    pub t: u64,
    pub active: u64,
    pub fin: Option<u64>,
    pub stop: Option<u64>,
    pub ended: bool,
    pub replied: bool,
}
#[derive(Clone)]
pub enum TcpEv {
    Bytes(Vec<u8>),
    Fin,
    Cut(u32, bool),
    Rst(i32),
}
// choices about datagrams
pub const U_LOSE: u32 = 1;
pub const U_DUP: u32 = 2;
pub const U_DELAY: u32 = 4;
pub const U_TRUNC: u32 = 8;
pub const U_BURST: u32 = 16;
// fault classes
pub const X_EINTR: u32 = 1;
pub const X_SHORT: u32 = 2;
pub const X_TCPSEND: u32 = 4;
pub const X_UDPSEND: u32 = 8;
pub const X_UDPRECV: u32 = 16;
pub const X_SILENCE: u32 = 32;
pub const X_FIN: u32 = 64;
pub const X_RST: u32 = 128;
pub const X_CABLE: u32 = 256;
pub const X_SETUP: u32 = 512;
pub const X_FILE: u32 = 1024;
pub const X_FINALL: u32 = 2048;

pub type Hook = Box<dyn FnMut(&mut State, &mut SimView)>;
/// What state hooks may look at.
pub struct SimView {
    pub tick: u64,
    pub cmd: Option<Cmd>,
    pub motion: Option<(u8, u8, u64)>,
}
pub struct Sim {
    pub gripper: bool,
    // ---- configuration
    pub connect_status: u16,
    pub connect_version: u16,
    pub connect_reply: bool,
    pub refuse: Option<i32>,
    pub resolve: Result<Vec<Ipv4Addr>, i32>,
    pub statuses: HashMap<u32, VecDeque<u8>>,
    pub wall: Vec<u8>,
    pub model: Vec<u8>,
    pub plans: VecDeque<Plan>,
    pub udp_menu: u32,
    pub reply_menu: bool,
    pub faults: u32,
    pub fault_budget: u32,
    pub emit: bool,
    pub emit_every: u64,
    pub stamp: bool,
    pub track: bool,
    /// in every motion, lose `.1` states after the first `.0`
    pub gap: Option<(u64, u64)>,
    /// the reply with this number (0: connect) ends after so many bytes; that many ticks later the connection breaks in that way
    pub sever: Option<(usize, usize, u32, u64)>,
    pub gap_count: u64,
    /// message number increments of consecutive states, used cyclically (empty: one)
    pub strides: Vec<u64>,
    pub stride_count: usize,
    /// time spent in waits that ended before the next tick
    pub waited: u64,
    pub hook: Option<Hook>,
    pub rt: Box<dyn FnMut(&'static str, &[i64]) -> Result<i64, i32>>,
    pub missing_symbol: Option<String>,
    pub file_chunk: Option<usize>,
    pub file_err_after: Option<usize>,
    /// cuts for replies: reply number -> cut positions (bytes), one tick apart
    pub cuts: Option<Box<dyn FnMut(usize, &[u8]) -> Vec<(u64, Vec<u8>)>>>,
    /// extra messages glued before/after the reply of request i
    pub lag: u64,
    pub short_write: Option<usize>,
    // ---- run time
    pub raw: Vec<u8>,
    rx: Vec<u8>,
    pub reqs: Vec<Req>,
    pub req_tick: Vec<u64>,
    pub replies: usize,
    pub out: VecDeque<(u64, TcpEv)>,
    pub held: Vec<(u64, Vec<u8>)>,
    pub tick: u64,
    pub msg: u64,
    pub st: State,
    pub sent: BTreeMap<u64, State>,
    pub gsent: BTreeMap<u32, Vec<u8>>,
    /// tick at which each message number was first delivered to the client's socket
    pub delivered: BTreeMap<u64, u64>,
    /// tick of the latest delivery of each message number
    pub delivered_last: BTreeMap<u64, u64>,
    /// the same for gripper states (latest delivery of a whole datagram)
    pub gdelivered: BTreeMap<u32, u64>,
    /// no states are sent in these ticks
    pub quiet_from_to: Option<(u64, u64)>,
    /// the fault happens at the first wait at or after this tick (no choice)
    pub force_fault_at: Option<u64>,
    pub ev: Vec<Ev>,
    pub motion: Option<Motion>,
    pub last_cmd: Option<Cmd>,
    pub truncated: u64,
    pub silent: bool,
    pub cable: Option<u64>,
    pub fault: Option<(&'static str, u64)>,
    /// every fault that was injected
    pub injected: Vec<&'static str>,
    /// a request or reply did not get through because of a fault
    pub lost_reply: bool,
    pub tcp_closed: u32,
    pub udp_closed: u32,
    pub wrong_dest: bool,
    pub connects: Vec<Addr>,
    pub udp_port_announced: Option<u16>,
    pub rcvd_newest: u64,
    pub hold_emit: bool,
}
pub type SimRef = Rc<RefCell<Sim>>;
impl Sim {
    pub fn new(gripper: bool) -> Sim {
        Sim {
            gripper,
            connect_status: 0,
            connect_version: if gripper { wire::GRIPPER_VERSION } else { wire::ROBOT_VERSION },
            connect_reply: true,
            refuse: None,
            resolve: Ok(vec![Ipv4Addr::new(10, 0, 0, 1)]),
            statuses: HashMap::new(),
            wall: vec![0; 24 + 128 + 1],
            model: crate::fakemodel::image(200),
            plans: VecDeque::new(),
            udp_menu: 0,
            reply_menu: false,
            faults: 0,
            fault_budget: 1,
            emit: true,
            emit_every: 1,
            stamp: true,
            track: true,
            gap: None,
            sever: None,
            gap_count: 0,
            strides: vec![],
            stride_count: 0,
            waited: 0,
            hook: None,
            rt: Box::new(|n, _| if n == "prio_max" { Ok(99) } else { Ok(0) }),
            missing_symbol: None,
            file_chunk: None,
            file_err_after: None,
            cuts: None,
            lag: 0,
            short_write: None,
            raw: vec![],
            rx: vec![],
            reqs: vec![],
            req_tick: vec![],
            replies: 0,
            out: VecDeque::new(),
            held: vec![],
            tick: 0,
            msg: 100,
            st: State::new(),
            sent: BTreeMap::new(),
            gsent: BTreeMap::new(),
            delivered: BTreeMap::new(),
            delivered_last: BTreeMap::new(),
            gdelivered: BTreeMap::new(),
            quiet_from_to: None,
            force_fault_at: None,
            ev: vec![],
            motion: None,
            last_cmd: None,
            truncated: 0,
            silent: false,
            cable: None,
            fault: None,
            injected: vec![],
            lost_reply: false,
            tcp_closed: 0,
            udp_closed: 0,
            wrong_dest: false,
            connects: vec![],
            udp_port_announced: None,
            rcvd_newest: 0,
            hold_emit: false,
        }
    }
    /// Installs the simulation as the environment of the current execution.
    pub fn install(self) -> SimRef {
        let r = Rc::new(RefCell::new(self));
        let e = SimEnv(r.clone());
        crate::world::with(|w| w.env = Some(Box::new(e)));
        r
    }
    fn sched(&mut self, due: u64, e: TcpEv) {
        // a byte stream: later items never overtake earlier ones
        let due = self.out.back().map(|b| b.0.max(due)).unwrap_or(due);
        self.out.push_back((due, e));
    }
    fn flush_tcp(&mut self, k: &mut Kernel) {
        while let Some((d, _)) = self.out.front() {
            if *d > self.tick {
                break;
            }
            match self.out.pop_front().unwrap().1 {
                TcpEv::Bytes(b) => {
                    if k.tcp_mut().map(|t| t.dead || t.fin).unwrap_or(true) {
                        self.lost_reply = true;
                    }
                    k.deliver_tcp(&b)
                }
                TcpEv::Fin => k.deliver_fin(),
                TcpEv::Rst(e) => k.deliver_rst(e),
                TcpEv::Cut(how, lost) => {
                    self.lost_reply |= lost;
                    self.out.clear();
                    self.silent |= how != X_FIN;
                    match how {
                        X_FIN | X_FINALL => k.deliver_fin(),
                        X_RST => k.deliver_rst(ECONNRESET),
                        _ => self.cable = Some(k.now),
                    }
                    self.injected.push(match how {
                        X_FIN => "fin",
                        X_FINALL => "fin-all",
                        X_RST => "rst",
                        _ => "cable",
                    });
                }
            }
        }
    }
    /// Sends a reply message with the configured or chosen segmentation.
    pub fn reply(&mut self, k: &mut Kernel, m: Vec<u8>, lag: u64) {
        let n = self.replies;
        self.replies += 1;
        let t = self.tick + lag + self.lag;
        if let Some((_, bytes, how, d)) = self.sever.filter(|x| x.0 == n) {
            let b = bytes.min(m.len());
            if b > 0 {
                self.sched(t, TcpEv::Bytes(m[..b].to_vec()));
            }
            self.sched(t + d, TcpEv::Cut(how, b < m.len()));
        } else if let Some(mut c) = self.cuts.take() {
            let segs = c(n, &m);
            self.cuts = Some(c);
            for (d, b) in segs {
                self.sched(t + d, TcpEv::Bytes(b));
            }
        } else if self.reply_menu {
            let h = if self.gripper { 10 } else { 12 };
            let unknown = |id: u32| {
                if h == 10 {
                    wire::gripper_msg(3, id, &[0, 0])
                } else {
                    robot_msg(cmd::SET_LOAD, id, &[0])
                }
            };
            let two = |i: usize| vec![(0, m[..i.min(m.len())].to_vec()), (1, m[i.min(m.len())..].to_vec())];
            let segs: Vec<(u64, Vec<u8>)> = match k.ch.dev(11) {
                0 => vec![(0, m.clone())],
                1 => vec![(1, m.clone())],
                2 => vec![(25, m.clone())],
                3 => two(1),
                4 => two(h - 1),
                5 => two(h),
                6 => two(m.len() - 1),
                7 => m.iter().enumerate().map(|(i, b)| (i as u64, vec![*b])).collect(),
                8 => vec![(0, [unknown(900_000), m.clone()].concat())],
                9 => vec![(0, [m.clone(), unknown(900_001)].concat())],
                _ => {
                    let x = [unknown(900_002), m.clone()].concat();
                    vec![(0, x[..h + 3].to_vec()), (2, x[h + 3..].to_vec())]
                }
            };
            for (d, b) in segs {
                self.sched(t + d, TcpEv::Bytes(b));
            }
        } else {
            self.sched(t, TcpEv::Bytes(m));
        }
        self.flush_tcp(k);
    }
    fn status(&mut self, c: u32) -> u8 {
        self.statuses.get_mut(&c).and_then(|q| if q.len() > 1 { q.pop_front() } else { q.front().copied() }).unwrap_or(0)
    }
    fn on_request(&mut self, k: &mut Kernel, r: Req) {
        let i = self.reqs.len();
        self.reqs.push(r.clone());
        self.req_tick.push(self.tick);
        self.ev.push(Ev::Req(i));
        if self.gripper {
            if r.cmd == 0 {
                self.udp_port_announced = r.payload.get(2..4).map(|b| u16::from_le_bytes([b[0], b[1]]));
                if self.connect_reply {
                    let p = wire::Wr(vec![]).u16(self.connect_status).u16(self.connect_version).0;
                    self.reply(k, wire::gripper_msg(0, r.id, &p), 0);
                }
            } else {
                let s = self.status(r.cmd) as u16;
                self.reply(k, wire::gripper_msg(r.cmd as u16, r.id, &s.to_le_bytes()), 0);
            }
            return;
        }
        match r.cmd {
            cmd::CONNECT => {
                self.udp_port_announced = r.payload.get(2..4).map(|b| u16::from_le_bytes([b[0], b[1]]));
                if self.connect_reply {
                    let p = wire::Wr(vec![]).u8(self.connect_status as u8).u16(self.connect_version).0;
                    self.reply(k, robot_msg(0, r.id, &p), 0);
                }
            }
            cmd::MOVE => {
                let plan = self.plans.pop_front().unwrap_or_default();
                let mut rd = wire::Rd::new(&r.payload);
                let cm = rd.u32() as u8;
                let mg = rd.u32() as u8 + 1;
                let busy = self.motion.as_ref().map(|m| !m.ended).unwrap_or(false);
                if busy {
                    self.reply(k, robot_msg(cmd::MOVE, r.id, &[MV_NOT_POSSIBLE]), 0);
                    return;
                }
                self.reply(k, robot_msg(cmd::MOVE, r.id, &[plan.start]), plan.start_reply_lag);
                if plan.start == MV_STARTED {
                    self.last_cmd = None;
                    self.motion = Some(Motion { plan, id: r.id, mg, cm, t: 0, active: 0, fin: None, stop: None, ended: false, replied: false });
                }
            }
            cmd::STOP_MOVE => {
                let plan = self.motion.as_ref().map(|m| m.plan.clone());
                let active = self.motion.as_ref().map(|m| !m.ended).unwrap_or(false);
                let (status, lag, slag) = match (&plan, self.statuses.contains_key(&cmd::STOP_MOVE)) {
                    (Some(p), false) => p.stop,
                    _ => (self.status(cmd::STOP_MOVE), 0, 1),
                };
                if active && status == 0 {
                    let t = self.tick;
                    if let Some(m) = self.motion.as_mut() {
                        m.stop = Some(t + slag);
                        if m.plan.stop_move.0 != 0xff && !m.replied {
                            m.replied = true;
                            let (s, l) = m.plan.stop_move;
                            let id = m.id;
                            self.reply(k, robot_msg(cmd::MOVE, id, &[s]), l);
                        }
                    }
                } else if active {
                    // the stop is refused: the robot, no longer getting commands, aborts by itself
                    let a = self.motion.as_ref().unwrap().active + 3;
                    if let Some(m) = self.motion.as_mut() {
                        m.plan.abort =
                            Some(Abort { at: a, status: MV_REFLEX, mode: wire::RM_REFLEX, reply_lag: 0, state_lag: 0, flags: vec![25] });
                    }
                }
                self.reply(k, robot_msg(cmd::STOP_MOVE, r.id, &[status]), lag);
            }
            cmd::GET_CARTESIAN_LIMIT => {
                let s = self.status(r.cmd);
                let mut p = vec![s];
                p.extend_from_slice(&self.wall);
                self.reply(k, robot_msg(r.cmd, r.id, &p), 0);
            }
            cmd::LOAD_MODEL => {
                let s = self.status(r.cmd);
                let mut p = vec![s];
                if s == 0 {
                    p.extend_from_slice(&self.model);
                }
                self.reply(k, robot_msg(r.cmd, r.id, &p), 0);
            }
            cmd::RECOVERY => {
                let s = self.status(r.cmd);
                if s == 0 && !self.st.in_motion() {
                    self.st.set_modes(wire::MG_IDLE, wire::CM_OTHER, wire::RM_IDLE);
                    self.st.set_flags(st::ERRORS, &[]);
                }
                self.reply(k, robot_msg(r.cmd, r.id, &[s]), 0);
            }
            c => {
                let s = self.status(c);
                self.reply(k, robot_msg(c, r.id, &[s]), 0);
            }
        }
    }
    fn end_motion(&mut self, k: &mut Kernel, mode: u8, flags: &[usize]) {
        if let Some(m) = self.motion.as_mut() {
            m.ended = true;
        }
        self.st.set_modes(wire::MG_IDLE, wire::CM_OTHER, mode);
        if let Some((a, b, c)) = self.motion.as_ref().and_then(|m| m.plan.epilogue.first().copied()) {
            self.st.set_modes(a, b, c);
        }
        if !flags.is_empty() {
            // what aborted the motion is latched in the last-motion flags; another error is active now
            let other = (0..41).map(|x| (flags[0] + 13 + x) % 41).find(|x| !flags.contains(x));
            self.st.set_flags(st::ERRORS, &other.into_iter().collect::<Vec<_>>());
            self.st.set_flags(st::REFLEX, flags);
        }
        let _ = k;
    }
    fn motion_tick(&mut self, k: &mut Kernel) {
        let Some(mut m) = self.motion.take() else { return };
        if m.ended {
            if !m.plan.epilogue.is_empty() {
                m.plan.epilogue.remove(0);
                let (a, b, c) = m.plan.epilogue.first().copied().unwrap_or((wire::MG_IDLE, wire::CM_OTHER, self.st.rm()));
                self.st.set_modes(a, b, c);
            }
            self.motion = Some(m);
            return;
        }
        m.t += 1;
        if m.t < m.plan.start_state_lag && !m.plan.prelude.is_empty() {
            let (a, b, c) = m.plan.prelude.remove(0);
            self.st.set_modes(a, b, c);
        }
        let tick = self.tick;
        let (mut reply, mut end): (Option<(u8, u64)>, Option<(u8, Vec<usize>)>) = (None, None);
        if let Some(t) = m.stop {
            if tick >= t {
                end = Some((wire::RM_IDLE, vec![]));
            }
        } else if let Some((s, at, mode)) = m.plan.die {
            if m.t >= at {
                reply = Some((s, 0));
                end = Some((mode, vec![]));
            }
        } else if m.t >= m.plan.start_state_lag.max(1) {
            m.active += 1;
            self.st.set_modes(m.mg, m.cm, wire::RM_MOVE);
            if m.active == 1 {
                self.st.set_flags(st::ERRORS, &[]);
                self.st.set_flags(st::REFLEX, &[]);
            }
            if m.fin.is_none() && self.last_cmd.as_ref().map(|c| c.finished).unwrap_or(false) {
                m.fin = Some(tick - 1);
            }
            if let Some(a) = m.plan.abort.clone() {
                if m.active > a.at {
                    let x = m.active - 1 - a.at;
                    if x == a.reply_lag && !m.replied {
                        reply = Some((a.status, 0));
                    }
                    if x == a.state_lag {
                        if !m.replied && a.reply_lag > x {
                            reply = Some((a.status, a.reply_lag - x));
                        }
                        end = Some((a.mode, a.flags.clone()));
                    }
                }
            }
            if let (Some(t), None) = (m.fin, &end) {
                let x = tick - t;
                if x >= m.plan.finish_lag {
                    let mut y = x - m.plan.finish_lag;
                    if let Some((a, b, c)) = m.plan.fade.get(y as usize) {
                        self.st.set_modes(*a, *b, *c);
                    }
                    if y == m.plan.early_reply && !m.replied && reply.is_none() {
                        reply = Some((m.plan.final_status, 0));
                    }
                    y = y.wrapping_sub(m.plan.fade.len() as u64);
                    if y == m.plan.final_reply_lag && !m.replied && reply.is_none() {
                        reply = Some((m.plan.final_status, 0));
                    }
                    if y == m.plan.final_state_lag {
                        if !m.replied && reply.is_none() {
                            reply = Some((m.plan.final_status, m.plan.final_reply_lag.saturating_sub(y)));
                        }
                        end = Some((m.plan.final_mode, m.plan.final_flags.clone()));
                    }
                }
            }
        }
        let id = m.id;
        if reply.is_some() {
            m.replied = true;
        }
        self.motion = Some(m);
        if let Some((s, l)) = reply {
            self.reply(k, robot_msg(cmd::MOVE, id, &[s]), l);
        }
        if let Some((mode, flags)) = end {
            self.end_motion(k, mode, &flags);
        }
    }
    fn track(&mut self) {
        if !self.track {
            return;
        }
        let (Some(c), Some(m)) = (self.last_cmd.clone(), self.motion.clone()) else { return };
        if m.ended {
            return;
        }
        follow(&mut self.st, &c, m.mg, m.cm);
    }
    pub fn do_tick(&mut self, k: &mut Kernel) {
        self.tick += 1;
        self.motion_tick(k);
        self.track();
        let cmd = self.last_cmd.take();
        let was_finished = cmd.as_ref().map(|c| c.finished).unwrap_or(false);
        let _ = was_finished;
        if let Some(mut h) = self.hook.take() {
            let mut v = SimView {
                tick: self.tick,
                cmd,
                motion: self.motion.as_ref().filter(|m| !m.ended).map(|m| (m.mg, m.cm, m.active)),
            };
            h(&mut self.st, &mut v);
            self.hook = Some(h);
        }
        self.flush_tcp(k);
        // datagrams held back
        let t = self.tick;
        let due: Vec<Vec<u8>> = {
            let (a, b): (Vec<_>, Vec<_>) = std::mem::take(&mut self.held).into_iter().partition(|h| h.0 <= t);
            self.held = b;
            a.into_iter().map(|h| h.1).collect()
        };
        let connected = !self.reqs.is_empty();
        let paused = self.quiet_from_to.map(|(a, b)| t > a && t < b).unwrap_or(false);
        if self.emit && !self.silent && !paused && connected && t % self.emit_every == 0 {
            self.emit_state(k);
        }
        for d in due {
            self.send_udp(k, d);
        }
    }
    fn send_udp(&mut self, k: &mut Kernel, d: Vec<u8>) {
        if self.silent {
            return;
        }
        if d.len() == st::SIZE && !self.gripper {
            let m = u64::from_le_bytes(d[..8].try_into().unwrap());
            let t = self.tick;
            self.delivered.entry(m).or_insert(t);
            self.delivered_last.insert(m, t);
        }
        if d.len() == wire::GRIPPER_STATE_SIZE && self.gripper {
            let m = u32::from_le_bytes(d[..4].try_into().unwrap());
            self.gdelivered.insert(m, self.tick);
        }
        k.deliver_udp(d);
    }
    pub fn make_state(&mut self) -> Vec<u8> {
        self.msg += if self.strides.is_empty() { 1 } else { self.strides[self.stride_count % self.strides.len()] };
        self.stride_count += 1;
        if self.gripper {
            let m = self.msg as u32;
            let d = match self.gsent.get(&m) {
                Some(d) => d.clone(),
                None => wire::gripper_state(m, 0.01 + m as f64 * 1e-6, 0.08 + m as f64 * 1e-7, m % 2 == 0, (m * 7) as u16),
            };
            self.gsent.insert(m, d.clone());
            return d;
        }
        self.st.set_msg(self.msg);
        if self.stamp {
            let m = self.msg as f64;
            let v: Vec<f64> = (0..7).map(|i| m + i as f64 * 0.125).collect();
            self.st.set(st::tau_J, &v);
            self.st.set(st::theta, &v);
            self.st.set(st::F_x_Cee, &[m, -m, 0.5 * m]);
            self.st.set(st::O_F_ext_hat_K, &v[..6]);
        }
        self.sent.insert(self.msg, self.st.clone());
        self.st.b.clone()
    }
    pub fn emit_state(&mut self, k: &mut Kernel) {
        let d = self.make_state();
        if let Some((after, n)) = self.gap {
            self.gap_count = if self.motion.as_ref().map(|m| m.active > 0 && !m.ended).unwrap_or(false) { self.gap_count + 1 } else { 0 };
            if self.gap_count > after && self.gap_count <= after + n {
                return;
            }
        }
        let mut menu: Vec<u32> = vec![0];
        for b in [U_LOSE, U_DUP, U_DELAY, U_TRUNC, U_BURST] {
            if self.udp_menu & b != 0 {
                menu.push(b);
            }
        }
        match menu[k.ch.dev(menu.len())] {
            U_LOSE => {}
            U_DUP => {
                self.send_udp(k, d.clone());
                self.send_udp(k, d);
            }
            U_DELAY => {
                let t = self.tick;
                self.held.push((t + 1, d));
            }
            U_TRUNC => {
                self.truncated += 1;
                let n = d.len() - 1;
                self.send_udp(k, d[..n].to_vec());
            }
            U_BURST => {
                // three states at once, the newest in the middle
                let d2 = self.make_state();
                let d3 = self.make_state();
                self.send_udp(k, d);
                self.send_udp(k, d3);
                self.send_udp(k, d2);
            }
            _ => self.send_udp(k, d),
        }
    }
    fn inject(&mut self, what: &'static str) {
        self.fault_budget = self.fault_budget.saturating_sub(1);
        self.fault = Some((what, self.tick));
        self.injected.push(what);
        self.ev.push(Ev::Note(what));
    }
    /// Sends an unsolicited message.
    pub fn send_raw(&mut self, k: &mut Kernel, b: Vec<u8>, lag: u64) {
        let t = self.tick;
        self.sched(t + lag, TcpEv::Bytes(b));
        self.flush_tcp(k);
    }
    /// Newest whole state in the client's receive queue (0: none).
    pub fn waiting(&self, k: &mut Kernel) -> u64 {
        k.udp_mut()
            .map(|u| u.rx.iter().filter(|d| d.len() == st::SIZE).map(|d| u64::from_le_bytes(d[..8].try_into().unwrap())).max().unwrap_or(0))
            .unwrap_or(0)
    }
    pub fn keepalive_ns(k: &mut Kernel) -> Option<u64> {
        let t = k.tcp_mut()?;
        let get = |l: i32, n: i32| {
            t.opts.iter().rev().find(|o| o.0 == l && o.1 == n).and_then(|o| o.2.get(..4).map(|b| i32::from_le_bytes(b.try_into().unwrap())))
        };
        if get(SOL_SOCKET, SO_KEEPALIVE).unwrap_or(0) == 0 {
            return None;
        }
        let idle = get(IPPROTO_TCP, TCP_KEEPIDLE).unwrap_or(7200) as u64;
        let cnt = get(IPPROTO_TCP, TCP_KEEPCNT).unwrap_or(9) as u64;
        let int = get(IPPROTO_TCP, TCP_KEEPINTVL).unwrap_or(75) as u64;
        Some((idle + cnt * int) * 1000 * MS)
    }
    pub fn cbs(&self, which: u8) -> Vec<(u64, u128)> {
        self.ev.iter().filter_map(|e| if let Ev::Cb(w, m, d) = e { (*w == which).then_some((*m, *d)) } else { None }).collect()
    }
    pub fn cmds(&self) -> Vec<Cmd> {
        self.ev.iter().filter_map(|e| if let Ev::Cmd(c) = e { Some(c.clone()) } else { None }).collect()
    }
    /// Basic sanity of everything the client transmitted: whole, known requests and whole commands.
    pub fn wire_clean(&self) -> Result<(), String> {
        if !self.rx.is_empty() {
            return Err(format!("{} stray bytes on the command connection", self.rx.len()));
        }
        if let Some(Ev::BadCmd(n)) = self.ev.iter().find(|e| matches!(e, Ev::BadCmd(_))) {
            return Err(format!("malformed command datagram of {n} bytes"));
        }
        if self.wrong_dest {
            return Err("a command datagram was sent to an address the robot never used".into());
        }
        Ok(())
    }
}
/// The robot follows a command exactly: new desired values and their finite differences.
pub fn follow(s: &mut State, c: &Cmd, mg: u8, cm: u8) {
    const DT: f64 = 1e-3;
    let fin = |v: &[f64]| v.iter().all(|x| x.is_finite());
    match mg {
        1 if fin(&c.q) => {
            let (q, dq): ([f64; 7], [f64; 7]) = (s.arr(st::q_d), s.arr(st::dq_d));
            let mut v = [0.; 7];
            let mut a = [0.; 7];
            for i in 0..7 {
                v[i] = (c.q[i] - q[i]) / DT;
                a[i] = (v[i] - dq[i]) / DT;
            }
            s.set(st::q_d, &c.q);
            s.set(st::dq_d, &v);
            s.set(st::ddq_d, &a);
        }
        2 if fin(&c.dq) => {
            let (q, dq): ([f64; 7], [f64; 7]) = (s.arr(st::q_d), s.arr(st::dq_d));
            let mut p = [0.; 7];
            let mut a = [0.; 7];
            for i in 0..7 {
                p[i] = q[i] + c.dq[i] * DT;
                a[i] = (c.dq[i] - dq[i]) / DT;
            }
            s.set(st::q_d, &p);
            s.set(st::dq_d, &c.dq);
            s.set(st::ddq_d, &a);
        }
        3 if fin(&c.pose) => {
            let last: [f64; 16] = s.arr(st::O_T_EE_c);
            let lv: [f64; 6] = s.arr(st::O_dP_EE_c);
            let v = crate::geo::twist(&last, &c.pose, DT);
            let mut a = [0.; 6];
            for i in 0..6 {
                a[i] = (v[i] - lv[i]) / DT;
            }
            s.set(st::O_T_EE_c, &c.pose);
            s.set(st::O_dP_EE_c, &v);
            s.set(st::O_ddP_EE_c, &a);
        }
        4 if fin(&c.vel) => {
            let lv: [f64; 6] = s.arr(st::O_dP_EE_c);
            let mut a = [0.; 6];
            for i in 0..6 {
                a[i] = (c.vel[i] - lv[i]) / DT;
            }
            s.set(st::O_dP_EE_c, &c.vel);
            s.set(st::O_ddP_EE_c, &a);
        }
        _ => {}
    }
    if (mg == 3 || mg == 4) && c.valid_elbow && fin(&c.elbow) {
        let (e, de): ([f64; 2], [f64; 2]) = (s.arr(st::elbow_c), s.arr(st::delbow_c));
        let v = (c.elbow[0] - e[0]) / DT;
        s.set(st::ddelbow_c, &[(v - de[0]) / DT, 0.]);
        s.set(st::delbow_c, &[v, 0.]);
        s.set(st::elbow_c, &c.elbow);
    }
    if cm == 2 && fin(&c.tau) {
        s.set(st::tau_J_d, &c.tau);
    }
}
pub struct SimEnv(pub SimRef);
impl Env for SimEnv {
    fn before(&mut self, k: &mut Kernel, c: Call) -> Option<i32> {
        let s = &mut *self.0.borrow_mut();
        if s.faults == 0 || s.fault_budget == 0 || s.force_fault_at.is_some() {
            return None;
        }
        let mut menu: Vec<(&'static str, i32)> = vec![];
        let f = s.faults;
        match c {
            // a send on a blocking socket may wait for buffer space; receives and polls are interrupted
            // where they block (`on_block`)
            Call::TcpSend => {
                if f & X_EINTR != 0 && !k.tcp_mut().map(|t| t.nonblock).unwrap_or(true) {
                    menu.push(("eintr", EINTR));
                }
                if f & X_TCPSEND != 0 {
                    menu.push(("tcp-send", EPIPE));
                    menu.push(("tcp-send", ECONNRESET));
                    menu.push(("tcp-send", ETIMEDOUT));
                }
                if f & X_SHORT != 0 {
                    menu.push(("short", -1));
                    menu.push(("short", -7));
                }
            }
            Call::TcpRecv => {
                if f & X_RST != 0 {
                    menu.push(("tcp-recv", ECONNRESET));
                }
            }
            Call::UdpSend => {
                if f & X_UDPSEND != 0 {
                    menu.push(("udp-send", ENETUNREACH));
                    menu.push(("udp-send", ENOBUFS));
                }
                if f & X_SHORT != 0 && f & X_UDPSEND != 0 {
                    menu.push(("udp-short", -1));
                }
            }
            Call::UdpRecv => {
                if f & X_UDPRECV != 0 {
                    menu.push(("udp-recv", ECONNREFUSED));
                }
            }
            Call::SocketTcp | Call::SocketUdp | Call::Bind | Call::GetSockName | Call::SetSockOpt | Call::EpollCreate | Call::EpollCtl => {
                if f & X_SETUP != 0 {
                    menu.push(("setup", EMFILE));
                }
            }
            Call::Connect => {
                // only a blocking connect is interrupted
                if f & X_EINTR != 0 && !k.tcp_mut().map(|t| t.nonblock).unwrap_or(true) {
                    menu.push(("eintr", EINTR));
                }
            }
            Call::FileOpen | Call::FileUnlink | Call::DlOpen | Call::DlSym => {
                if f & X_FILE != 0 {
                    menu.push(("file", EACCES));
                }
            }
            Call::FileWrite => {
                if f & X_FILE != 0 {
                    menu.push(("file", ENOSPC));
                    menu.push(("file-short", -1));
                }
                if f & X_EINTR != 0 {
                    menu.push(("eintr", EINTR));
                }
            }
            _ => {}
        }
        if menu.is_empty() {
            return None;
        }
        let x = k.ch.dev(menu.len() + 1);
        if x == 0 {
            return None;
        }
        let (name, e) = menu[x - 1];
        s.inject(name);
        if e < 0 {
            s.short_write = Some((-e) as usize);
            return None;
        }
        if name == "eintr" && c == Call::Connect {
            // the connection is nevertheless established
            if let Some(t) = k.tcp_mut() {
                t.connected = true;
            }
        }
        if name == "tcp-send" || name == "tcp-recv" {
            s.lost_reply |= name == "tcp-send" || !s.out.is_empty() || k.tcp_mut().map(|t| !t.rx.is_empty()).unwrap_or(false);
            k.deliver_rst(e);
            if let Some(t) = k.tcp_mut() {
                t.err = None;
            }
        }
        Some(e)
    }
    fn resolve(&mut self, _k: &mut Kernel, _h: &str) -> Result<Vec<Ipv4Addr>, i32> {
        self.0.borrow().resolve.clone()
    }
    fn on_connect(&mut self, _k: &mut Kernel, a: &Addr) -> Result<(), i32> {
        let s = &mut *self.0.borrow_mut();
        s.connects.push(a.clone());
        let want = if s.gripper { 1338 } else { 1337 };
        if a.1 != want {
            return Err(ECONNREFUSED);
        }
        match s.refuse {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    fn on_tcp_send(&mut self, k: &mut Kernel, d: &[u8]) -> Result<usize, i32> {
        let s = &mut *self.0.borrow_mut();
        let n = match s.short_write.take() {
            Some(m) => m.min(d.len()),
            None => d.len(),
        };
        if s.cable.is_some() {
            s.lost_reply = true;
            return Ok(n);
        }
        s.raw.extend_from_slice(&d[..n]);
        s.rx.extend_from_slice(&d[..n]);
        let h = if s.gripper { 10 } else { 12 };
        while s.rx.len() >= h {
            let mut r = wire::Rd::new(&s.rx);
            let (c, id, size) = if s.gripper { (r.u16() as u32, r.u32(), r.u32() as usize) } else { (r.u32(), r.u32(), r.u32() as usize) };
            if size < h || size > 100_000 {
                break; // garbage: stays in rx and is reported by wire_clean
            }
            if s.rx.len() < size {
                break;
            }
            let payload = s.rx[h..size].to_vec();
            s.rx.drain(..size);
            s.on_request(k, Req { cmd: c, id, payload });
        }
        Ok(n)
    }
    fn on_udp_send(&mut self, k: &mut Kernel, d: &[u8], to: Option<Addr>) -> Result<usize, i32> {
        let s = &mut *self.0.borrow_mut();
        if to.as_ref().map(|a| a.0 != SERVER_IP || a.1 != SERVER_UDP_PORT).unwrap_or(true) {
            s.wrong_dest = true;
        }
        if let Some(n) = s.short_write.take() {
            return Ok(d.len() - n.min(d.len()));
        }
        let l = s.waiting(k);
        match parse_cmd(d) {
            Some(c) => {
                s.ev.push(Ev::Cmd(c.clone()));
                s.ev.push(Ev::Look(l));
                s.last_cmd = Some(c);
            }
            None => s.ev.push(Ev::BadCmd(d.len())),
        }
        Ok(d.len())
    }
    fn on_udp_recv(&mut self, _k: &mut Kernel, d: &[u8], cap: usize) {
        let s = &mut *self.0.borrow_mut();
        let whole = if s.gripper { d.len() == wire::GRIPPER_STATE_SIZE } else { d.len() == st::SIZE } && cap >= d.len();
        let m = if s.gripper {
            d.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as u64)
        } else {
            d.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        };
        if let Some(m) = m {
            s.ev.push(Ev::Read(m, whole));
        }
    }
    fn on_block(&mut self, k: &mut Kernel, w: Wait, deadline: Option<u64>) -> Blk {
        let s = &mut *self.0.borrow_mut();
        if s.faults != 0 && s.fault_budget > 0 && w != Wait::Sleep {
            let mut menu: Vec<(u32, &'static str)> = vec![(0, "")];
            for (b, n) in [
                (X_EINTR, "eintr"),
                (X_SILENCE, "silence"),
                (X_FIN, "fin"),
                (X_FINALL, "fin-all"),
                (X_RST, "rst"),
                (X_CABLE, "cable"),
            ] {
                if s.faults & b != 0 {
                    menu.push((b, n));
                }
            }
            let x = match s.force_fault_at {
                Some(t) if s.tick >= t => 1,
                Some(_) => 0,
                None => k.ch.dev(menu.len()),
            };
            if x > 0 {
                s.inject(menu[x].1);
                if menu[x].0 & (X_FIN | X_FINALL | X_RST | X_CABLE) != 0 {
                    s.lost_reply |= !s.out.is_empty() || k.tcp_mut().map(|t| !t.rx.is_empty()).unwrap_or(false);
                }
                match menu[x].0 {
                    X_EINTR => return Blk::Eintr,
                    X_SILENCE => s.silent = true,
                    X_FIN => {
                        s.out.clear();
                        k.deliver_fin();
                        return Blk::Progress;
                    }
                    X_FINALL => {
                        s.silent = true;
                        s.out.clear();
                        k.deliver_fin();
                        return Blk::Progress;
                    }
                    X_RST => {
                        s.silent = true;
                        s.out.clear();
                        k.deliver_rst(ECONNRESET);
                        return Blk::Progress;
                    }
                    _ => {
                        s.silent = true;
                        s.out.clear();
                        s.cable = Some(k.now);
                    }
                }
            }
        }
        if let Some(t) = s.cable {
            // nothing arrives any more; only keep-alive can notice
            if let Some(ka) = Sim::keepalive_ns(k) {
                let at = t + ka;
                let dead = k.tcp_mut().map(|t| t.dead).unwrap_or(true);
                if !dead && deadline.map(|d| at <= d).unwrap_or(true) {
                    k.now = k.now.max(at);
                    k.deliver_rst(ETIMEDOUT);
                    return Blk::Progress;
                }
            }
            return Blk::Timeout;
        }
        // waits shorter than a tick add up
        let next = k.now + MS - s.waited.min(MS);
        if let Some(d) = deadline {
            if d < next {
                s.waited += d.saturating_sub(k.now);
                return Blk::Timeout;
            }
        }
        s.waited = 0;
        let quiet = s.silent || !s.emit;
        let m_run = s.motion.as_ref().map(|m| !m.ended).unwrap_or(false);
        let forced = s.force_fault_at.is_some() && s.fault_budget > 0;
        if quiet && s.out.is_empty() && s.held.is_empty() && !m_run && !forced {
            return Blk::Timeout;
        }
        k.now = next;
        s.do_tick(k);
        Blk::Progress
    }
    fn on_close(&mut self, _k: &mut Kernel, tcp: bool) {
        let s = &mut *self.0.borrow_mut();
        if tcp {
            s.tcp_closed += 1;
        } else {
            s.udp_closed += 1;
        }
    }
    fn file_write_len(&mut self, _k: &mut Kernel, len: usize) -> Result<usize, i32> {
        let s = &mut *self.0.borrow_mut();
        if let Some(n) = s.short_write.take() {
            return Ok((len / 2).max(n).min(len));
        }
        if let Some(a) = s.file_err_after.as_mut() {
            if *a == 0 {
                return Err(ENOSPC);
            }
            let n = len.min(*a);
            *a -= n;
            return Ok(n);
        }
        Ok(match s.file_chunk {
            Some(c) => c.min(len),
            None => len,
        })
    }
    fn rt_call(&mut self, _k: &mut Kernel, n: &'static str, a: &[i64]) -> Result<i64, i32> {
        let s = &mut *self.0.borrow_mut();
        s.ev.push(Ev::Note(match n {
            "mlockall" => "rt:mlockall",
            "setsched" => "rt:setsched",
            _ => "rt:prio",
        }));
        (s.rt)(n, a)
    }
    fn dl_sym_missing(&mut self, _k: &mut Kernel, n: &str) -> bool {
        self.0.borrow().missing_symbol.as_deref() == Some(n)
    }
}
