//! Runs one of the nine control calls with scripted callbacks and records what they see.
use super::util::*;
use crate::explore::{checked, guarded};
use crate::sim::{Ev, Sim, SimRef};
use crate::wire::{self, cmd, compare, Cmd, Req, Wr};
use franka::exception::FrankaException;
use franka::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub const KINDS: usize = 9;
pub const NAMES: [&str; 9] = [
    "joint_positions", "joint_velocities", "cartesian_pose", "cartesian_velocities", "torques_and_joint_velocities",
    "torques_and_joint_positions", "torques_and_cartesian_pose", "torques_and_cartesian_velocities", "torques",
];
/// Values returned by the callbacks in one cycle.
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub vel: [f64; 6],
    pub elbow: Option<[f64; 2]>,
    pub tau: [f64; 7],
}
impl Default for Out {
    fn default() -> Out {
        Out { q: [0.; 7], dq: [0.; 7], pose: wire::IDENTITY, vel: [0.; 6], elbow: None, tau: [0.; 7] }
    }
}
/// Distinguishable valid values for cycle `c`.
pub fn distinct(c: usize) -> Out {
    let mut o = Out::default();
    let x = c as f64 + 1.;
    for i in 0..7 {
        o.q[i] = 0.1 * x + i as f64 + 0.25;
        o.dq[i] = -0.01 * x - 0.5 * i as f64;
        o.tau[i] = 3. * x + 0.125 * i as f64;
    }
    for i in 0..6 {
        o.vel[i] = 0.02 * x + 0.3 * i as f64;
    }
    let r = crate::geo::rot(&[1., 2., -0.5], 0.1 * x);
    for col in 0..3 {
        for row in 0..3 {
            o.pose[col * 4 + row] = r[row][col];
        }
    }
    o.pose[12] = 0.3 + 0.01 * x;
    o.pose[13] = -0.2 - 0.02 * x;
    o.pose[14] = 0.5 + 0.03 * x;
    o
}
#[derive(Clone)]
pub struct Spec {
    pub kind: usize,
    /// 0: default argument, 1: joint impedance, 2: Cartesian impedance
    pub mode: usize,
    pub limit: Option<bool>,
    pub cutoff: Option<f64>,
    /// the callback that ends the motion does so in its `cycles`-th invocation
    pub cycles: usize,
    /// torque calls: which callback signals completion (0 motion, 1 torque, 2 both)
    pub finisher: usize,
    pub elbow: bool,
    /// check every given state against the datagram it came from
    pub compare: bool,
}
impl Spec {
    pub fn new(kind: usize, cycles: usize) -> Spec {
        Spec { kind, mode: 0, limit: Some(false), cutoff: Some(MAX_CUTOFF_FREQUENCY), cycles, finisher: 0, elbow: false, compare: true }
    }
    pub fn torque(&self) -> bool {
        self.kind >= 4
    }
    /// motion generator reported by the robot (1 q, 2 dq, 3 pose, 4 velocity)
    pub fn mg(&self) -> u8 {
        [1, 2, 3, 4, 2, 1, 3, 4, 2][self.kind]
    }
    pub fn cm(&self) -> u8 {
        match (self.torque(), self.mode) {
            (true, _) => 2,
            (_, 2) => 1,
            _ => 0,
        }
    }
    pub fn move_payload(&self) -> Vec<u8> {
        let dev = [10., 3.12, 2. * std::f64::consts::PI];
        Wr(vec![]).u32(self.cm() as u32).u32(self.mg() as u32 - 1).f(&dev).f(&dev).0
    }
    pub fn has_elbow(&self) -> bool {
        self.elbow && (self.mg() == 3 || self.mg() == 4)
    }
    /// The command datagram that transmits `o` unaltered.
    pub fn image(&self, o: &Out, tau: Option<&[f64; 7]>) -> Cmd {
        let mut c = Cmd {
            msg: 0,
            q: [0.; 7],
            dq: [0.; 7],
            pose: [0.; 16],
            vel: [0.; 6],
            elbow: [0.; 2],
            valid_elbow: false,
            finished: false,
            tau: [0.; 7],
        };
        if self.kind != 8 {
            match self.mg() {
                1 => c.q = o.q,
                2 => c.dq = o.dq,
                3 => c.pose = o.pose,
                _ => c.vel = o.vel,
            }
        }
        if let (true, Some(e)) = (self.mg() >= 3, o.elbow) {
            c.valid_elbow = true;
            c.elbow = e;
        }
        if let Some(t) = tau {
            c.tau = *t;
        }
        c
    }
}
pub type Gen = Rc<RefCell<dyn FnMut(usize, &RobotState) -> Out>>;
/// What the callbacks returned and saw, in order.
#[derive(Default)]
pub struct Log {
    /// (cycle, values, finished)
    pub motion: Vec<(Out, bool)>,
    pub torque: Vec<([f64; 7], bool)>,
    pub problems: Vec<String>,
    pub after_finish: bool,
    finished: bool,
}
/// Called by every callback: records the event and checks the state.
fn seen(s: &SimRef, log: &RefCell<Log>, which: u8, st: &RobotState, dt: &Duration, cmp: bool) {
    let msg = st.time.as_millis() as u64;
    let mut sim = s.borrow_mut();
    sim.ev.push(Ev::Cb(which, msg, dt.as_nanos()));
    if cmp {
        match sim.sent.get(&msg) {
            Some(d) => {
                if let Err(e) = compare(st, d) {
                    log.borrow_mut().problems.push(e);
                }
            }
            None => log.borrow_mut().problems.push(format!("a callback got a state with number {msg}, which the robot never sent")),
        }
        checked(1);
    }
}
pub fn run(r: &mut Robot, s: &SimRef, sp: &Spec, gen: &Gen, log: &Rc<RefCell<Log>>) -> Result<Result<(), FrankaException>, String> {
    run_sleep(r, s, sp, gen, log, &mut |_| 0)
}
/// `pause(cycle)`: milliseconds the motion (or only) callback takes in that cycle.
pub fn run_sleep(
    r: &mut Robot,
    s: &SimRef,
    sp: &Spec,
    gen: &Gen,
    log: &Rc<RefCell<Log>>,
    pause: &mut dyn FnMut(usize) -> u64,
) -> Result<Result<(), FrankaException>, String> {
    *log.borrow_mut() = Log::default();
    let mut mc = 0usize;
    let mut tc = 0usize;
    let cur: Rc<RefCell<Out>> = Rc::new(RefCell::new(Out::default()));
    let single = sp.kind == 8;
    let pause = RefCell::new(pause);
    let (mfin, tfin) = (!sp.torque() || (!single && sp.finisher != 1), sp.torque() && (single || sp.finisher != 0));
    let mut motion = |st: &RobotState, dt: &Duration| -> (Out, bool) {
        seen(s, log, 0, st, dt, sp.compare);
        let p = (pause.borrow_mut())(mc);
        if p > 0 {
            std::thread::sleep(Duration::from_millis(p));
        }
        let mut o = (gen.borrow_mut())(mc, st);
        if sp.elbow && o.elbow.is_none() {
            o.elbow = Some([0.1 + 0.01 * mc as f64, -1.]);
        }
        mc += 1;
        let fin = mfin && mc >= sp.cycles;
        let mut l = log.borrow_mut();
        if l.finished && l.motion.len() >= l.torque.len() {
            l.after_finish = true;
        }
        l.finished |= fin;
        l.motion.push((o.clone(), fin));
        *cur.borrow_mut() = o.clone();
        (o, fin)
    };
    let mut torque = |st: &RobotState, dt: &Duration| -> Torques {
        seen(s, log, 1, st, dt, sp.compare);
        if single {
            let p = (pause.borrow_mut())(tc);
            if p > 0 {
                std::thread::sleep(Duration::from_millis(p));
            }
            let o = (gen.borrow_mut())(tc, st);
            *cur.borrow_mut() = o;
        }
        tc += 1;
        let tau = cur.borrow().tau;
        let fin = tfin && tc >= sp.cycles;
        let mut l = log.borrow_mut();
        if l.finished && l.torque.len() >= l.motion.len() {
            l.after_finish = true;
        }
        l.finished |= fin;
        l.torque.push((tau, fin));
        let t = Torques::new(tau);
        if fin {
            t.motion_finished()
        } else {
            t
        }
    };
    fn f<T: MotionFinished>(t: T, fin: bool) -> T {
        if fin {
            t.motion_finished()
        } else {
            t
        }
    }
    let mode = match sp.mode {
        1 => Some(ControllerMode::JointImpedance),
        2 => Some(ControllerMode::CartesianImpedance),
        _ => None,
    };
    let (lim, cut) = (sp.limit, sp.cutoff);
    let kind = sp.kind;
    guarded(|| {
        let jp = |(o, x): (Out, bool)| f(JointPositions::new(o.q), x);
        let jv = |(o, x): (Out, bool)| f(JointVelocities::new(o.dq), x);
        let cp = |(o, x): (Out, bool)| f(CartesianPose::new(o.pose, o.elbow), x);
        let cv = |(o, x): (Out, bool)| f(CartesianVelocities::new(o.vel, o.elbow), x);
        match kind {
            0 => r.control_joint_positions(|a, b| jp(motion(a, b)), mode, lim, cut),
            1 => r.control_joint_velocities(|a, b| jv(motion(a, b)), mode, lim, cut),
            2 => r.control_cartesian_pose(|a, b| cp(motion(a, b)), mode, lim, cut),
            3 => r.control_cartesian_velocities(|a, b| cv(motion(a, b)), mode, lim, cut),
            4 => r.control_torques_and_joint_velocities(&mut torque, |a, b| jv(motion(a, b)), lim, cut),
            5 => r.control_torques_and_joint_positions(&mut torque, |a, b| jp(motion(a, b)), lim, cut),
            6 => r.control_torques_and_cartesian_pose(&mut torque, |a, b| cp(motion(a, b)), lim, cut),
            7 => r.control_torques_and_cartesian_velocities(&mut torque, |a, b| cv(motion(a, b)), lim, cut),
            _ => r.control_torques(&mut torque, lim, cut),
        }
    })
}
pub fn gen(f: impl FnMut(usize, &RobotState) -> Out + 'static) -> Gen {
    Rc::new(RefCell::new(f))
}
pub fn new_log() -> Rc<RefCell<Log>> {
    Rc::new(RefCell::new(Log::default()))
}
fn same(a: &Cmd, b: &Cmd) -> bool {
    let v = |c: &Cmd| -> Vec<u64> {
        c.q.iter().chain(&c.dq).chain(&c.pose).chain(&c.vel).chain(&c.elbow).chain(&c.tau).map(|x| x.to_bits()).collect()
    };
    // zeros of either sign are zero
    let z = |x: u64| if x == 0x8000_0000_0000_0000 { 0 } else { x };
    a.valid_elbow == b.valid_elbow && v(a).into_iter().zip(v(b)).all(|(x, y)| z(x) == z(y))
}
pub fn same_cmd(a: &Cmd, b: &Cmd) -> R<()> {
    if same(a, b) {
        return Ok(());
    }
    for (n, x, y) in [
        ("joint positions", &a.q[..], &b.q[..]),
        ("joint velocities", &a.dq[..], &b.dq[..]),
        ("pose", &a.pose[..], &b.pose[..]),
        ("Cartesian velocity", &a.vel[..], &b.vel[..]),
        ("elbow", &a.elbow[..], &b.elbow[..]),
        ("torques", &a.tau[..], &b.tau[..]),
    ] {
        if x.iter().zip(y).any(|(p, q)| p.to_bits() != q.to_bits() && !(*p == 0. && *q == 0.)) {
            return Err(format!("transmitted {n} {x:?}, expected {y:?}"));
        }
    }
    Err(format!("elbow validity {} transmitted, expected {}", a.valid_elbow, b.valid_elbow))
}
/// What ended the call, from the robot's point of view.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    /// must have finished and been confirmed
    Success,
    /// aborted or failed by the environment
    Other,
}
/// Checks the event trace of one control call (events and requests from the given indices on).
/// `bitexact`: commands must transmit the callback values unaltered.
pub fn check_trace(s: &Sim, ev0: usize, req0: usize, sp: &Spec, log: &Log, end: End, bitexact: bool) -> R<Vec<Cmd>> {
    if let Some(p) = log.problems.first() {
        return Err(p.clone());
    }
    if log.after_finish {
        return Err("a callback was invoked after it had signalled completion".into());
    }
    // the request
    let moves: Vec<&Req> = s.reqs[req0..].iter().filter(|r| r.cmd == cmd::MOVE).collect();
    ensure(moves.len() == 1 && s.reqs.get(req0).map(|r| r.cmd) == Some(cmd::MOVE), || {
        format!("{}: {} Move requests sent, expected one as the first request", NAMES[sp.kind], moves.len())
    })?;
    ensure(moves[0].payload == sp.move_payload(), || format!("{}: wrong Move request {:?}", NAMES[sp.kind], moves[0].payload))?;
    let mut newest = s.ev[..ev0].iter().filter_map(|e| if let Ev::Read(m, true) = e { Some(*m) } else { None }).max().unwrap_or(0);
    let mut requested = false;
    let mut cb: Option<u64> = None; // message number of the running cycle
    let mut cycle_cmd = true; // the running cycle has been answered
    let mut prev: Option<u64> = None; // message number of the previous cycle
    let (mut mi, mut ti) = (0usize, 0usize);
    let mut fin = false;
    let mut last: Option<Cmd> = None;
    let mut out = vec![];
    let mut ended_seen = false;
    let mut look = 0u64;
    let mut cbs_in_cycle = [false; 2];
    for e in &s.ev[ev0..] {
        match e {
            Ev::Req(i) => {
                if s.reqs[*i].cmd == cmd::MOVE {
                    requested = true;
                }
            }
            Ev::Read(m, whole) => {
                if *whole && *m > newest {
                    newest = *m;
                    let st = &s.sent[m];
                    // a finished motion has ended when neither a motion generator nor an external controller runs
                    let over = if fin { st.mg() == 0 && st.cm() != 2 } else { !(st.mg() == sp.mg() && st.cm() == sp.cm() && st.rm() == wire::RM_MOVE) };
                    if cb.is_some() && over {
                        ended_seen = true;
                    }
                }
            }
            Ev::Look(m) => look = look.max(*m),
            Ev::Cb(w, m, dt) => {
                ensure(*m >= look, || format!("callback got state {m} although state {look} was already waiting"))?;
                ensure(requested, || "callback before the motion was requested".into())?;
                ensure(!ended_seen, || "callback after the motion had visibly ended".into())?;
                let st = s.sent.get(m).ok_or("unknown state in callback")?;
                ensure(st.mg() == sp.mg() && st.cm() == sp.cm() && st.rm() == wire::RM_MOVE, || {
                    format!("callback invoked with a state that does not report the requested motion (modes {}/{}/{})", st.mg(), st.cm(), st.rm())
                })?;
                if cb != Some(*m) {
                    ensure(cycle_cmd, || "a control cycle ended without a command".into())?;
                    ensure(!fin, || "a new control cycle after completion".into())?;
                    prev = cb;
                    cb = Some(*m);
                    cycle_cmd = false;
                    cbs_in_cycle = [false; 2];
                    ensure(*m == newest, || format!("callback got state {m} although {newest} had been received"))?;
                } else {
                    ensure(!cycle_cmd, || "a callback was invoked again with the same state".into())?;
                }
                ensure(!cbs_in_cycle[*w as usize], || "a callback was invoked twice in one cycle".into())?;
                cbs_in_cycle[*w as usize] = true;
                let want = prev.map(|p| (*m - p) as u128 * 1_000_000).unwrap_or(0);
                ensure(*dt == want, || format!("callback time step is {dt} ns, the states are {want} ns apart"))?;
                if *w == 0 {
                    fin |= log.motion.get(mi).map(|x| x.1).unwrap_or(false);
                    mi += 1;
                } else {
                    fin |= log.torque.get(ti).map(|x| x.1).unwrap_or(false);
                    ti += 1;
                }
                checked(2);
            }
            Ev::Cmd(c) => {
                let m = cb.ok_or("a motion command was sent before any callback")?;
                ensure(!ended_seen, || "a motion command was sent after the end of the motion was visible".into())?;
                ensure(c.msg == newest, || format!("command carries message number {}, the newest state is {newest}", c.msg))?;
                if let Some(l) = out.last() {
                    let l: &Cmd = l;
                    ensure(c.msg > l.msg, || format!("two commands for state {}", c.msg))?;
                }
                ensure(c.finished == fin, || {
                    format!("command for state {} has the finished flag {} but completion was {}signalled", c.msg, c.finished, if fin { "" } else { "not " })
                })?;
                if !cycle_cmd {
                    ensure(c.msg == m, || format!("command carries message number {} but the callback got state {m}", c.msg))?;
                    cycle_cmd = true;
                    if !fin {
                        ensure(sp.kind == 8 || cbs_in_cycle[0], || "command without a motion callback in its cycle".into())?;
                        ensure(!sp.torque() || cbs_in_cycle[1], || "command without a torque callback in its cycle".into())?;
                    }
                    if bitexact {
                        let dflt = Out::default();
                        let o = if sp.kind == 8 || mi == 0 { &dflt } else { &log.motion[mi - 1].0 };
                        let tau = if sp.torque() && ti > 0 { Some(&log.torque[ti - 1].0) } else { None };
                        same_cmd(c, &sp.image(o, tau)).map_err(|e| format!("{} cycle {mi}: {e}", NAMES[sp.kind]))?;
                    }
                    last = Some(c.clone());
                } else {
                    ensure(fin, || "more than one command in a control cycle".into())?;
                    if let Some(l) = &last {
                        same_cmd(c, l).map_err(|e| format!("the last command is not repeated unchanged while finishing: {e}"))?;
                    }
                }
                out.push(c.clone());
                checked(3);
            }
            _ => {}
        }
    }
    if end == End::Success {
        ensure(fin, || "Ok although no callback signalled completion".into())?;
        ensure(cycle_cmd, || "the final command was never sent".into())?;
        ensure(ended_seen, || "Ok before the robot reported the end of the motion".into())?;
        ensure(out.last().map(|c| c.finished).unwrap_or(false), || "no finished command was sent".into())?;
    }
    Ok(out)
}
/// Ids of the requests after `from`.
pub fn kinds_of(s: &Sim, from: usize) -> Vec<u32> {
    s.reqs[from..].iter().map(|r| r.cmd).collect()
}
