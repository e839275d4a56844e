//! Runs one control call whose states are prescribed cycle by cycle, so that every control cycle is
//! one enumerated case, or whose robot tracks the commands (closed loop).
use super::ctl::*;
use super::util::*;
use crate::explore::count;
use crate::geo;
use crate::sim::*;
use crate::wire::{st, Cmd, State};
use franka::RobotState;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone)]
pub struct Step {
    pub st: State,
    pub out: Out,
    pub tau: [f64; 7],
    pub cmd: Cmd,
}
/// Open loop: `inject(k, state)` prepares the state of case `k`, `outs(k, state)` is what the callbacks
/// return for it.  The call must succeed and its trace must follow the protocol.
pub fn open_loop(
    sp: &Spec,
    inject: impl FnMut(usize, &mut State) + 'static,
    outs: impl FnMut(usize, &RobotState) -> Out + 'static,
    bitexact: bool,
) -> R<Vec<Step>> {
    let mut sim = robot_sim();
    sim.track = false;
    // the control period the callback sees must not matter
    sim.strides = vec![1, 1, 2, 1, 3, 1, 1, 10, 1, 1, 60, 1, 2];
    let started = Rc::new(Cell::new(false));
    let next = Rc::new(Cell::new(0usize));
    let (st2, nx2) = (started.clone(), next.clone());
    let mut inject = inject;
    let n = sp.cycles;
    sim.hook = Some(Box::new(move |s, v| {
        if v.motion.is_none() {
            return;
        }
        if st2.get() && nx2.get() + 1 < n {
            nx2.set(nx2.get() + 1);
        }
        inject(nx2.get(), s);
    }));
    let s = sim.install();
    let mut outs = outs;
    let g = gen(move |_, stt| {
        started.set(true);
        outs(next.get(), stt)
    });
    finish(sp, s, g, bitexact)
}
/// Closed loop: the robot starts in `init` and follows every command.
pub fn closed_loop(sp: &Spec, init: impl FnOnce(&mut State), outs: impl FnMut(usize, &RobotState) -> Out + 'static) -> R<Vec<Step>> {
    let mut sim = robot_sim();
    init(&mut sim.st);
    let s = sim.install();
    finish(sp, s, gen(outs), false)
}
fn finish(sp: &Spec, s: SimRef, g: Gen, bitexact: bool) -> R<Vec<Step>> {
    let mut r = connect(&s)?;
    look(&s);
    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
    let log = new_log();
    let rs = res(&run(&mut r, &s, sp, &g, &log));
    if rs != Res::Ok {
        return Err(format!("{}: cycle {}: {rs:?}, values {:?}", NAMES[sp.kind], log.borrow().motion.len().max(log.borrow().torque.len()), last_values(sp, &log)));
    }
    let v = {
        let sm = s.borrow();
        let cmds = check_trace(&sm, e0, r0, sp, &log.borrow(), End::Success, bitexact)?;
        let l = log.borrow();
        let mut msgs: Vec<u64> = vec![];
        for e in &sm.ev[e0..] {
            if let Ev::Cb(_, m, _) = e {
                if msgs.last() != Some(m) {
                    msgs.push(*m);
                }
            }
        }
        let mut v = vec![];
        for (i, m) in msgs.iter().enumerate() {
            let cmd = cmds.iter().find(|c| c.msg == *m).ok_or("a cycle without command")?.clone();
            let out = if sp.kind == 8 { Out { tau: l.torque[i].0, ..Default::default() } } else { l.motion[i].0.clone() };
            let tau = l.torque.get(i).map(|t| t.0).unwrap_or([0.; 7]);
            v.push(Step { st: sm.sent[m].clone(), out, tau, cmd });
        }
        v
    };
    ensure(v.len() == sp.cycles, || format!("{}: {} control cycles, expected {}", NAMES[sp.kind], v.len(), sp.cycles))?;
    drop(r);
    count(v.len() as u64);
    Ok(v)
}
fn last_values(sp: &Spec, log: &Rc<RefCell<Log>>) -> String {
    let l = log.borrow();
    let m = l.motion.last().map(|m| match sp.mg() {
        1 => format!("{:?}", m.0.q),
        2 => format!("{:?}", m.0.dq),
        3 => format!("{:?} {:?}", m.0.pose, m.0.elbow),
        _ => format!("{:?} {:?}", m.0.vel, m.0.elbow),
    });
    format!("{m:?} {:?}", l.torque.last())
}
/// A motion spec whose last cycle runs both callbacks.
pub fn spec(kind: usize, cycles: usize, limit: Option<bool>, cutoff: Option<f64>) -> Spec {
    let mut sp = Spec::new(kind, cycles);
    sp.finisher = 1;
    sp.limit = limit;
    sp.cutoff = cutoff;
    sp.compare = false;
    sp
}
/// A state whose fields all differ from each other and between cases; poses are valid rotations.
pub fn paint(s: &mut State, seed: usize) {
    let (mg, cm, rm) = (s.mg(), s.cm(), s.rm());
    let mut i = 0;
    for f in st::ALL {
        let v: Vec<f64> = (0..f.n)
            .map(|_| {
                i += 1;
                (((seed * 37 + i * 11) % 101) as f64 - 50.) * 0.013 + i as f64 * 1e-5
            })
            .collect();
        s.set(*f, &v);
    }
    let ax = [[1., 2., 3.], [-1., 0.5, 0.2], [0., -1., 1.], [0.3, 0.3, -1.]];
    for (k, f) in [st::O_T_EE, st::O_T_EE_d, st::F_T_EE, st::EE_T_K, st::F_T_NE, st::NE_T_EE, st::O_T_EE_c].iter().enumerate() {
        let p = geo::pose(&geo::rot(&ax[(k + seed) % 4], 0.4 * (k + seed) as f64), &[0.1 * k as f64, 0.01 * seed as f64, -0.2]);
        s.set(*f, &p);
    }
    for f in [st::elbow, st::elbow_d, st::elbow_c] {
        let e: [f64; 2] = s.arr(f);
        s.set(f, &[e[0], -1.]);
    }
    s.set_modes(mg, cm, rm);
}
pub fn tiny(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
