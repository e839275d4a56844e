//! C06 motion protocol, C07 aborts, C08 reuse of a connection.
use super::ctl::*;
use super::services::Op;
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, RunResult, Space};
use crate::sim::*;
use crate::wire::{self, cmd, error_text};
use crate::Tier;
use franka::exception::FrankaException;
use franka::Robot;

pub fn move_keywords(status: u8) -> &'static [&'static str] {
    match status {
        MV_PREEMPTED => &["preempt"],
        MV_NOT_POSSIBLE => &["not possible"],
        MV_SINGULAR => &["singular"],
        MV_INVALID => &["deviation", "invalid arg"],
        MV_REFLEX => &["reflex", "still moving"],
        MV_EMERGENCY => &["user stop"],
        MV_INPUT => &["invalid input"],
        _ => &["aborted"],
    }
}
/// The texts that would identify another status.
fn foreign(status: u8, msg: &str) -> bool {
    (2u8..=8).filter(|s| *s != status).any(|s| move_keywords(s).iter().any(|k| msg.contains(k)))
}
pub fn names_status(status: u8, msg: &str) -> R<()> {
    // the names of reflex flags may contain any word: look at the text before them only
    let head = lower(msg.split('[').next().unwrap_or(""));
    ensure(move_keywords(status).iter().any(|k| head.contains(k)), || format!("the error text {msg:?} does not name Move status {status}"))?;
    ensure(!foreign(status, &head), || format!("the error text {msg:?} names a status other than {status}"))
}
/// Runs a control call that must succeed and checks its whole trace.
pub fn good_motion(r: &mut Robot, s: &SimRef, sp: &Spec) -> R<Dig> {
    good_motion_sleep(r, s, sp, &mut |_| 0)
}
pub fn good_motion_sleep(r: &mut Robot, s: &SimRef, sp: &Spec, pause: &mut dyn FnMut(usize) -> u64) -> R<Dig> {
    look(s);
    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
    let log = new_log();
    let g = gen(|c, _| distinct(c));
    let out = run_sleep(r, s, sp, &g, &log, pause);
    let rs = res(&out);
    let sm = s.borrow();
    if rs != Res::Ok {
        return Err(format!("{}: the motion was carried out by the robot but the call returned {rs:?}", NAMES[sp.kind]));
    }
    let exact = sp.limit == Some(false) && sp.cutoff.map(|c| c >= franka::MAX_CUTOFF_FREQUENCY).unwrap_or(false);
    let cmds = check_trace(&sm, e0, r0, sp, &log.borrow(), End::Success, exact)?;
    let k = kinds_of(&sm, r0);
    ensure(k == [cmd::MOVE], || format!("requests {k:?} sent during a plain motion"))?;
    let l = log.borrow();
    let n = if sp.kind == 8 || (sp.torque() && sp.finisher == 1) { l.torque.len() } else { l.motion.len() };
    ensure(n == sp.cycles, || format!("the callback ran {n} times, it signalled completion in run {}", sp.cycles))?;
    let mut d = Dig::new();
    d.u(sp.kind as u64).u(cmds.len() as u64).u(l.motion.len() as u64).u(l.torque.len() as u64);
    checked(3);
    Ok(d)
}
/// Without any loss: every state from the first callback to the end of the motion was answered by a command.
fn answered(s: &Sim, e0: usize) -> R<()> {
    let mut due: Option<u64> = None;
    let mut on = false;
    for e in &s.ev[e0..] {
        match e {
            Ev::Cb(_, m, _) => {
                on = true;
                due = Some(*m);
            }
            Ev::Cmd(c) if due == Some(c.msg) => due = None,
            Ev::Read(m, true) if on => {
                ensure(due.is_none(), || format!("state {} was not answered by a command", due.unwrap_or(0)))?;
                let st = &s.sent[m];
                if st.mg() == 0 && st.cm() != 2 {
                    return Ok(());
                }
                due = Some(*m);
            }
            _ => {}
        }
    }
    Err("the end of the motion was never received".into())
}
fn c06(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space(
            "c06-timing",
            0,
            "nine control calls x controller argument x 1..4 cycles x completing callback x start reply/state latency x finish latency x order of final reply and state",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 1 + pick(if q { 3 } else { 5 }));
                if sp.torque() {
                    sp.finisher = if kind == 8 { 1 } else { pick(3) };
                } else {
                    sp.mode = pick(3);
                }
                sp.elbow = sp.mg() >= 3 && pick(2) == 1;
                let mut sim = robot_sim();
                let mut p = Plan { start_state_lag: 1 + pick(3) as u64, start_reply_lag: [0, 1, 4][pick(3)], ..Default::default() };
                p.finish_lag = 1 + pick(3) as u64;
                match pick(5) {
                    0 => {}
                    1 => p.final_reply_lag = 1,
                    2 => p.final_reply_lag = 30,
                    3 => p.final_state_lag = 1,
                    _ => p.final_state_lag = 3,
                }
                sim.plans.push_back(p);
                let s = sim.install();
                let mut r = connect(&s)?;
                let d = good_motion(&mut r, &s, &sp)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space(
            "c06-activation",
            0,
            "nine control calls x every sequence of partly activated states (motion generator mode x controller mode x robot mode, anything but the requested motion) between the Move reply and the active motion",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 2);
                sp.finisher = (kind == 8) as usize;
                let n = 1 + pick(2);
                let mut prelude = vec![];
                for i in 0..n {
                    let c = pick(if i == 0 || !q { 20 } else { 5 }) as u8;
                    let (mg, cm) = if i == 0 || !q { (c / 4, c % 4) } else { [(0, 3), (sp.mg(), 3), (0, sp.cm()), (sp.mg(), (sp.cm() + 1) % 3), (sp.mg() % 4 + 1, sp.cm())][c as usize] };
                    if (mg, cm) == (sp.mg(), sp.cm()) {
                        return Ok(0);
                    }
                    prelude.push((mg, cm, [wire::RM_IDLE, wire::RM_MOVE][pick(2)]));
                }
                let mut sim = robot_sim();
                sim.plans.push_back(Plan { start_state_lag: 1 + n as u64, prelude, ..Default::default() });
                let s = sim.install();
                let mut r = connect(&s)?;
                let d = good_motion(&mut r, &s, &sp)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space(
            "c06-ending",
            0,
            "nine control calls x every sequence of up to three states in which the finished motion is only partly over (motion generator still active with any controller mode, or none with the external controller) x when the final reply comes: the finished command is repeated for every one of them",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 2);
                sp.finisher = if kind == 8 { 1 } else if sp.torque() { pick(2) } else { 0 };
                let n = 1 + pick(3);
                let mut fade = vec![];
                for _ in 0..n {
                    let (mg, cm) = [(sp.mg(), 3), (0, 2), (sp.mg(), sp.cm()), (sp.mg(), (sp.cm() + 1) % 3), (sp.mg() % 4 + 1, sp.cm())][pick(5)];
                    fade.push((mg, cm, [wire::RM_MOVE, wire::RM_IDLE][pick(2)]));
                }
                let early_reply = [u64::MAX, 0, n as u64 - 1][pick(if n > 1 { 3 } else { 2 })];
                let mut sim = robot_sim();
                sim.plans.push_back(Plan { fade, early_reply, ..Default::default() });
                let s = sim.install();
                let mut r = connect(&s)?;
                let e0 = s.borrow().ev.len();
                let mut d = good_motion(&mut r, &s, &sp)?;
                answered(&s.borrow(), e0)?;
                d.u(good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?.0);
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space("c06-gaps", 0, "nine control calls x 1 to 900 states in a row lost before the second, third or fourth cycle: the time step is the whole gap", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 5);
            sp.finisher = (kind == 8) as usize;
            let after = 1 + pick(3) as u64;
            let n = [1u64, 2, 3, 5, 9, 10, 19, 20, 21, 49, 50, 51, 63, 64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 499, 500, 501, 700, 900][pick(28)];
            let mut sim = robot_sim();
            sim.gap = Some((after, n));
            let s = sim.install();
            let mut r = connect(&s)?;
            let d = good_motion(&mut r, &s, &sp)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space(
            "c06-datagrams",
            if q { 3 } else { 4 },
            "nine control calls, every pattern of lost, duplicated, delayed and bursty states within the bound, slow callbacks (0..3 ms) as further deviations",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 3);
                sp.finisher = if kind == 8 { 1 } else { 0 };
                let mut sim = robot_sim();
                sim.udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST;
                let s = sim.install();
                let mut r = connect(&s)?;
                let d = good_motion_sleep(&mut r, &s, &sp, &mut |_| [0, 1, 3][crate::explore::dev(3)])?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space("c06-slow", 0, "nine control calls on a slow robot: 20 to 4000 states pass before the Move reply, the activation, the end of the finished motion or its final reply", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 3);
            sp.finisher = (kind == 8) as usize;
            let n = [20u64, 60, 120, 260, 1100, 4000][pick(6)];
            let mut p = Plan::default();
            match pick(7) {
                0 => p.start_reply_lag = n,
                1 => p.start_state_lag = n,
                2 => p.finish_lag = n,
                3 => p.final_reply_lag = n,
                4 => p.final_state_lag = n,
                5 => p.fade = vec![(sp.mg(), sp.cm(), wire::RM_MOVE); n as usize],
                _ => {
                    p.start_state_lag = n + 1;
                    p.prelude = vec![(0, sp.cm(), wire::RM_IDLE); n as usize];
                }
            }
            let mut sim = robot_sim();
            sim.plans.push_back(p);
            let s = sim.install();
            let mut r = connect(&s)?;
            let e0 = s.borrow().ev.len();
            let mut d = good_motion(&mut r, &s, &sp)?;
            answered(&s.borrow(), e0)?;
            d.u(good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?.0);
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c06-long", 0, "nine control calls of 5000 cycles, from message numbers below, around and beyond 16 and 32 bit boundaries", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 5000);
            sp.finisher = (kind == 8) as usize;
            let mut sim = robot_sim();
            sim.msg = [0, (1 << 16) - 2500, (1 << 31) - 2500, (1 << 32) - 2500, (1 << 53) - 2500][pick(5)];
            let s = sim.install();
            let mut r = connect(&s)?;
            let d = good_motion(&mut r, &s, &sp)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c06-replies", if q { 3 } else { 5 }, "replies to Move split, delayed, merged with foreign replies; interrupted waits; lost states", || {
            let kind = [0, 3, 6, 8][pick(4)];
            let mut sp = Spec::new(kind, 2);
            sp.finisher = (kind == 8) as usize;
            let mut sim = robot_sim();
            sim.reply_menu = true;
            sim.udp_menu = U_LOSE;
            sim.faults = X_EINTR;
            sim.fault_budget = 100;
            let s = sim.install();
            let mut r = connect(&s)?;
            let d = good_motion(&mut r, &s, &sp)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
    ]
}
#[derive(Clone, Debug)]
pub struct Abt {
    pub sp_kind: usize,
    pub cycles: usize,
    pub status: u8,
    /// None: rejected in the first reply; Some((false,t)): dies before becoming active; Some((true,t)): after t active ticks
    pub at: Option<(bool, u64)>,
}
/// Runs a control call that the robot ends with `status`; checks the error and the trace.
pub fn bad_motion(r: &mut Robot, s: &SimRef, sp: &Spec, status: u8, started: bool, flags: &[usize], log_size: usize) -> R<(Dig, FrankaException)> {
    look(s);
    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
    let log = new_log();
    let g = gen(|c, _| distinct(c));
    let out = run(r, s, sp, &g, &log);
    let rs = res(&out);
    let sm = s.borrow();
    let msg = match &rs {
        Res::Command(m) | Res::Control(m) => m.clone(),
        o => return Err(format!("{}: the robot ended the motion with status {status} but the call returned {o:?}", NAMES[sp.kind])),
    };
    names_status(status, &msg)?;
    let cmds = check_trace(&sm, e0, r0, sp, &log.borrow(), End::Other, true)?;
    let k = kinds_of(&sm, r0);
    let had_cb = sm.ev[e0..].iter().any(|e| matches!(e, Ev::Cb(..)));
    if started && had_cb {
        ensure(k == [cmd::MOVE, cmd::STOP_MOVE], || format!("requests {k:?} sent, expected Move and one StopMove"))?;
    } else {
        ensure(k == [cmd::MOVE] || (k == [cmd::MOVE, cmd::STOP_MOVE] && started), || format!("requests {k:?} sent for a motion that never started"))?;
    }
    if had_cb {
        ensure(matches!(rs, Res::Control(_)), || format!("a running motion was aborted but the error is not a control error: {rs:?}"))?;
    }
    if status == MV_REFLEX && had_cb {
        ensure(msg.contains(&error_text(flags)), || format!("{msg:?} does not list the reflex flags {}", error_text(flags)))?;
        if cmds.len() >= 2 && log_size >= 2 {
            ensure(msg.contains("control_command_success_rate"), || format!("{msg:?} does not report the command success rate"))?;
        }
    }
    checked(5);
    let mut d = Dig::new();
    d.s(&msg).u(cmds.len() as u64).u(k.len() as u64);
    let e = match out {
        Ok(Err(e)) => e,
        _ => return Err("unreachable".into()),
    };
    Ok((d, e))
}
const ABORTS: [u8; 5] = [MV_PREEMPTED, MV_REFLEX, MV_EMERGENCY, MV_INPUT, MV_ABORTED];
fn mode_of(status: u8) -> u8 {
    match status {
        MV_REFLEX | MV_INPUT => wire::RM_REFLEX,
        MV_EMERGENCY => wire::RM_USER_STOPPED,
        _ => wire::RM_IDLE,
    }
}
fn flags_of(i: usize) -> Vec<usize> {
    [vec![3], vec![], vec![0, 40], vec![6, 7, 25]][i].clone()
}
fn c07(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c07-rejected", 0, "nine control calls x every rejecting or aborting status in the first reply x reply latency, then a plain motion", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 2);
            sp.finisher = (kind == 8) as usize;
            let status = 2 + pick(8) as u8;
            let mut sim = robot_sim();
            sim.plans.push_back(Plan { start: status, start_reply_lag: [0, 3][pick(2)], ..Default::default() });
            let s = sim.install();
            let mut r = connect(&s)?;
            let (d, _) = bad_motion(&mut r, &s, &sp, status, false, &[], 50)?;
            good_motion(&mut r, &s, &sp)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c07-start", 0, "nine control calls, motion dies 1..4 ms after being accepted and before it becomes active, every status", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 2);
            sp.finisher = (kind == 8) as usize;
            let status = ABORTS[pick(5)];
            let mut sim = robot_sim();
            sim.plans.push_back(Plan { die: Some((status, 1 + pick(4) as u64, mode_of(status))), start_state_lag: 50, ..Default::default() });
            let s = sim.install();
            let mut r = connect(&s)?;
            let (d, _) = bad_motion(&mut r, &s, &sp, status, true, &[], 50)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space(
            "c07-half-started",
            0,
            "nine control calls, motion dies after one or two partly activated states (every motion generator x controller mode), every status, then a plain motion",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 2);
                sp.finisher = (kind == 8) as usize;
                let status = ABORTS[pick(5)];
                let n = 1 + pick(2);
                let mut prelude = vec![];
                for i in 0..n {
                    let c = pick(if i == 0 || !q { 20 } else { 3 }) as u8;
                    let (mg, cm) = if i == 0 || !q { (c / 4, c % 4) } else { [(sp.mg(), 3), (0, sp.cm()), (0, 3)][c as usize] };
                    if (mg, cm) == (sp.mg(), sp.cm()) {
                        return Ok(0);
                    }
                    prelude.push((mg, cm, [wire::RM_IDLE, wire::RM_MOVE][pick(2)]));
                }
                // the reply may overtake the idle state
                let epilogue = [vec![], vec![(sp.mg(), 3, wire::RM_IDLE)], vec![(0, 2, wire::RM_IDLE); 3]][pick(3)].clone();
                let mut sim = robot_sim();
                sim.plans.push_back(Plan { die: Some((status, n as u64 + 1, mode_of(status))), start_state_lag: 50, prelude, epilogue, ..Default::default() });
                let s = sim.install();
                let mut r = connect(&s)?;
                let (mut d, _) = bad_motion(&mut r, &s, &sp, status, true, &[], 50)?;
                std::thread::sleep(std::time::Duration::from_millis(5)); // the robot is idle by now
                let mut sp = Spec::new((kind + 4) % KINDS, 2);
                sp.finisher = (sp.kind == 8) as usize;
                d.u(good_motion(&mut r, &s, &sp).map_err(|e| format!("next motion: {e}"))?.0);
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space(
            "c07-abort",
            0,
            "nine control calls x every abort status x abort at every active tick (running or finishing) x order and distance of reply and state x stop-request status x reflex flags",
            move || {
                let kind = pick(KINDS);
                let cycles = [2, 4][pick(2)];
                let mut sp = Spec::new(kind, cycles);
                sp.finisher = (kind == 8) as usize;
                let status = ABORTS[pick(5)];
                let at = 1 + pick(cycles + 3) as u64;
                let (rl, sl) = [(0, 0), (1, 0), (4, 0), (0, 1), (0, 2), (15, 0)][pick(if q { 5 } else { 6 })];
                let stop = pick(5) as u8;
                let fl = if status == MV_REFLEX { flags_of(pick(4)) } else { vec![] };
                let mut sim = robot_sim();
                sim.plans.push_back(Plan {
                    abort: Some(Abort { at, status, mode: mode_of(status), reply_lag: rl, state_lag: sl, flags: fl.clone() }),
                    finish_lag: 40,
                    stop: (stop, 0, 1),
                    ..Default::default()
                });
                let s = sim.install();
                let mut r = connect(&s)?;
                let (d, _) = bad_motion(&mut r, &s, &sp, status, true, &fl, 50)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space(
            "c07-visible",
            0,
            "nine control calls, the first state after the abort differs from the running motion in any combination of motion generator, controller and robot mode, then everything idle",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 6);
                sp.finisher = (kind == 8) as usize;
                let (mg, cm, rm) = (pick(5) as u8, pick(4) as u8, pick(7) as u8);
                if (mg, cm, rm) == (sp.mg(), sp.cm(), wire::RM_MOVE) {
                    return Ok(0);
                }
                let status = ABORTS[pick(5)];
                let at = [1, 3][pick(2)];
                let n = 1 + if q { 0 } else { pick(2) };
                let fl = if status == MV_REFLEX { flags_of(0) } else { vec![] };
                let mut sim = robot_sim();
                sim.plans.push_back(Plan {
                    abort: Some(Abort { at, status, mode: mode_of(status), reply_lag: [0, 3][pick(2)], state_lag: 0, flags: fl.clone() }),
                    epilogue: vec![(mg, cm, rm); n],
                    finish_lag: 40,
                    ..Default::default()
                });
                let s = sim.install();
                let mut r = connect(&s)?;
                let (d, _) = bad_motion(&mut r, &s, &sp, status, true, &fl, 50)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space("c07-slow", 0, "nine control calls x every abort status x one of: late first reply, late death, late reply or late state of the abort or of the failed finish, late answer to the stop request, abort late in a long motion; 60 to 4000 ms", || {
            let kind = pick(KINDS);
            let n = [60u64, 300, 1500, 4000][pick(4)];
            let status = ABORTS[pick(5)];
            let mode = mode_of(status);
            let fl = if status == MV_REFLEX { flags_of(0) } else { vec![] };
            let mut p = Plan { final_status: status, final_mode: mode, final_flags: fl.clone(), ..Default::default() };
            let mut ab = Abort { at: 2, status, mode, reply_lag: 0, state_lag: 0, flags: fl.clone() };
            let mut cycles = 5;
            let mut accepted = true;
            let mut flags = fl;
            match pick(9) {
                0 => {
                    (p.start, p.start_reply_lag) = (status, n);
                    accepted = false;
                    flags = vec![];
                }
                1 => {
                    (p.die, p.start_state_lag) = (Some((status, n, mode)), n + 50);
                    flags = vec![];
                }
                2 => {
                    ab.reply_lag = n;
                    p.abort = Some(ab);
                }
                3 => {
                    ab.state_lag = n;
                    cycles = n as usize + 50;
                    p.abort = Some(ab);
                }
                4 => {
                    p.abort = Some(ab);
                    p.stop = (pick(5) as u8, n, 1);
                }
                5 => {
                    ab.at = n;
                    cycles = n as usize + 50;
                    p.abort = Some(ab);
                }
                6 => p.final_reply_lag = n,
                7 => p.final_state_lag = n,
                _ => p.finish_lag = n,
            }
            let mut sp = Spec::new(kind, cycles);
            sp.finisher = (kind == 8) as usize;
            let mut sim = robot_sim();
            sim.plans.push_back(p);
            let s = sim.install();
            let mut r = connect(&s)?;
            let (d, _) = bad_motion(&mut r, &s, &sp, status, accepted, &flags, 50)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c07-finish", 0, "nine control calls, the robot ends the finishing motion with every status, order of reply and state, stop-request status", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 2);
            sp.finisher = if kind == 8 { 1 } else { pick(2) };
            let status = ABORTS[pick(5)];
            let fl = if status == MV_REFLEX { flags_of(pick(4)) } else { vec![] };
            let p = Plan {
                finish_lag: 1 + pick(3) as u64,
                final_status: status,
                final_mode: mode_of(status),
                final_flags: fl.clone(),
                final_reply_lag: [0, 2][pick(2)],
                final_state_lag: [0, 2][pick(2)],
                stop: (pick(5) as u8, [0, 2][pick(2)], 1),
                ..Default::default()
            };
            let mut sim = robot_sim();
            sim.plans.push_back(p);
            let s = sim.install();
            let mut r = connect(&s)?;
            let (d, _) = bad_motion(&mut r, &s, &sp, status, true, &fl, 50)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space(
            "c07-disturbed",
            if q { 2 } else { 3 },
            "aborts of four control calls with lost, duplicated, delayed and bursty states, split or delayed replies and interrupted waits",
            || {
                let kind = [0, 2, 4, 8][pick(4)];
                let mut sp = Spec::new(kind, 3);
                sp.finisher = (kind == 8) as usize;
                let status = [MV_REFLEX, MV_PREEMPTED][pick(2)];
                let at = 1 + pick(5) as u64;
                let fl = if status == MV_REFLEX { vec![2, 25] } else { vec![] };
                let mut sim = robot_sim();
                sim.udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST;
                sim.reply_menu = true;
                sim.faults = X_EINTR;
                sim.fault_budget = 100;
                sim.plans.push_back(Plan {
                    abort: Some(Abort { at, status, mode: mode_of(status), reply_lag: 0, state_lag: 0, flags: fl.clone() }),
                    finish_lag: 40,
                    stop: (1, 0, 1),
                    ..Default::default()
                });
                let s = sim.install();
                let mut r = connect(&s)?;
                let (d, _) = bad_motion(&mut r, &s, &sp, status, true, &fl, 50)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
    ]
}
/// One step of a history on a connection.
pub const STEPS: usize = 10;
pub fn step(r: &mut Robot, s: &SimRef, kind: usize, what: usize) -> R<u64> {
    let mut sp = Spec::new(kind, 2);
    sp.finisher = (kind == 8) as usize;
    let ab = |at: u64, status: u8, flags: Vec<usize>| Abort { at, status, mode: mode_of(status), reply_lag: 0, state_lag: 0, flags };
    s.borrow_mut().plans.clear();
    match what {
        0 => good_motion(r, s, &sp).map(|d| d.0),
        1 => {
            s.borrow_mut().plans.push_back(Plan { abort: Some(ab(2, MV_REFLEX, vec![4])), finish_lag: 30, ..Default::default() });
            bad_motion(r, s, &sp, MV_REFLEX, true, &[4], 50).map(|d| d.0 .0)
        }
        2 => {
            // preempted while running, the stop request is refused
            s.borrow_mut().plans.push_back(Plan {
                abort: Some(ab(1, MV_PREEMPTED, vec![])),
                finish_lag: 30,
                stop: (1, 0, 1),
                ..Default::default()
            });
            bad_motion(r, s, &sp, MV_PREEMPTED, true, &[], 50).map(|d| d.0 .0)
        }
        3 => {
            s.borrow_mut().plans.push_back(Plan { start: MV_NOT_POSSIBLE, ..Default::default() });
            bad_motion(r, s, &sp, MV_NOT_POSSIBLE, false, &[], 50).map(|d| d.0 .0)
        }
        4 => {
            s.borrow_mut().plans.push_back(Plan { die: Some((MV_EMERGENCY, 2, wire::RM_USER_STOPPED)), start_state_lag: 50, ..Default::default() });
            bad_motion(r, s, &sp, MV_EMERGENCY, true, &[], 50).map(|d| d.0 .0)
        }
        5 => {
            // the confirmation of the finished motion is an error
            s.borrow_mut().plans.push_back(Plan { final_status: MV_ABORTED, ..Default::default() });
            bad_motion(r, s, &sp, MV_ABORTED, true, &[], 50).map(|d| d.0 .0)
        }
        6 => {
            look(s);
            let mut seen = vec![];
            let o = res(&call(|| {
                r.read(|st| {
                    seen.push(st.time.as_millis() as u64);
                    seen.len() < 2
                })
            }));
            ensure(o == Res::Ok && seen.len() == 2 && seen[0] < seen[1], || format!("read loop: {o:?}, states {seen:?}"))?;
            Ok(6)
        }
        7 => {
            s.borrow_mut().statuses.clear();
            let op = Op::new(1, 0);
            let o = res(&call(|| op.run(r)));
            ensure(o == Res::Ok, || format!("service call: {o:?}"))?;
            Ok(7)
        }
        8 => {
            s.borrow_mut().statuses.insert(cmd::SET_LOAD, [2].into());
            let op = Op::new(6, 0);
            let o = res(&call(|| op.run(r)));
            s.borrow_mut().statuses.clear();
            ensure(matches!(o, Res::Command(_)), || format!("rejected service call: {o:?}"))?;
            Ok(8)
        }
        _ => {
            let o = res(&call(|| r.automatic_error_recovery()));
            ensure(o == Res::Ok, || format!("error recovery: {o:?}"))?;
            Ok(9)
        }
    }
}
/// Lets some states arrive, read or not.
fn wait(r: &mut Robot, read: bool) -> R<()> {
    if read {
        call(|| r.read_once()).map_err(|e| format!("read panicked: {e}"))?.map_err(|e| format!("read failed: {e}"))?;
    } else {
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    Ok(())
}
fn nan_out() -> Out {
    let n = f64::NAN;
    Out { q: [n; 7], dq: [n; 7], pose: [n; 16], vel: [n; 6], elbow: None, tau: [n; 7] }
}
fn c08(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let depth = if q { 4 } else { 5 };
    vec![
        space(
            "c08-histories",
            0,
            "all sequences up to the depth bound over {motion, reflex abort, preemption with refused stop, rejected start, abort while starting, failed finish, read, service call, rejected call, recovery}, then a checked motion; motion type changes from step to step",
            move || {
                let k0 = pick(if q { 3 } else { 9 });
                let n = 1 + pick(depth);
                let sim = robot_sim();
                let s = sim.install();
                let mut r = connect(&s)?;
                let mut d = Dig::new();
                for i in 0..n {
                    let w = pick(STEPS);
                    let kind = (k0 * 4 + i * 5) % KINDS;
                    let x = step(&mut r, &s, kind, w).map_err(|e| format!("step {i}: {e}"))?;
                    d.u(x);
                }
                let mut sp = Spec::new((k0 * 4 + n * 5) % KINDS, 3);
                sp.finisher = (sp.kind == 8) as usize;
                let x = good_motion(&mut r, &s, &sp).map_err(|e| format!("after the history: {e}"))?;
                d.u(x.0);
                drop(r);
                s.borrow().wire_clean()?;
                super::services::check_ids(&s.borrow().reqs)?;
                Ok(d.0)
            },
        ),
        space("c08-long", 0, "400 calls on one connection, cycling through all ways a call can end and all motion types, from every starting point of the cycle", || {
            let k0 = pick(STEPS * KINDS);
            let sim = robot_sim();
            let s = sim.install();
            let mut r = connect(&s)?;
            let mut d = Dig::new();
            for i in 0..400 {
                let j = k0 + i;
                d.u(step(&mut r, &s, j % KINDS, (j / 3 + j) % STEPS).map_err(|e| format!("call {i}: {e}"))?);
            }
            drop(r);
            s.borrow().wire_clean()?;
            super::services::check_ids(&s.borrow().reqs)?;
            Ok(d.0)
        }),
        space("c08-pairs", 0, "every way a motion can end x every pair of control calls: the second motion runs as on a fresh connection", || {
            let (a, b) = (pick(KINDS), pick(KINDS));
            let w = pick(6);
            let sim = robot_sim();
            let s = sim.install();
            let mut r = connect(&s)?;
            let x = step(&mut r, &s, a, w)?;
            let mut sp = Spec::new(b, 3);
            sp.finisher = (sp.kind == 8) as usize;
            sp.elbow = sp.mg() >= 3 && a % 2 == 0;
            let y = good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u(x).u(y.0).0)
        }),
        space(
            "c08-winding-down",
            0,
            "nine control calls ended by an abort or by an invalid value of the callback, while partly deactivated states (every motion generator x controller mode combination) follow, then another motion",
            move || {
                let kind = pick(KINDS);
                let mut sp = Spec::new(kind, 4);
                sp.finisher = (kind == 8) as usize;
                let n = 1 + pick(2);
                let mut epilogue = vec![];
                for i in 0..n {
                    let c = pick(if i == 0 || !q { 20 } else { 4 }) as u8;
                    let (mg, cm) = if i == 0 || !q { (c / 4, c % 4) } else { [(sp.mg(), 3), (0, sp.cm()), (0, 2), (0, 3)][c as usize] };
                    if (mg, cm) == (sp.mg(), sp.cm()) {
                        return Ok(0);
                    }
                    epilogue.push((mg, cm, wire::RM_IDLE));
                }
                let how = pick(2);
                let mut sim = robot_sim();
                let mut p = Plan { epilogue, ..Default::default() };
                if how == 0 {
                    p.abort = Some(Abort { at: 2, status: MV_PREEMPTED, mode: wire::RM_IDLE, reply_lag: 0, state_lag: 0, flags: vec![] });
                }
                sim.plans.push_back(p);
                let s = sim.install();
                let mut r = connect(&s)?;
                let mut d = Dig::new();
                if how == 0 {
                    d.u(bad_motion(&mut r, &s, &sp, MV_PREEMPTED, true, &[], 50)?.0 .0);
                } else {
                    look(&s);
                    let log = new_log();
                    let g = gen(|c, _| if c == 2 { nan_out() } else { distinct(c) });
                    let o = res(&run(&mut r, &s, &sp, &g, &log));
                    if matches!(o, Res::Panic(_)) {
                        return Ok(0); // poses and elbows panic (see C13); what happens to the connection then is not promised
                    }
                    ensure(o != Res::Ok, || "a motion with an invalid value ended well".into())?;
                }
                let mut sp = Spec::new((kind + 4) % KINDS, 3);
                sp.finisher = (sp.kind == 8) as usize;
                d.u(good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?.0);
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space("c08-stop-answers", 0, "nine control calls aborted by the robot, 1..1500 partly deactivated states follow, every answer to the stop request: the next motion can be started at once", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 4);
            sp.finisher = (kind == 8) as usize;
            let n = [1, 3, 8, 40, 1500][pick(5)];
            let mode = [(sp.mg(), 3), (0, sp.cm()), (sp.mg(), sp.cm())][pick(3)];
            let how = pick(3);
            let (status, rm) = [(MV_PREEMPTED, wire::RM_IDLE), (MV_REFLEX, wire::RM_REFLEX), (MV_EMERGENCY, wire::RM_USER_STOPPED)][how];
            let fl = if status == MV_REFLEX { vec![2] } else { vec![] };
            let mut sim = robot_sim();
            sim.plans.push_back(Plan {
                epilogue: vec![(mode.0, mode.1, rm); n],
                abort: Some(Abort { at: 2, status, mode: rm, reply_lag: 0, state_lag: 0, flags: fl.clone() }),
                stop: (pick(5) as u8, [0, 2][pick(2)], 1),
                ..Default::default()
            });
            let s = sim.install();
            let mut r = connect(&s)?;
            let mut d = bad_motion(&mut r, &s, &sp, status, true, &fl, 50)?.0;
            let mut sp = Spec::new((kind + 5) % KINDS, 3);
            sp.finisher = (sp.kind == 8) as usize;
            d.u(good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?.0);
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c08-late-reply", 0, "the Move reply of an aborted or stopped motion arrives up to 40 ms late, around the next motion", || {
            let (a, b) = ([0, 4, 8][pick(3)], [1, 6, 8][pick(3)]);
            let late = [1, 2, 3, 5, 10, 20, 40][pick(7)];
            let variant = pick(2);
            let mut sim = robot_sim();
            let mut sp = Spec::new(a, 2);
            sp.finisher = (a == 8) as usize;
            if variant == 0 {
                sim.plans.push_back(Plan {
                    abort: Some(Abort { at: 2, status: MV_REFLEX, mode: wire::RM_REFLEX, reply_lag: late, state_lag: 0, flags: vec![1] }),
                    finish_lag: 60,
                    ..Default::default()
                });
            } else {
                // the final state lags: the reply overtakes it
                sim.plans.push_back(Plan { final_status: MV_INPUT, final_state_lag: late, final_reply_lag: 0, ..Default::default() });
            }
            let s = sim.install();
            let mut r = connect(&s)?;
            let st = if variant == 0 { MV_REFLEX } else { MV_INPUT };
            let (x, _) = bad_motion(&mut r, &s, &sp, st, true, &[1][..if variant == 0 { 1 } else { 0 }], 50)?;
            let mut sp = Spec::new(b, 6);
            sp.finisher = (sp.kind == 8) as usize;
            let y = good_motion(&mut r, &s, &sp).map_err(|e| format!("second motion: {e}"))?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u(x.0).u(y.0).0)
        }),
        space("c08-busy", 0, "another client moves the robot (every pair of motion generator and controller mode): each control call is refused without sending anything, later it works; the library learns of it by a read or finds it in the states that arrived meanwhile", || {
            let kind = pick(KINDS);
            let mg = pick(5) as u8;
            let cm = pick(4) as u8;
            let busy = mg != 0 || cm == 2;
            let mut sp = Spec::new(kind, 2);
            sp.finisher = (kind == 8) as usize;
            let sim = robot_sim();
            let s = sim.install();
            let mut r = connect(&s)?;
            s.borrow_mut().st.set_modes(mg, cm, wire::RM_MOVE);
            wait(&mut r, pick(2) == 1)?;
            if busy {
                let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
                let log = new_log();
                let g = gen(|c, _| distinct(c));
                let o = res(&run(&mut r, &s, &sp, &g, &log));
                ensure(!matches!(o, Res::Ok | Res::Panic(_)), || format!("a motion was started while another one is active: {o:?}"))?;
                let sm = s.borrow();
                ensure(sm.reqs.len() == r0, || "a request was sent although another motion is active".into())?;
                ensure(!sm.ev[e0..].iter().any(|e| matches!(e, Ev::Cb(..) | Ev::Cmd(_) | Ev::BadCmd(_))), || {
                    "callback or command although another motion is active".into()
                })?;
            }
            s.borrow_mut().st.set_modes(0, 3, wire::RM_IDLE);
            wait(&mut r, pick(2) == 1)?;
            let mut d = good_motion(&mut r, &s, &sp)?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.u(mg as u64).u(cm as u64).0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", spaces: c06, assumptions: &[] },
        Prop { id: "C07", spaces: c07, assumptions: &["pre-active aborts need no stop request"] },
        Prop { id: "C08", spaces: c08, assumptions: &[] },
    ]
}
#[allow(dead_code)]
fn _t(_: RunResult) {}
