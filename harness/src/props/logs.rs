//! C17: the log carried by control errors.
use super::ctl::*;
use super::motions::{bad_motion, good_motion};
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, Space};
use crate::sim::*;
use crate::wire::{self, compare, st};
use crate::Tier;
use franka::exception::FrankaException;
use franka::robot::logger::Record;
use franka::Robot;

fn beq(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (*x == 0. && *y == 0.))
}
/// Commands of the motion with the state each was answered by.
fn pairs(s: &Sim, e0: usize) -> Vec<(wire::Cmd, u64)> {
    let mut v: Vec<(wire::Cmd, Option<u64>)> = vec![];
    for e in &s.ev[e0..] {
        match e {
            Ev::Cmd(c) => v.push((c.clone(), None)),
            Ev::Read(m, true) => {
                if let Some((c, st)) = v.last_mut() {
                    if st.is_none() && *m > c.msg {
                        *st = Some(*m);
                    }
                }
            }
            _ => {}
        }
    }
    v.into_iter().filter_map(|(c, m)| m.map(|m| (c, m))).collect()
}
fn check_log(s: &Sim, e0: usize, size: usize, e: &FrankaException, reflex: bool) -> R<usize> {
    let (log, msg): (&Vec<Record>, &String) = match e {
        FrankaException::ControlException { log: Some(l), error } => (l, error),
        o => return Err(format!("no log in the control error {}", err_name(o))),
    };
    let all = pairs(s, e0);
    let want = &all[all.len() - all.len().min(size)..];
    ensure(log.len() == want.len(), || format!("the log has {} rows, {} commands were sent and answered, log size {size}", log.len(), all.len()))?;
    for (k, (row, (c, m))) in log.iter().zip(want).enumerate() {
        let say = |w: &str| format!("row {k} of {} (log size {size}, {} commands): {w}", log.len(), all.len());
        let cl = &row.command;
        ensure(beq(&cl.joint_positions.q, &c.q), || say(&format!("joint positions {:?}, sent {:?}", cl.joint_positions.q, c.q)))?;
        ensure(beq(&cl.joint_velocities.dq, &c.dq), || say(&format!("joint velocities {:?}, sent {:?}", cl.joint_velocities.dq, c.dq)))?;
        ensure(beq(&cl.cartesian_pose.O_T_EE, &c.pose), || say(&format!("pose {:?}, sent {:?}", cl.cartesian_pose.O_T_EE, c.pose)))?;
        ensure(beq(&cl.cartesian_velocities.O_dP_EE, &c.vel), || say(&format!("Cartesian velocities {:?}, sent {:?}", cl.cartesian_velocities.O_dP_EE, c.vel)))?;
        ensure(beq(&cl.torques.tau_J, &c.tau), || say(&format!("torques {:?}, sent {:?}", cl.torques.tau_J, c.tau)))?;
        ensure(row.state.time.as_millis() as u64 == *m, || say(&format!("state {}, expected {m}", row.state.time.as_millis())))?;
        compare(&row.state, &s.sent[m]).map_err(|e| say(&e))?;
        checked(7);
    }
    if reflex && want.len() >= 2 {
        let (a, b) = (want[want.len() - 2].1, want[want.len() - 1].1);
        let lost = b - a - 1;
        let rate = s.sent[&a].get(st::SUCCESS)[0] * (1. - lost as f64 / 100.);
        let tail = msg.split("control_command_success_rate:").nth(1).ok_or_else(|| format!("{msg:?} reports no success rate"))?.trim();
        let num: f64 = tail.split_whitespace().next().and_then(|x| x.parse().ok()).ok_or_else(|| format!("{msg:?}: no number"))?;
        ensure((num - rate).abs() < 1e-9, || format!("{msg:?} reports the success rate {num}, the last states give {rate}"))?;
        let l = tail.rsplit(' ').next().and_then(|x| x.parse::<u64>().ok()).filter(|_| tail.contains("lost"));
        ensure(l == if lost > 0 { Some(lost) } else { None }, || format!("{msg:?}: {lost} packets were lost in the last sample"))?;
        checked(2);
    }
    Ok(log.len())
}
fn err_name(e: &FrankaException) -> String {
    format!("{:?}", err_of(e))
}
fn aborted(r: &mut Robot, s: &SimRef, sp: &Spec, status: u8, size: usize) -> R<Dig> {
    let e0 = s.borrow().ev.len();
    let (mut d, e) = bad_motion(r, s, sp, status, true, &[3], size)?;
    let n = check_log(&s.borrow(), e0, size, &e, status == MV_REFLEX)?;
    d.u(n as u64);
    Ok(d)
}
fn rates(sim: &mut Sim) {
    // success rates that differ from state to state
    sim.hook = Some(Box::new(|s, v| {
        s.set(st::SUCCESS, &[0.5 + (v.tick % 37) as f64 * 0.01]);
        s.set(st::q, &[v.tick as f64 * 1e-3, 1., 2., 3., 4., 5., 6.]);
    }));
}
fn plan(at: u64, status: u8, lags: (u64, u64)) -> Plan {
    let mode = if status == MV_REFLEX { wire::RM_REFLEX } else { wire::RM_IDLE };
    let flags = if status == MV_REFLEX { vec![3] } else { vec![] };
    Plan { abort: Some(Abort { at, status, mode, reply_lag: lags.0, state_lag: lags.1, flags }), finish_lag: 400, ..Default::default() }
}
fn c17(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c17-sizes", 0, "nine control calls x log sizes 0..6 and default x abort at every tick up to beyond wrap-around, running or completing x status x order of reply and state", move || {
            let kind = pick(KINDS);
            let size = [Some(0usize), Some(1), Some(2), Some(3), Some(4), Some(6), None][pick(7)];
            let at = 1 + pick(if full { 16 } else { 10 }) as u64;
            let cycles = [3, 40][pick(2)];
            let status = [MV_REFLEX, MV_PREEMPTED, MV_EMERGENCY][pick(if full { 3 } else { 2 })];
            let lags = [(0, 0), (1, 0), (0, 1), (3, 0)][pick(4)];
            let mut sp = Spec::new(kind, cycles);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            let mut sim = robot_sim();
            rates(&mut sim);
            sim.plans.push_back(plan(at, status, lags));
            let s = sim.install();
            let mut r = connect_log(&s, size)?;
            let d = aborted(&mut r, &s, &sp, status, size.unwrap_or(50))?;
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c17-default", 0, "default and large log sizes x motions of 48..53, 99..101 and 240 commands", move || {
            let kind = pick(KINDS);
            let (size, arg) = [(50, None), (50, Some(50)), (49, Some(49)), (100, Some(100)), (1000, Some(1000))][pick(5)];
            let at = [47u64, 48, 49, 50, 51, 52, 53, 54, 99, 100, 101, 102, 103, 240][pick(14)];
            let mut sp = Spec::new(kind, 300);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            let mut sim = robot_sim();
            rates(&mut sim);
            sim.plans.push_back(plan(at, MV_REFLEX, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, arg)?;
            let d = aborted(&mut r, &s, &sp, MV_REFLEX, size)?;
            Ok(d.0)
        }),
        space("c17-gaps", 0, "1 to 950 states in a row lost just before the abort, or up to 3 cycles earlier x log sizes x control calls", move || {
            let kind = pick(KINDS);
            let size = [2usize, 3, 50][pick(3)];
            let after = 1 + pick(4) as u64;
            let n = [1u64, 2, 3, 8, 9, 10, 11, 19, 20, 21, 49, 50, 98, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 950][pick(26)];
            let more = pick(4) as u64;
            let mut sp = Spec::new(kind, 10_000);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            let mut sim = robot_sim();
            rates(&mut sim);
            sim.gap = Some((after, n));
            sim.plans.push_back(plan(after + n + more, MV_REFLEX, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, Some(size))?;
            let d = aborted(&mut r, &s, &sp, MV_REFLEX, size)?;
            Ok(d.0)
        }),
        space("c17-huge", 0, "log sizes up to the largest number there is x motions of up to 9000 commands", move || {
            let kind = pick(KINDS);
            let (size, at) = [(usize::MAX, 300u64), (1 << 40, 300), (127usize, 400), (128, 400), (255, 400), (256, 400), (1000, 1500), (1023, 1500), (1024, 1500), (1025, 1500), (2500, 3000), (100_000, 3000), (100_000, 9000)][pick(if kind == 0 || kind == 8 { 13 } else { 12 })];
            let mut sp = Spec::new(kind, 10_000);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            let mut sim = robot_sim();
            rates(&mut sim);
            sim.plans.push_back(plan(at, MV_REFLEX, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, Some(size))?;
            let d = aborted(&mut r, &s, &sp, MV_REFLEX, size)?;
            Ok(d.0)
        }),
        space("c17-history", 0, "two or three motions on one connection (good, aborted, single reads between them) x log sizes: the log holds only the last motion", move || {
            let sizes = [0usize, 1, 3, 5, 50];
            let size = sizes[pick(5)];
            let (k1, k2) = (pick(KINDS), pick(KINDS));
            let first = pick(4);
            let (a1, a2) = ([2u64, 5, 9][pick(3)], [1u64, 2, 4, 8][pick(4)]);
            let mut sim = robot_sim();
            rates(&mut sim);
            match first {
                0 => sim.plans.push_back(plan(a1, MV_REFLEX, (0, 0))),
                1 => sim.plans.push_back(plan(a1, MV_PREEMPTED, (1, 0))),
                2 => sim.plans.push_back(Plan { start: MV_NOT_POSSIBLE, ..Default::default() }),
                _ => sim.plans.push_back(Plan::default()),
            }
            sim.plans.push_back(plan(a2, MV_REFLEX, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, Some(size))?;
            let mk = |k: usize, c: usize| {
                let mut sp = Spec::new(k, c);
                sp.finisher = (k == 8) as usize;
                sp.compare = false;
                sp
            };
            match first {
                0 => drop(aborted(&mut r, &s, &mk(k1, 30), MV_REFLEX, size)?),
                1 => drop(aborted(&mut r, &s, &mk(k1, 30), MV_PREEMPTED, size)?),
                2 => drop(bad_motion(&mut r, &s, &mk(k1, 30), MV_NOT_POSSIBLE, false, &[], size)?),
                _ => drop(good_motion(&mut r, &s, &mk(k1, a1 as usize))?),
            }
            if pick(2) == 1 {
                r.read_once().map_err(|e| err_name(&e))?;
            }
            let d = aborted(&mut r, &s, &mk(k2, 30), MV_REFLEX, size)?;
            Ok(d.0)
        }),
        space("c17-lossy", if full { 3 } else { 2 }, "aborted motions with lost and duplicated states as deviations x log sizes", move || {
            let kind = [0, 3, 6, 8][pick(4)];
            let size = [2usize, 3, 50][pick(3)];
            let at = 4 + pick(4) as u64;
            let mut sp = Spec::new(kind, 40);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            let mut sim = robot_sim();
            rates(&mut sim);
            sim.udp_menu = U_LOSE | U_DUP;
            sim.plans.push_back(plan(at, MV_REFLEX, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, Some(size))?;
            let d = aborted(&mut r, &s, &sp, MV_REFLEX, size)?;
            Ok(d.0)
        }),
        space("c17-shaped", 0, "nine control calls with limiting and filtering: the log has the commands as transmitted", move || {
            let kind = pick(KINDS);
            let lim = pick(2) == 1;
            let cut = [1000., 100.][pick(2)];
            let size = [3usize, 50][pick(2)];
            let at = 2 + pick(8) as u64;
            let mut sp = Spec::new(kind, 40);
            sp.finisher = (kind == 8) as usize;
            sp.compare = false;
            sp.limit = Some(lim);
            sp.cutoff = Some(cut);
            let mut sim = robot_sim();
            sim.plans.push_back(plan(at, MV_PREEMPTED, (0, 0)));
            let s = sim.install();
            let mut r = connect_log(&s, Some(size))?;
            look(&s);
            let e0 = s.borrow().ev.len();
            let log = new_log();
            let out = run(&mut r, &s, &sp, &gen(|c, _| distinct(c)), &log);
            let e = match out {
                Ok(Err(e)) => e,
                _ => return Err(format!("aborted motion returned {:?}", res(&out))),
            };
            let n = check_log(&s.borrow(), e0, size, &e, false)?;
            Ok(Dig::new().u(n as u64).u(kind as u64).0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C17", spaces: c17, assumptions: super::ASSUMPTIONS }]
}
