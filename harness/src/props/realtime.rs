//! C23 realtime enforcement.
use super::ctl::*;
use super::services::Op;
use super::util::*;
use super::Prop;
use crate::explore::{checked, guarded, pick, space, Dig, Space};
use crate::sim::*;
use crate::world;
use crate::Tier;
use franka::{RealtimeConfig, Robot};

const RT_FILE: &str = "/sys/kernel/realtime";
fn kernel(present: bool) {
    world::with(|w| {
        if present {
            w.k.files.insert(RT_FILE.into(), b"1\n".to_vec());
        } else {
            w.k.files.remove(RT_FILE);
        }
    });
}
/// What the machine answers in one control call.
#[derive(Clone, Copy, Debug)]
struct Machine {
    rt: bool,
    /// None: sched_get_priority_max fails
    prio: Option<i64>,
    sched: i32,
    lock: i32,
}
impl Machine {
    fn ok(&self) -> bool {
        self.rt && self.prio.is_some() && self.sched == 0 && self.lock == 0
    }
    fn choose(all: bool) -> Machine {
        let m = pick(if all { 10 } else { 5 });
        let g = Machine { rt: true, prio: Some(99), sched: 0, lock: 0 };
        match m {
            0 => g,
            1 => Machine { rt: false, ..g },
            2 => Machine { prio: None, ..g },
            3 => Machine { sched: libc::EPERM, ..g },
            4 => Machine { lock: libc::ENOMEM, ..g },
            5 => Machine { prio: Some(50), ..g },
            6 => Machine { prio: Some(2), sched: libc::EINVAL, ..g },
            7 => Machine { prio: Some(1), ..g },
            8 => Machine { prio: Some(140), ..g },
            _ => Machine { lock: libc::EPERM, ..g },
        }
    }
    fn apply(self, s: &SimRef) {
        kernel(self.rt);
        s.borrow_mut().rt = Box::new(move |n, _| match n {
            "prio_max" => self.prio.ok_or(libc::EINVAL),
            "setsched" => {
                if self.sched == 0 {
                    Ok(0)
                } else {
                    Err(self.sched)
                }
            }
            _ => {
                if self.lock == 0 {
                    Ok(0)
                } else {
                    Err(self.lock)
                }
            }
        });
    }
}
fn enforce_call(r: &mut Robot, s: &SimRef, kind: usize, m: Machine, enforce: bool) -> R<u64> {
    m.apply(s);
    let mut sp = Spec::new(kind, 2);
    sp.finisher = (kind == 8) as usize;
    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
    let l0 = world::with(|w| w.k.rt_log.len());
    let log = new_log();
    let g = gen(|c, _| distinct(c));
    let o = res(&run(r, s, &sp, &g, &log));
    let calls: Vec<(&'static str, Vec<i64>, bool)> = world::with(|w| w.k.rt_log[l0..].to_vec());
    let sm = s.borrow();
    checked(4);
    if !enforce {
        ensure(o == Res::Ok, || format!("with enforcement ignored the motion returned {o:?}"))?;
        ensure(calls.iter().all(|c| c.0 == "prio_max"), || format!("realtime calls although enforcement is ignored: {calls:?}"))?;
        check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Success, true)?;
        return Ok(1);
    }
    if !m.ok() {
        ensure(matches!(o, Res::Realtime(_)), || format!("{m:?}: expected a realtime error, got {o:?}"))?;
        ensure(sm.reqs.len() == r0, || format!("{m:?}: a request was sent before the realtime check failed"))?;
        ensure(!sm.ev[e0..].iter().any(|e| matches!(e, Ev::Cb(..) | Ev::Cmd(_) | Ev::BadCmd(_))), || {
            format!("{m:?}: command sent or callback invoked although realtime is not available")
        })?;
        return Ok(2);
    }
    ensure(o == Res::Ok, || format!("{m:?}: all realtime settings succeeded but the motion returned {o:?}"))?;
    check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Success, true)?;
    let want = m.prio.unwrap() - 1;
    let set: Vec<&(&str, Vec<i64>, bool)> = calls.iter().filter(|c| c.0 == "setsched").collect();
    ensure(set.last().map(|c| c.1 == vec![libc::SCHED_FIFO as i64, want]).unwrap_or(false), || {
        format!("scheduling of the thread: {calls:?}, expected FIFO with priority {want}")
    })?;
    let all = (libc::MCL_CURRENT | libc::MCL_FUTURE) as i64;
    let locked = calls.iter().filter(|c| c.0 == "mlockall").fold(0, |a, c| a | c.1[0]);
    ensure(locked & all == all && calls.iter().any(|c| c.0 == "mlockall" && c.1[0] & all == all), || format!("memory locking: {calls:?}, expected present and future memory"))?;
    // everything before the Move request
    let pos = |f: &dyn Fn(&Ev) -> bool| sm.ev[e0..].iter().position(f);
    let mv = pos(&|e| matches!(e, Ev::Req(_))).ok_or("no request")?;
    for n in ["rt:setsched", "rt:mlockall"] {
        let p = pos(&|e| matches!(e, Ev::Note(x) if *x == n)).ok_or("no realtime call")?;
        ensure(p < mv, || format!("{n} happened only after the motion was requested"))?;
    }
    Ok(3)
}
fn make(s: &SimRef, cfg: usize) -> R<Robot> {
    let _ = s;
    let r = guarded(|| match cfg {
        0 => Robot::new("robot.local", RealtimeConfig::Enforce, None),
        1 => Robot::new("robot.local", None, None),
        _ => Robot::new("robot.local", RealtimeConfig::Ignore, None),
    });
    match r {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("connecting to a healthy robot failed: {e:?}")),
        Err(p) => Err(format!("connecting panicked: {p}")),
    }
}
fn c23(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space(
            "c23-one-call",
            0,
            "realtime configuration {enforce, default, ignore} x nine control calls x kernel present/absent x priority query fails/99/50/2/1/140 x scheduler refused x memory locking refused; then a service call, a read and another control call on the same connection with every machine answer",
            move || {
                let cfg = pick(3);
                let kind = pick(KINDS);
                let m = Machine::choose(true);
                let sim = robot_sim();
                let s = sim.install();
                let mut r = make(&s, cfg)?;
                ensure(world::with(|w| w.k.rt_log.is_empty()) || cfg < 2, || "realtime calls while connecting".into())?;
                let mut d = Dig::new();
                d.u(enforce_call(&mut r, &s, kind, m, cfg < 2)?);
                let op = Op::new(6, 0);
                let o = res(&call(|| op.run(&mut r)));
                ensure(o == Res::Ok, || format!("service call after {m:?}: {o:?}"))?;
                let o = res(&call(|| r.read_once()));
                ensure(o == Res::Ok, || format!("read after {m:?}: {o:?}"))?;
                let m2 = Machine::choose(false);
                d.u(enforce_call(&mut r, &s, (kind + 1 + pick(8)) % KINDS, m2, cfg < 2).map_err(|e| format!("second call: {e}"))?);
                drop(r);
                s.borrow().wire_clean()?;
                Ok(d.0)
            },
        ),
        space("c23-sequences", 0, "all sequences of control calls with machine answers changing between them", move || {
            let cfg = pick(2);
            let n = if q { 5 } else { 7 };
            let sim = robot_sim();
            let s = sim.install();
            let mut r = make(&s, cfg)?;
            let mut d = Dig::new();
            for i in 0..n {
                let m = Machine::choose(false);
                d.u(enforce_call(&mut r, &s, (i * 4 + 2) % KINDS, m, true).map_err(|e| format!("call {i}: {e}"))?);
            }
            drop(r);
            s.borrow().wire_clean()?;
            Ok(d.0)
        }),
        space("c23-joint-motion", 0, "point-to-point motion call under every realtime configuration and machine answer", || {
            let cfg = pick(3);
            let m = Machine::choose(true);
            let sim = robot_sim();
            let s = sim.install();
            let mut r = make(&s, cfg)?;
            m.apply(&s);
            let e0 = s.borrow().ev.len();
            let r0 = s.borrow().reqs.len();
            let q0: [f64; 7] = s.borrow().st.arr(crate::wire::st::q_d);
            let mut goal = q0;
            goal[1] += 0.01;
            let o = res(&call(|| r.joint_motion(1.0, &goal)));
            let sm = s.borrow();
            checked(1);
            if cfg == 2 || m.ok() {
                ensure(o == Res::Ok, || format!("{m:?}: joint motion returned {o:?}"))?;
                Ok(1)
            } else {
                ensure(matches!(o, Res::Realtime(_)), || format!("{m:?}: expected a realtime error, got {o:?}"))?;
                ensure(sm.reqs.len() == r0 && !sm.ev[e0..].iter().any(|e| matches!(e, Ev::Cmd(_))), || "something was sent although realtime is not available".into())?;
                Ok(2)
            }
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", spaces: c23, assumptions: &["/sys/kernel/realtime decides whether the kernel is a realtime kernel"] }]
}
