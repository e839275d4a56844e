//! C09 lost connections and silence, C20 connecting.
use super::ctl::*;
use super::services::Op;
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, Space};
use crate::sim::*;
use crate::wire::{self, st, Wr};
use crate::world::{with, MS};
use crate::Tier;
use franka::{Gripper, RealtimeConfig, Robot};
use std::net::Ipv4Addr;

const TCP_FAULTS: [&str; 6] = ["fin", "fin-all", "rst", "cable", "tcp-send", "tcp-recv"];
const SILENT_FAULTS: [&str; 4] = ["silence", "fin-all", "rst", "cable"];
#[derive(Clone, Copy, Debug, Default)]
struct Hurt {
    tcp: bool,
    silent: bool,
    udp_send: bool,
    udp_recv: bool,
    lost: bool,
    setup: bool,
}
fn hurt(s: &Sim, from: usize) -> Hurt {
    let mut h = Hurt { lost: s.lost_reply, ..Default::default() };
    for f in &s.injected[from..] {
        h.tcp |= TCP_FAULTS.contains(f);
        h.silent |= SILENT_FAULTS.contains(f);
        h.udp_send |= *f == "udp-send";
        h.udp_recv |= *f == "udp-recv";
        h.setup |= *f == "setup";
    }
    h
}
fn now() -> u64 {
    with(|w| w.k.now)
}
/// Runs one call under a time limit of simulated time.
fn timed<T>(s: &SimRef, what: &str, f: impl FnOnce() -> Result<T, franka::exception::FrankaException>) -> R<Res> {
    let t0 = now();
    let o = res(&call(f));
    let dt = (now() - t0) / MS;
    let cable = s.borrow().cable.is_some();
    let lim = if cable { 15_000 } else { 6_000 };
    if let Res::Panic(p) = &o {
        return Err(format!("{what} panicked with faults {:?}: {p}", s.borrow().injected));
    }
    ensure(dt <= lim, || format!("{what} took {dt} ms with faults {:?}", s.borrow().injected))?;
    checked(1);
    Ok(o)
}
pub const CALLS: usize = 18;
/// The follow-up calls on a connection after faults.
fn aftermath(r: &mut Robot, s: &SimRef, order: usize) -> R<u64> {
    s.borrow_mut().faults = 0;
    let h = hurt(&s.borrow(), 0);
    let mut d = Dig::new();
    for k in 0..2 {
        if (k == 0) == (order == 0) {
            let o = timed(s, "a later service call", || Op::new(2, 0).run(r))?;
            match (&o, h.tcp) {
                (Res::Network(_), true) | (Res::Ok, false) => {}
                (o, _) => return Err(format!("a service call after the faults {:?} returned {o:?}", s.borrow().injected)),
            }
            d.s(&format!("{o:?}"));
        } else {
            let o = timed(s, "a later read", || r.read_once())?;
            match (&o, h.silent, h.tcp) {
                (Res::Network(_), true, _) | (Res::Ok, false, _) | (Res::Network(_), _, true) => {}
                (o, ..) => return Err(format!("a read after the faults {:?} returned {o:?}", s.borrow().injected)),
            }
            d.s(&format!("{o:?}"));
        }
    }
    Ok(d.0)
}
fn robot_call(which: usize, lag: u64, faults: u32, budget: u32, order: usize) -> R<u64> {
    robot_call_with(which, lag, faults, budget, order, |_| {})
}
fn robot_call_with(which: usize, lag: u64, faults: u32, budget: u32, order: usize, cfg: impl FnOnce(&mut Sim)) -> R<u64> {
    let mut sim = robot_sim();
    sim.lag = lag;
    cfg(&mut sim);
    let s = sim.install();
    let mut r = connect(&s)?;
    {
        let mut sm = s.borrow_mut();
        sm.faults = faults;
        sm.fault_budget = budget;
    }
    let mut d = Dig::new();
    d.u(which as u64);
    let h;
    match which {
        0..=5 => {
            let op = Op::new([1, 10, 11, 8, 9, 0][which], 0);
            let o = timed(&s, "a service call", || op.run(&mut r))?;
            h = hurt(&s.borrow(), 0);
            match &o {
                Res::Ok if !h.tcp || !h.lost => {}
                Res::Network(_) if h.tcp => {}
                o => return Err(format!("{op:?} with the faults {:?} returned {o:?}", s.borrow().injected)),
            }
            d.s(&format!("{o:?}"));
        }
        6 => {
            let o = timed(&s, "load_model", || r.load_model(false).map(|_| ()))?;
            h = hurt(&s.borrow(), 0);
            match &o {
                Res::Ok if !h.tcp || !h.lost => {}
                Res::Network(_) | Res::Model(_) if h.tcp => {}
                o => return Err(format!("load_model with the faults {:?} returned {o:?}", s.borrow().injected)),
            }
            d.s(&format!("{o:?}"));
        }
        7 | 8 => {
            let mut got = vec![];
            let o = if which == 7 {
                timed(&s, "a single read", || r.read_once().map(|x| got.push(x)))?
            } else {
                timed(&s, "a read loop", || {
                    r.read(|x| {
                        got.push(x.clone());
                        got.len() < 3
                    })
                })?
            };
            h = hurt(&s.borrow(), 0);
            for x in &got {
                let m = x.time.as_millis() as u64;
                let sm = s.borrow();
                let sent = sm.sent.get(&m).ok_or("a state the robot never sent")?;
                wire::compare(x, sent)?;
            }
            let full = got.len() == if which == 7 { 1 } else { 3 };
            match &o {
                Res::Ok if full => {}
                Res::Network(_) if h.silent || h.udp_recv || h.tcp => {}
                o => return Err(format!("reading with the faults {:?} returned {o:?} after {} states", s.borrow().injected, got.len())),
            }
            d.u(got.len() as u64);
        }
        _ => {
            let mut sp = Spec::new(which - 9, 2);
            sp.finisher = (sp.kind == 8) as usize;
            look(&s);
            let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
            let log = new_log();
            let g = gen(|c, _| distinct(c));
            let o = timed(&s, NAMES[sp.kind], || match run(&mut r, &s, &sp, &g, &log) {
                Ok(r) => r,
                Err(p) => panic!("{p}"),
            })?;
            let sm = s.borrow();
            h = hurt(&sm, 0);
            match &o {
                Res::Ok if !h.lost && !h.udp_send => {
                    check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Success, true)?;
                }
                Res::Network(_) if h.tcp || h.silent || h.udp_send || h.udp_recv => {
                    if sm.reqs.len() > r0 {
                        check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Other, true)?;
                    }
                    let l = log.borrow();
                    let ran = !l.motion.is_empty() || !l.torque.is_empty();
                    ensure(h.tcp || !ran || kinds_of(&sm, r0).contains(&wire::cmd::STOP_MOVE), || {
                        format!("{}: no stop request although the motion ran when only the state channel failed ({:?})", NAMES[sp.kind], sm.injected)
                    })?;
                }
                o => return Err(format!("{} with the faults {:?} returned {o:?}", NAMES[sp.kind], sm.injected)),
            }
            d.s(&format!("{o:?}"));
        }
    }
    d.u(aftermath(&mut r, &s, order)?);
    // dropping the connection is quick, too
    timed(&s, "dropping the robot", || {
        drop(r);
        Ok(())
    })?;
    Ok(d.0)
}
const NET: u32 = X_EINTR | X_SILENCE | X_FIN | X_FINALL | X_RST | X_CABLE | X_TCPSEND | X_UDPSEND | X_UDPRECV;
fn gripper_call(which: usize, faults: u32, budget: u32) -> R<u64> {
    gripper_call_with(which, faults, budget, |_| {})
}
fn gripper_call_with(which: usize, faults: u32, budget: u32, cfg: impl FnOnce(&mut Sim)) -> R<u64> {
    let mut sim = gripper_sim();
    sim.lag = 2;
    cfg(&mut sim);
    let s = sim.install();
    let mut r = connect_gripper(&s)?;
    {
        let mut sm = s.borrow_mut();
        sm.faults = faults;
        sm.fault_budget = budget;
    }
    let mut d = Dig::new();
    d.u(which as u64);
    let go = |r: &mut Gripper, which: usize| -> R<Res> {
        if which == 4 {
            let mut got = None;
            let o = timed(&s, "reading the gripper state", || r.read_once().map(|x| got = Some(x)))?;
            if let Some(x) = got {
                super::gripper::check_state(&s.borrow(), &x)?;
            }
            return Ok(o);
        }
        let mut v = None;
        let o = timed(&s, "a gripper command", || {
            v = Some(match which {
                0 => r.homing()?,
                1 => r.move_gripper(0.04, 0.1)?,
                2 => r.grasp(0.02, 0.1, 20., None, None)?,
                _ => r.stop()?,
            });
            Ok(())
        })?;
        ensure(v != Some(false), || "a successful gripper command returned false".into())?;
        Ok(o)
    };
    let o = go(&mut r, which)?;
    let h = hurt(&s.borrow(), 0);
    let okay = match (&o, which) {
        (Res::Ok, 4) => true,
        (Res::Ok, _) => !h.tcp || !h.lost,
        (Res::Network(_), 4) => h.silent || h.udp_recv || h.tcp,
        (Res::Network(_), _) => h.tcp,
        _ => false,
    };
    ensure(okay, || format!("gripper call {which} with the faults {:?} returned {o:?}", s.borrow().injected))?;
    d.s(&format!("{o:?}"));
    s.borrow_mut().faults = 0;
    for k in [3, 4, 1] {
        let o = go(&mut r, k)?;
        let okay = match (&o, k) {
            (Res::Ok, 4) => !h.silent,
            (Res::Ok, _) => !h.tcp,
            (Res::Network(_), 4) => h.silent || h.tcp,
            (Res::Network(_), _) => h.tcp,
            _ => false,
        };
        ensure(okay, || format!("gripper call {k} after the faults {:?} returned {o:?}", s.borrow().injected))?;
        d.s(&format!("{o:?}"));
    }
    timed(&s, "dropping the gripper", || {
        drop(r);
        Ok(())
    })?;
    Ok(d.0)
}
/// A motion that the robot ends with an error while the connection gets lost.
fn failing_motion(faults: u32, sever: Option<(usize, usize, u32, u64)>) -> R<u64> {
    let mut sp = Spec::new(pick(9), 4);
    sp.finisher = (sp.kind == 8) as usize;
    let how = pick(4);
    let (status, mode) = if how % 2 == 0 { (MV_REFLEX, wire::RM_REFLEX) } else { (MV_PREEMPTED, wire::RM_IDLE) };
    let flags = if status == MV_REFLEX { vec![3] } else { vec![] };
    let mut sim = robot_sim();
    sim.plans.push_back(if how < 2 {
        Plan { abort: Some(Abort { at: 2, status, mode, reply_lag: 3, state_lag: 0, flags }), ..Default::default() }
    } else {
        Plan { final_status: status, final_mode: mode, final_flags: flags, final_reply_lag: 3, ..Default::default() }
    });
    sim.sever = sever;
    let s = sim.install();
    let mut r = connect(&s)?;
    {
        let mut sm = s.borrow_mut();
        sm.faults = faults;
        sm.fault_budget = 1;
    }
    look(&s);
    let log = new_log();
    let g = gen(|c, _| distinct(c));
    let o = timed(&s, NAMES[sp.kind], || match run(&mut r, &s, &sp, &g, &log) {
        Ok(r) => r,
        Err(p) => panic!("{p}"),
    })?;
    let h = hurt(&s.borrow(), 0);
    let fine = match &o {
        // only who has read the final reply can name its status
        Res::Control(e) | Res::Command(e) => e.contains(["reflex", "preempted", "still moving", "preempted"][how]),
        Res::Network(_) => h.tcp || h.silent || h.udp_send || h.udp_recv,
        _ => false,
    };
    ensure(fine, || format!("{}: ended by the robot, with the faults {:?}, returned {o:?}", NAMES[sp.kind], s.borrow().injected))?;
    let mut d = Dig::new();
    d.s(&format!("{o:?}"));
    d.u(aftermath(&mut r, &s, 0)?);
    timed(&s, "dropping the robot", || {
        drop(r);
        Ok(())
    })?;
    Ok(d.0)
}
fn c09(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space(
            "c09-robot",
            1,
            "every robot call (six service calls, model download, reads, nine control calls) x one fault (silence, end of stream, end of everything, reset, cable cut, send errors, receive errors, signal) at every system call, then later calls in both orders",
            || robot_call(pick(CALLS), [1, 3][pick(2)], NET, 1, pick(2)),
        ),
        space(
            "c09-robot-pairs",
            2,
            "the same with every pair of faults",
            move || robot_call(if q { [0, 6, 8, 9, 15, 17][pick(6)] } else { pick(CALLS) }, 1, NET, 2, if q { 0 } else { pick(2) }),
        ),
        space(
            "c09-partial",
            0,
            "every robot call: its first, second or third reply stops after every number of bytes (long ones: around the header, the end and in steps), then the stream ends, is reset or the cable is cut at once, 1 or 12 ms later; then later calls",
            move || {
                let which = pick(CALLS);
                if which == 7 || which == 8 {
                    return Ok(0);
                }
                let n = 1 + pick(if which >= 9 { 2 } else if which == 2 { 3 } else { 1 });
                let lens: Vec<usize> = match which {
                    1 => (0..=13).chain((14..=165).step_by(if q { 19 } else { 1 })).chain([165]).collect(),
                    6 => (0..=14).collect(),
                    _ => (0..=12).collect(),
                };
                let b = lens[pick(lens.len())];
                let how = [X_FIN, X_FINALL, X_RST, X_CABLE][pick(4)];
                let d = [0, 1, 12][pick(3)];
                let order = pick(2);
                robot_call_with(which, 1, 0, 0, order, move |s| s.sever = Some((n, b, how, d)))
            },
        ),
        space("c09-aborted", 1, "nine control calls, aborted by the robot or ended badly while finishing, x one fault at every system call, then later calls", || failing_motion(NET, None)),
        space("c09-aborted-partial", 0, "the same, the final reply stops after every number of bytes, then the stream ends, is reset or the cable is cut", || {
            let b = pick(13);
            let how = [X_FIN, X_FINALL, X_RST, X_CABLE][pick(4)];
            let d = [0, 1, 12][pick(3)];
            failing_motion(0, Some((2, b, how, d)))
        }),
        space("c09-starting", 0, "nine control calls: the motion is accepted but does not become active, then the stream ends, is reset or the cable is cut 0 to 300 ms later", || {
            let mut sp = Spec::new(pick(9), 2);
            sp.finisher = (sp.kind == 8) as usize;
            let mut sim = robot_sim();
            sim.plans.push_back(Plan { start_state_lag: 1_000_000, ..Default::default() });
            let how = [X_FIN, X_FINALL, X_RST, X_CABLE][pick(4)];
            sim.sever = Some((1, 13, how, [0, 1, 12, 300][pick(4)]));
            let s = sim.install();
            let mut r = connect(&s)?;
            look(&s);
            let log = new_log();
            let g = gen(|c, _| distinct(c));
            let o = timed(&s, NAMES[sp.kind], || match run(&mut r, &s, &sp, &g, &log) {
                Ok(r) => r,
                Err(p) => panic!("{p}"),
            })?;
            ensure(matches!(o, Res::Network(_)), || format!("{}: the connection was lost ({:?}) before the motion became active, the call returned {o:?}", NAMES[sp.kind], s.borrow().injected))?;
            ensure(log.borrow().motion.is_empty() && log.borrow().torque.is_empty(), || "a callback was called".into())?;
            let d = aftermath(&mut r, &s, 0)?;
            timed(&s, "dropping the robot", || {
                drop(r);
                Ok(())
            })?;
            Ok(d)
        }),
        space("c09-gripper-partial", 0, "the same for every gripper call", || {
            let which = pick(4);
            let b = pick(12);
            let how = [X_FIN, X_FINALL, X_RST, X_CABLE][pick(4)];
            let d = [0, 1, 12][pick(3)];
            gripper_call_with(which, 0, 0, move |s| s.sever = Some((1, b, how, d)))
        }),
        space("c09-gripper", if q { 2 } else { 3 }, "every gripper call x faults at every system call (up to the bound), then later calls", || {
            gripper_call(pick(5), NET & !X_UDPSEND, 3)
        }),
        space("c09-signals", if q { 3 } else { 5 }, "signals interrupting any blocking system call of any call, several times", || {
            robot_call(pick(CALLS), 1, X_EINTR, 100, 0)
        }),
        space(
            "c09-silence",
            0,
            "pauses of the state stream of 0.1, 0.5, 0.9, 0.985 s (tolerated) and 1.01, 1.2, 2, 10 s (reported), during reads and at every cycle of a motion",
            || {
                let gap = [100, 500, 900, 985, 1010, 1200, 2000, 10_000][pick(8)];
                let which = pick(2 + 3);
                let at = pick(4) as u64;
                let s = robot_sim().install();
                let mut r = connect(&s)?;
                let t0 = now();
                let resume = std::rc::Rc::new(std::cell::Cell::new(0u64));
                {
                    // after `at` further states nothing is sent for `gap` ms
                    let mut sm = s.borrow_mut();
                    let start = sm.tick + at;
                    let r2 = resume.clone();
                    sm.quiet_from_to = Some((start, start + gap));
                    r2.set(start + gap);
                }
                let o = match which {
                    0 => {
                        let mut n = 0;
                        timed(&s, "a read loop", || {
                            r.read(|_| {
                                n += 1;
                                n < 5
                            })
                        })?
                    }
                    1 => {
                        let mut o = Res::Ok;
                        for _ in 0..5 {
                            o = timed(&s, "a single read", || r.read_once().map(|_| ()))?;
                            if o != Res::Ok {
                                break;
                            }
                        }
                        o
                    }
                    k => {
                        let mut sp = Spec::new([0, 6, 8][k - 2], 5);
                        sp.finisher = (sp.kind == 8) as usize;
                        let log = new_log();
                        let g = gen(|c, _| distinct(c));
                        timed(&s, "a motion", || match run(&mut r, &s, &sp, &g, &log) {
                            Ok(r) => r,
                            Err(p) => panic!("{p}"),
                        })?
                    }
                };
                let _ = t0;
                match (&o, gap > 1000) {
                    (Res::Ok, false) | (Res::Network(_), true) => {}
                    (o, _) => return Err(format!("a pause of {gap} ms in the state stream: {o:?}")),
                }
                Ok(Dig::new().s(&format!("{o:?}")).u(which as u64).u(at).0)
            },
        ),
    ]
}

// ------------------------------------------------------------------------------ connecting
fn released(s: &SimRef, what: &str) -> R<()> {
    let n = with(|w| w.k.open_fds());
    let sm = s.borrow();
    ensure(n == 0, || format!("{what}: {n} file descriptors are still open (faults {:?})", sm.injected))
}
fn keepalive_checked() -> R<()> {
    let ka = with(|w| Sim::keepalive_ns(&mut w.k));
    match ka {
        None => Err("keep-alive probing is not enabled".into()),
        Some(ns) => ensure(ns <= 60_000 * MS, || format!("keep-alive notices a dead peer only after {} s", ns / MS / 1000)),
    }
}
fn try_connect(gripper: bool, host: &str) -> (Res, Option<u16>, Option<Box<dyn std::any::Any>>) {
    if gripper {
        let o = call(|| Gripper::new(host));
        let r = res(&o);
        match o {
            Ok(Ok(g)) => (r, Some(g.server_version()), Some(Box::new(g))),
            _ => (r, None, None),
        }
    } else {
        let o = call(|| Robot::new(host, RealtimeConfig::Ignore, None));
        let r = res(&o);
        match o {
            Ok(Ok(g)) => (r, Some(g.server_version()), Some(Box::new(g))),
            _ => (r, None, None),
        }
    }
}
fn handshake_ok(s: &SimRef, gripper: bool) -> R<()> {
    let sm = s.borrow();
    let conns: Vec<u16> = sm.connects.iter().map(|a| a.1).collect();
    let port = if gripper { 1338 } else { 1337 };
    ensure(conns == [port], || format!("connected to ports {conns:?}, expected one connection to {port}"))?;
    ensure(sm.reqs.len() == 1 && sm.reqs[0].cmd == 0, || format!("{} requests sent while connecting", sm.reqs.len()))?;
    let port = with(|w| w.k.udp_mut().map(|u| u.port)).unwrap_or(0);
    let want = Wr(vec![]).u16(if gripper { 3 } else { 5 }).u16(port).0;
    ensure(port != 0 && sm.reqs[0].payload == want, || format!("connect request {:?}, expected {want:?}", sm.reqs[0].payload))?;
    sm.wire_clean()?;
    drop(sm);
    keepalive_checked()?;
    checked(4);
    Ok(())
}
fn c20(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c20-versions", 0, "robot and gripper x accepted/incompatible x server versions x reply latency x UDP port", || {
            let gripper = pick(2) == 1;
            let mut sim = Sim::new(gripper);
            let own = if gripper { 3 } else { 5 };
            let v = [own, own + 1, own - 1, 0, 1, 255, 256, 0x1234, 65535][pick(9)];
            sim.connect_version = v;
            // the gripper has three ways to refuse
            sim.connect_status = pick(if gripper { 4 } else { 2 }) as u16;
            sim.lag = [0, 1, 20][pick(3)];
            let bad = sim.connect_status != 0;
            let port = [0, 1, 255, 256, 40000, 65535][pick(6)];
            if port != 0 {
                with(|w| w.k.next_port = port);
            }
            let s = sim.install();
            let (o, ver, obj) = try_connect(gripper, "host.local");
            match &o {
                Res::Ok if !bad => {
                    ensure(ver == Some(v), || format!("the server announced version {v}, reported is {ver:?}"))?;
                    handshake_ok(&s, gripper)?;
                }
                Res::Version(sv, lv) if bad => {
                    ensure(*sv == v && *lv == own, || format!("incompatible versions reported as server {sv}, library {lv} instead of {v}, {own}"))?;
                    s.borrow().wire_clean()?;
                }
                o => return Err(format!("connecting with status {} returned {o:?}", bad as u8)),
            }
            drop(obj);
            released(&s, "after dropping the object")?;
            Ok(Dig::new().s(&format!("{o:?}")).u(v as u64).0)
        }),
        space("c20-failures", 0, "robot and gripper x unknown host, no address, refused, unreachable, timed out, wrong port; no reply; no state (robot); address lists", || {
            let gripper = pick(2) == 1;
            let mut sim = Sim::new(gripper);
            let f = pick(11);
            let mut expect_ok = false;
            match f {
                0 => sim.resolve = Err(libc::EAI_NONAME),
                1 => sim.resolve = Err(libc::EAI_AGAIN),
                2 => sim.resolve = Ok(vec![]),
                3 => sim.refuse = Some(libc::ECONNREFUSED),
                4 => sim.refuse = Some(libc::EHOSTUNREACH),
                5 => sim.refuse = Some(libc::ETIMEDOUT),
                6 => sim.refuse = Some(libc::ENETUNREACH),
                7 => {
                    // the server never answers; the cable is cut after a while
                    sim.connect_reply = false;
                    sim.faults = X_CABLE;
                    sim.force_fault_at = Some(5);
                }
                8 => {
                    // accepted, but no state ever arrives
                    sim.emit = false;
                    expect_ok = gripper;
                }
                9 => {
                    sim.resolve = Ok(vec![Ipv4Addr::new(10, 0, 0, 9), Ipv4Addr::new(10, 0, 0, 1)]);
                    expect_ok = true;
                }
                _ => {
                    sim.connect_reply = false;
                    sim.faults = X_RST;
                    sim.force_fault_at = Some(3);
                }
            }
            let s = sim.install();
            let t0 = now();
            let (o, _, obj) = try_connect(gripper, "host.local");
            let dt = (now() - t0) / MS;
            match &o {
                Res::Ok if expect_ok => {}
                Res::Network(_) if !expect_ok => {}
                o => return Err(format!("connecting ({}, failure {f}) returned {o:?}", if gripper { "gripper" } else { "robot" })),
            }
            ensure(dt <= 20_000, || format!("connecting took {dt} ms"))?;
            drop(obj);
            released(&s, "after the failed connection attempt")?;
            Ok(Dig::new().s(&format!("{o:?}")).u(f as u64).0)
        }),
        space(
            "c20-faults",
            if q { 2 } else { 3 },
            "robot and gripper x faults (resources exhausted, send and receive errors, end of stream, reset, cable cut, silence, signal, short writes) at every system call of the handshake; afterwards everything is released",
            || {
                let gripper = pick(2) == 1;
                let mut sim = Sim::new(gripper);
                sim.lag = 2;
                sim.faults = NET | X_SETUP | X_SHORT;
                sim.fault_budget = 3;
                let s = sim.install();
                let t0 = now();
                let (o, ver, obj) = try_connect(gripper, "host.local");
                let dt = (now() - t0) / MS;
                let h = hurt(&s.borrow(), 0);
                let inj = s.borrow().injected.clone();
                match &o {
                    Res::Ok => {
                        ensure(!h.lost || !h.tcp, || format!("connected although the handshake was cut off: {inj:?}"))?;
                        if !h.tcp && !h.setup {
                            handshake_ok(&s, gripper)?;
                        }
                        ensure(ver == Some(if gripper { 3 } else { 5 }), || format!("server version {ver:?}"))?;
                    }
                    Res::Network(_) => {
                        ensure(h.tcp || h.silent || h.setup || h.udp_recv, || format!("connecting failed with the faults {inj:?}: {o:?}"))?;
                    }
                    o => return Err(format!("connecting with the faults {inj:?} returned {o:?}")),
                }
                ensure(dt <= 20_000, || format!("connecting took {dt} ms with the faults {inj:?}"))?;
                let kept = obj.is_some();
                s.borrow_mut().faults = 0;
                drop(obj);
                released(&s, if kept { "after dropping the object" } else { "after the failed connection attempt" })?;
                checked(3);
                Ok(Dig::new().s(&format!("{o:?}")).0)
            },
        ),
        space("c20-partial", 0, "robot and gripper: the connect reply stops after every number of bytes, then the stream ends, is reset or the cable is cut at once, 1 or 12 ms later: a network error, everything released", || {
            let gripper = pick(2) == 1;
            let mut sim = Sim::new(gripper);
            sim.connect_version = 5;
            let b = pick(if gripper { 14 } else { 15 });
            let how = [X_FIN, X_FINALL, X_RST, X_CABLE][pick(4)];
            let d = [0, 1, 12][pick(3)];
            sim.sever = Some((0, b, how, d));
            sim.lag = [0, 2][pick(2)];
            let s = sim.install();
            let t0 = now();
            let (o, _, obj) = try_connect(gripper, "host.local");
            let dt = (now() - t0) / MS;
            ensure(matches!(o, Res::Network(_)), || format!("connecting with a reply cut off after {b} bytes returned {o:?}"))?;
            ensure(dt <= 20_000, || format!("connecting took {dt} ms with a reply cut off after {b} bytes"))?;
            drop(obj);
            released(&s, "after a failed connection")?;
            checked(2);
            Ok(Dig::new().s(&format!("{o:?}")).u(b as u64).0)
        }),
        space("c20-replies", if q { 3 } else { 4 }, "connect replies split, delayed, merged with foreign replies, with interrupted waits and lost or bursty first states", || {
            let gripper = pick(2) == 1;
            let mut sim = Sim::new(gripper);
            sim.connect_version = 77;
            sim.reply_menu = true;
            sim.udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST;
            sim.faults = X_EINTR;
            sim.fault_budget = 10;
            let s = sim.install();
            let (o, ver, obj) = try_connect(gripper, "host.local");
            ensure(o == Res::Ok && ver == Some(77), || format!("connecting returned {o:?}, version {ver:?}"))?;
            handshake_ok(&s, gripper)?;
            drop(obj);
            released(&s, "after dropping the object")?;
            let t = s.borrow().tick;
            Ok(Dig::new().u(t).0)
        }),
        space("c20-lifecycle", 0, "several robots and grippers one after another, dropped after use, after errors and after motions: nothing accumulates", || {
            let mut d = Dig::new();
            for _ in 0..3 {
                let k = pick(5);
                let gripper = k >= 3;
                let mut sim = Sim::new(gripper);
                if k == 2 {
                    sim.plans.push_back(Plan {
                        abort: Some(Abort { at: 1, status: MV_REFLEX, mode: wire::RM_REFLEX, reply_lag: 0, state_lag: 0, flags: vec![3] }),
                        finish_lag: 30,
                        ..Default::default()
                    });
                }
                let s = sim.install();
                if gripper {
                    let mut g = connect_gripper(&s)?;
                    if k == 4 {
                        let o = res(&call(|| g.homing()));
                        ensure(o == Res::Ok, || format!("homing {o:?}"))?;
                    }
                } else {
                    let mut r = connect(&s)?;
                    let sp = Spec::new(0, 2);
                    if k == 1 {
                        super::motions::good_motion(&mut r, &s, &sp)?;
                    } else if k == 2 {
                        super::motions::bad_motion(&mut r, &s, &sp, MV_REFLEX, true, &[3], 50)?;
                    }
                }
                released(&s, "after dropping the object")?;
                d.u(k as u64);
            }
            Ok(d.0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            spaces: c09,
            assumptions: &[
                "a peer that keeps the TCP connection alive but never answers a request is not covered (no timeout is promised)",
                "an error reported while draining waiting datagrams may be ignored if a state follows",
            ],
        },
        Prop { id: "C20", spaces: c20, assumptions: &[] },
    ]
}
#[allow(dead_code)]
fn _u() {
    let _ = st::SIZE;
}
