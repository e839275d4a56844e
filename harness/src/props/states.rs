//! C04 freshness and integrity of robot states, C05 field decoding, C25 error sets.
use super::ctl::*;
use super::motions::{good_motion, step, STEPS};
use super::services::Op;
use super::util::*;
use super::Prop;
use crate::explore::{checked, count, dev, pick, space, Dig, Space};
use crate::sim::*;
use crate::wire::{self, compare, st, State, ERROR_NAMES};
use crate::Tier;
use franka::robot::error::FrankaError;
use franka::robot::errors::FrankaErrors;
use franka::RobotState;

/// Reads the delivered state number and checks its content.
fn check_state(s: &SimRef, x: &RobotState, last: &mut u64) -> R<u64> {
    let m = x.time.as_millis() as u64;
    let sm = s.borrow();
    let d = sm.sent.get(&m).ok_or_else(|| format!("a state with number {m} was given out, which the robot never sent"))?;
    compare(x, d)?;
    ensure(m > *last, || format!("state {m} was given out after state {last}"))?;
    ensure(sm.delivered.contains_key(&m), || format!("state {m} was given out before it arrived whole"))?;
    *last = m;
    checked(3);
    Ok(m)
}
/// Read loop over `n` states; `pause` is the time the callback takes.  Returns what happened.
fn read_loop(r: &mut franka::Robot, s: &SimRef, n: usize, last: &mut u64, pause: &mut dyn FnMut() -> u64) -> R<Res> {
    let mut got = 0usize;
    let mut bad = None;
    let mut lk = crate::world::with(|w| s.borrow().waiting(&mut w.k));
    let o = call(|| {
        r.read(|x| {
            got += 1;
            let l0 = *last;
            let v = check_state(s, x, last).and_then(|m| {
                // the waiting newest state counts only if it is newer than what was given out before
                ensure(m >= lk || lk <= l0, || format!("state {m} was given out although {lk} was already waiting"))
            });
            if let Err(e) = v {
                bad.get_or_insert(e);
            }
            let p = pause();
            if p > 0 {
                std::thread::sleep(std::time::Duration::from_millis(p));
            }
            lk = crate::world::with(|w| s.borrow().waiting(&mut w.k));
            got < n
        })
    });
    if let Some(e) = bad {
        return Err(e);
    }
    let rs = res(&o);
    match &rs {
        Res::Ok => ensure(got == n, || format!("the read callback was invoked {got} times instead of {n}"))?,
        Res::Network(_) => ensure(got < n, || "the read callback was invoked after it had returned false".into())?,
        o => return Err(format!("the read loop returned {o:?}")),
    }
    Ok(rs)
}
fn read_one(r: &mut franka::Robot, s: &SimRef, last: &mut u64) -> R<Res> {
    let t = s.borrow().tick;
    let o = call(|| r.read_once());
    if let Ok(Ok(x)) = &o {
        let m = check_state(s, x, last)?;
        let d = s.borrow().delivered_last[&m];
        ensure(d > t, || format!("a single read returned state {m}, which had arrived {} ms before the call", t - d))?;
    }
    let rs = res(&o);
    match rs {
        Res::Ok | Res::Network(_) => Ok(rs),
        o => Err(format!("a single read returned {o:?}")),
    }
}
fn c04(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space(
            "c04-windows",
            0,
            "every arrival sequence of up to four (thorough: five) datagrams drawn with repetition from a window of five states or a truncated one, each in the same millisecond as its predecessor or later, x read loop / single reads / mixed",
            move || {
                let mut sim = robot_sim();
                sim.msg = [100, 0x7fff_fffd, 0xffff_fffd][pick(3)];
                let s = sim.install();
                let mut r = connect(&s)?;
                let mode = pick(3);
                let n = 1 + pick(if q { 4 } else { 5 });
                let mut win = vec![];
                {
                    let mut sm = s.borrow_mut();
                    sm.emit = false;
                    for _ in 0..5 {
                        win.push(sm.make_state());
                    }
                    let mut t = sm.tick + 1;
                    // the first arrivals may precede the call
                    for i in 0..n {
                        let d = pick(6);
                        if i > 0 && pick(2) == 1 {
                            t += 2;
                        }
                        let b = if d < 5 { win[d].clone() } else { win[4][..st::SIZE - 1].to_vec() };
                        if d == 5 {
                            sm.truncated += 1;
                        }
                        sm.held.push((t, b));
                    }
                }
                if pick(2) == 1 {
                    // the first group is already waiting
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                let mut last = 0;
                let mut d = Dig::new();
                let mut before = true;
                for k in 0..n + 2 {
                    let rs = if mode == 0 || (mode == 2 && k % 2 == 1) {
                        read_loop(&mut r, &s, if mode == 0 { n + 1 } else { 1 }, &mut last, &mut || 0)?
                    } else {
                        before = false;
                        read_one(&mut r, &s, &mut last)?
                    };
                    d.u(last).u((rs == Res::Ok) as u64);
                    if rs != Res::Ok {
                        let sm = s.borrow();
                        if sm.truncated > 0 && (!sm.held.is_empty() || k < n) {
                            // a truncated packet may end the call; the connection stays usable
                            drop(sm);
                            if s.borrow().held.is_empty() && crate::world::with(|w| w.k.udp_waiting()) == 0 {
                                break;
                            }
                            continue;
                        }
                        break;
                    }
                }
                let sm = s.borrow();
                if before && sm.truncated == 0 {
                    let m = sm.delivered.keys().max().copied().unwrap_or(0);
                    let m = if m > sm.msg { 0 } else { m };
                    ensure(last == m || (last == 0 && m <= sm.msg - 5), || format!("the newest state {m} arrived but only {last} was given out"))?;
                    checked(1);
                }
                drop(sm);
                drop(r);
                Ok(d.0)
            },
        ),
        space(
            "c04-readloop",
            if q { 4 } else { 6 },
            "read loop over five states, every pattern of lost, duplicated, delayed, truncated and bursty datagrams and callbacks taking 0, 1 or 3 ms within the bound",
            || {
                let mut sim = robot_sim();
                let s0 = pick(3);
                sim.msg = [100, 0x7fff_fffc, 0xffff_fffc][s0];
                let s = sim.install();
                let mut r = connect(&s)?;
                s.borrow_mut().udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST | U_TRUNC;
                let mut last = 0;
                let rs = read_loop(&mut r, &s, 5, &mut last, &mut || [0, 1, 3][dev(3)])?;
                ensure(rs == Res::Ok || s.borrow().truncated > 0, || format!("reading from a healthy robot failed: {rs:?}"))?;
                // and it goes on
                s.borrow_mut().udp_menu = 0;
                let rs2 = read_loop(&mut r, &s, 2, &mut last, &mut || 0)?;
                ensure(rs2 == Res::Ok || s.borrow().truncated > 0, || format!("reading again failed: {rs2:?}"))?;
                Ok(Dig::new().u(last).u((rs == Res::Ok) as u64).0)
            },
        ),
        space(
            "c04-single",
            if q { 5 } else { 7 },
            "three single reads with pauses of 0, 1 or 4 ms between them, same datagram patterns; a service call in between",
            || {
                let sim = robot_sim();
                let s = sim.install();
                let mut r = connect(&s)?;
                s.borrow_mut().udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST | U_TRUNC;
                let mut last = 0;
                let mut d = Dig::new();
                for i in 0..3 {
                    let rs = read_one(&mut r, &s, &mut last)?;
                    ensure(rs == Res::Ok || s.borrow().truncated > 0, || format!("a single read from a healthy robot failed: {rs:?}"))?;
                    d.u(last);
                    let p = [0, 1, 4][dev(3)];
                    if p > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(p));
                    }
                    if i == 0 {
                        let o = res(&call(|| Op::new(1, 0).run(&mut r)));
                        ensure(o == Res::Ok, || format!("service call: {o:?}"))?;
                    }
                }
                Ok(d.0)
            },
        ),
        space(
            "c04-backlog",
            0,
            "pauses (every length from 1 to 200 ms) during which states pile up: before and inside read loops, between single reads, in the callbacks of four kinds of control loops",
            || {
                let n = 1 + pick(200) as u64;
                let mode = pick(6);
                let s = robot_sim().install();
                let mut r = connect(&s)?;
                let mut last = 0;
                let nap = |n: u64| std::thread::sleep(std::time::Duration::from_millis(n));
                if mode == 0 {
                    nap(n);
                    let mut k = 0;
                    let rs = read_loop(&mut r, &s, 4, &mut last, &mut || {
                        k += 1;
                        [0, n, 0][k % 3]
                    })?;
                    ensure(rs == Res::Ok, || format!("read loop: {rs:?}"))?;
                } else if mode == 1 {
                    for _ in 0..2 {
                        nap(n);
                        let rs = read_one(&mut r, &s, &mut last)?;
                        ensure(rs == Res::Ok, || format!("single read: {rs:?}"))?;
                    }
                } else {
                    let kind = [0, 3, 6, 8][mode - 2];
                    let mut sp = Spec::new(kind, 4);
                    sp.finisher = (kind == 8) as usize;
                    look(&s);
                    nap(n);
                    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
                    let log = new_log();
                    let g = gen(|c, _| distinct(c));
                    let mut k = 0;
                    let o = res(&run_sleep(&mut r, &s, &sp, &g, &log, &mut |_| {
                        k += 1;
                        [0, n, 0, 1][k % 4]
                    }));
                    ensure(o == Res::Ok, || format!("{}: {o:?}", NAMES[kind]))?;
                    check_trace(&s.borrow(), e0, r0, &sp, &log.borrow(), End::Success, true)?;
                }
                Ok(n * 6 + mode as u64)
            },
        ),
        space(
            "c04-control",
            if q { 3 } else { 4 },
            "control loops of four kinds with the same datagram patterns and slow callbacks: every state given to the callback",
            || {
                let kind = [0, 3, 6, 8][pick(4)];
                let mut sp = Spec::new(kind, 4);
                sp.finisher = (kind == 8) as usize;
                let mut sim = robot_sim();
                sim.udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST | U_TRUNC;
                let s = sim.install();
                let mut r = match call(|| franka::Robot::new("robot.local", franka::RealtimeConfig::Ignore, None)) {
                    Ok(Ok(r)) => r,
                    Ok(Err(_)) if s.borrow().truncated > 0 => return Ok(1),
                    o => return Err(format!("connecting failed: {:?}", res(&o))),
                };
                look(&s);
                let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
                let log = new_log();
                let g = gen(|c, _| distinct(c));
                let o = res(&run_sleep(&mut r, &s, &sp, &g, &log, &mut |_| [0, 1, 3][dev(3)]));
                let sm = s.borrow();
                match &o {
                    Res::Ok => {
                        check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Success, true)?;
                    }
                    Res::Network(_) if sm.truncated > 0 => {
                        check_trace(&sm, e0, r0, &sp, &log.borrow(), End::Other, true)?;
                    }
                    o => return Err(format!("{}: {o:?}", NAMES[kind])),
                }
                Ok(Dig::new().u(kind as u64).u(sm.cbs(0).last().map(|x| x.0).unwrap_or(0)).s(&format!("{o:?}")).0)
            },
        ),
        space(
            "c04-old",
            0,
            "every way a call can end (good, aborted, preempted, rejected and failed motions, reads, every service call, model download) or two of them, then copies of states given out long ago arrive before the next new state: read loop, single read or control call",
            move || {
                let sim = robot_sim();
                let s = sim.install();
                let mut r = connect(&s)?;
                let mut d = Dig::new();
                let n = 1 + pick(2);
                for i in 0..n {
                    let w = pick(if i == 0 { STEPS + super::services::NOPS + 1 } else { 7 });
                    if w == STEPS {
                        let o = res(&call(|| r.load_model(false)));
                        ensure(o == Res::Ok, || format!("loading the model: {o:?}"))?;
                    } else if w > STEPS {
                        let op = super::services::Op::new(w - STEPS - 1, 0);
                        let o = res(&call(|| op.run(&mut r)));
                        ensure(o == Res::Ok, || format!("{op:?}: {o:?}"))?;
                    } else {
                        d.u(step(&mut r, &s, [0, 4, 8][i], w)?);
                    }
                }
                let mut last = s.borrow().ev.iter().filter_map(|e| if let Ev::Read(m, true) = e { Some(*m) } else { None }).max().unwrap_or(0);
                {
                    let mut sm = s.borrow_mut();
                    let all: Vec<u64> = sm.sent.keys().copied().collect();
                    let k = all.iter().position(|m| *m == last).ok_or("no state was received")?;
                    let old = all[[k, k.saturating_sub(1), k.saturating_sub(3), 0][pick(4)]];
                    let b = sm.sent[&old].b.clone();
                    let t = sm.tick;
                    // the regular states of the next milliseconds are lost
                    sm.quiet_from_to = Some((t, t + 4));
                    sm.held.push((t + 1, b.clone()));
                    sm.held.push((t + 2, b));
                }
                let mode = pick(3);
                if pick(2) == 1 {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                match mode {
                    0 => {
                        let rs = read_loop(&mut r, &s, 2, &mut last, &mut || 0)?;
                        ensure(rs == Res::Ok, || format!("read loop: {rs:?}"))?;
                    }
                    1 => {
                        let rs = read_one(&mut r, &s, &mut last)?;
                        ensure(rs == Res::Ok, || format!("single read: {rs:?}"))?;
                    }
                    _ => {
                        let mut sp = Spec::new(pick(KINDS), 2);
                        sp.finisher = (sp.kind == 8) as usize;
                        let e0 = s.borrow().ev.len();
                        good_motion(&mut r, &s, &sp)?;
                        let sm = s.borrow();
                        for e in &sm.ev[e0..] {
                            if let Ev::Cb(_, m, _) = e {
                                ensure(*m >= last, || format!("a control callback got state {m} after {last} had been given out"))?;
                                last = *m;
                            }
                        }
                    }
                }
                Ok(d.u(mode as u64).0)
            },
        ),
        space(
            "c04-histories",
            if q { 3 } else { 4 },
            "all sequences of three calls over {read loop, single read, motion, service call} with lost, delayed, duplicated and bursty datagrams and pauses between the calls: numbers increase over the whole connection",
            || {
                let sim = robot_sim();
                let s = sim.install();
                let mut r = connect(&s)?;
                s.borrow_mut().udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST;
                let mut last = 0;
                let mut d = Dig::new();
                for i in 0..3 {
                    let w = pick(4);
                    match w {
                        0 => {
                            let rs = read_loop(&mut r, &s, 2, &mut last, &mut || 0)?;
                            ensure(rs == Res::Ok, || format!("read loop: {rs:?}"))?;
                        }
                        1 => {
                            let rs = read_one(&mut r, &s, &mut last)?;
                            ensure(rs == Res::Ok, || format!("single read: {rs:?}"))?;
                        }
                        2 => {
                            let mut sp = Spec::new(i, 2);
                            sp.finisher = 0;
                            let e0 = s.borrow().ev.len();
                            good_motion(&mut r, &s, &sp)?;
                            let sm = s.borrow();
                            for e in &sm.ev[e0..] {
                                if let Ev::Cb(_, m, _) = e {
                                    ensure(*m > last, || format!("a control callback got state {m} after {last} had been given out"))?;
                                    last = *m;
                                }
                            }
                        }
                        _ => {
                            let o = res(&call(|| Op::new(1, 0).run(&mut r)));
                            ensure(o == Res::Ok, || format!("service call: {o:?}"))?;
                        }
                    }
                    d.u(w as u64).u(last);
                    let p = [0, 2][dev(2)];
                    if p > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(p));
                    }
                }
                Ok(d.0)
            },
        ),
    ]
}
/// Hands the state to the library through a single read (or the read loop) and returns what it published.
fn publish(r: &mut franka::Robot, s: &SimRef, d: &State, via: usize) -> R<RobotState> {
    {
        let mut sm = s.borrow_mut();
        sm.emit = false;
        sm.stamp = false;
        sm.st = d.clone();
        let b = sm.make_state();
        let t = sm.tick;
        sm.held.push((t + 1, b));
    }
    let mut out = None;
    let o = if via == 0 {
        call(|| r.read_once()).map(|x| x.map(|v| out = Some(v)))
    } else {
        call(|| {
            r.read(|x| {
                out = Some(x.clone());
                false
            })
        })
    };
    let rs = res(&o);
    ensure(rs == Res::Ok, || format!("reading the state failed: {rs:?}"))?;
    count(1);
    out.ok_or_else(|| "no state".into())
}
fn publish_checked(r: &mut franka::Robot, s: &SimRef, d: &State, via: usize) -> R<RobotState> {
    let p = publish(r, s, d, via)?;
    let sm = s.borrow();
    let sent = sm.sent.get(&sm.msg).ok_or("no state sent")?;
    compare(&p, sent)?;
    checked(1);
    Ok(p)
}
const SPECIAL: [u64; 9] = [
    0,
    0x8000_0000_0000_0000,
    0x7ff8_0000_0000_0001,
    0xfff0_0000_0000_0000,
    0x7fef_ffff_ffff_ffff,
    1,
    0x3ff0_0000_0000_0000,
    0x0102_0304_0506_0708,
    0xffff_ffff_ffff_ffff,
];
fn slots() -> Vec<usize> {
    st::ALL.iter().flat_map(|f| (0..f.n).map(move |i| f.off + 8 * i)).collect()
}
fn painted(seed: u64, rm: u8) -> State {
    let mut d = State::new();
    d.paint(seed);
    d.set_modes(0, 3, rm);
    d
}
fn c05(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c05-slots", 0, "each of the floating point slots x nine special bit patterns (other slots distinct), through single read and read loop", || {
            let sl = slots();
            let i = pick(sl.len());
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            for (k, v) in SPECIAL.iter().enumerate() {
                let mut d = painted(7 + k as u64, 1);
                d.b[sl[i]..sl[i] + 8].copy_from_slice(&v.to_le_bytes());
                publish_checked(&mut r, &s, &d, k % 2)?;
            }
            Ok(i as u64)
        }),
        space("c05-first", 0, "slots distinguished individually against an all-equal background (one slot differs at a time)", || {
            let sl = slots();
            let i = pick(sl.len());
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            for bg in [0.0f64, 1.0, -2.5] {
                let mut d = State::new();
                for x in &sl {
                    d.b[*x..*x + 8].copy_from_slice(&bg.to_le_bytes());
                }
                d.b[sl[i]..sl[i] + 8].copy_from_slice(&(bg + 0.75).to_le_bytes());
                publish_checked(&mut r, &s, &d, 0)?;
            }
            Ok(i as u64)
        }),
        space("c05-modes", 0, "every motion generator mode x controller mode x robot mode, via both read calls", || {
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            let (mg, cm, rm) = (pick(5) as u8, pick(4) as u8, pick(7) as u8);
            let mut d = painted(3, 1);
            d.set_modes(mg, cm, rm);
            publish_checked(&mut r, &s, &d, 0)?;
            publish_checked(&mut r, &s, &d, 1)?;
            Ok(mg as u64 * 100 + cm as u64 * 10 + rm as u64)
        }),
        space("c05-flags", 0, "every ordered pair of flags, the first in the current and the second in the last-motion set (and one set empty), and all flags but these", || {
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            let i = pick(42);
            for j in 0..42usize {
                let mut d = painted(9, 4);
                d.set_flags(st::ERRORS, &[i][..(i < 41) as usize]);
                d.set_flags(st::REFLEX, &[j][..(j < 41) as usize]);
                publish_checked(&mut r, &s, &d, 0)?;
                // all but these
                d.set_flags(st::ERRORS, &(0..41).filter(|k| *k != i).collect::<Vec<_>>());
                d.set_flags(st::REFLEX, &(0..41).filter(|k| *k != j).collect::<Vec<_>>());
                publish_checked(&mut r, &s, &d, 0)?;
            }
            Ok(i as u64)
        }),
        space("c05-time", 0, "message numbers around powers of two: time equals the number in milliseconds", || {
            let b = 1 + pick(52);
            let k = pick(3) as u64;
            let mut sim = robot_sim();
            sim.msg = (1u64 << b) - 2 + k;
            let s = sim.install();
            let mut r = connect(&s)?;
            publish_checked(&mut r, &s, &painted(1, 1), 0)?;
            publish_checked(&mut r, &s, &painted(2, 1), 1)?;
            Ok(b as u64 * 4 + k)
        }),
        space("c05-inertia", 0, "grid of end-effector and load mass, center of mass and (asymmetric) inertia including zero masses", move || {
            let ms = [0.0, 1e-12, 0.5, 3.0, 70.0];
            let cs = [[0.; 3], [0.1, -0.2, 0.3], [-1., 2., 0.5], [0., 0., -0.05]];
            let is = [[0.; 9], [1., 0.1, 0.2, 0.1, 2., 0.3, 0.2, 0.3, 3.], [0.5, -0.1, 0.02, 0.3, 0.25, -0.04, 0.6, 0.07, 0.125]];
            let (m1, m2) = (ms[pick(5)], ms[pick(5)]);
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            let (a, b) = (pick(4), pick(4));
            for i1 in is {
                for i2 in is {
                    let mut d = State::new();
                    d.set(st::m_ee, &[m1]);
                    d.set(st::m_load, &[m2]);
                    d.set(st::F_x_Cee, &cs[a]);
                    d.set(st::F_x_Cload, &cs[b]);
                    d.set(st::I_ee, &i1);
                    d.set(st::I_load, &i2);
                    publish_checked(&mut r, &s, &d, 0)?;
                }
            }
            let _ = q;
            Ok(Dig::new().u(m1.to_bits()).u(m2.to_bits()).u(a as u64).u(b as u64).0)
        }),
        space("c05-paths", 0, "fully distinct states through every path: connection, read, single read, all control callbacks", || {
            let kind = pick(KINDS);
            let mut sp = Spec::new(kind, 3);
            sp.finisher = (kind == 8) as usize;
            let mut sim = robot_sim();
            sim.track = false;
            sim.stamp = false;
            let mut n = 0;
            let fl = pick(3);
            sim.hook = Some(Box::new(move |x: &mut State, v| {
                n += 1;
                let (mg, cm, rm) = (x.mg(), x.cm(), x.rm());
                x.paint(n * 31 + v.tick);
                x.set_modes(mg, cm, rm);
                x.set_flags(st::ERRORS, &[if fl == 1 { (n % 41) as usize } else { 40 - (n % 41) as usize }][..(fl > 0) as usize]);
                x.set_flags(st::REFLEX, &[((n + 7) % 41) as usize][..(fl > 1) as usize]);
            }));
            let s = sim.install();
            let mut r = connect(&s)?;
            let d = good_motion(&mut r, &s, &sp)?;
            let mut last = 0;
            read_one(&mut r, &s, &mut last)?;
            read_loop(&mut r, &s, 2, &mut last, &mut || 0)?;
            Ok(d.0 ^ fl as u64)
        }),
    ]
}
const KINDS_OF_ERROR: [FrankaError; 41] = {
    use FrankaError::*;
    [
        JointPositionLimitsViolation, CartesianPositionLimitsViolation, SelfCollisionAvoidanceViolation, JointVelocityViolation,
        CartesianVelocityViolation, ForceControlSafetyViolation, JointReflex, CartesianReflex, MaxGoalPoseDeviationViolation,
        MaxPathPoseDeviationViolation, CartesianVelocityProfileSafetyViolation, JointPositionMotionGeneratorStartPoseInvalid,
        JointMotionGeneratorPositionLimitsViolation, JointMotionGeneratorVelocityLimitsViolation,
        JointMotionGeneratorVelocityDiscontinuity, JointMotionGeneratorAccelerationDiscontinuity,
        CartesianPositionMotionGeneratorStartPoseInvalid, CartesianMotionGeneratorElbowLimitViolation,
        CartesianMotionGeneratorVelocityLimitsViolation, CartesianMotionGeneratorVelocityDiscontinuity,
        CartesianMotionGeneratorAccelerationDiscontinuity, CartesianMotionGeneratorElbowSignInconsistent,
        CartesianMotionGeneratorStartElbowInvalid, ForceControllerDesiredForceToleranceViolation, StartElbowSignInconsistent,
        CommunicationConstraintsViolation, PowerLimitViolation, CartesianMotionGeneratorJointPositionLimitsViolation,
        CartesianMotionGeneratorJointVelocityLimitsViolation, CartesianMotionGeneratorJointVelocityDiscontinuity,
        CartesianMotionGeneratorJointAccelerationDiscontinuity, CartesianPositionMotionGeneratorInvalidFrame,
        ControllerTorqueDiscontinuity, JointP2PInsufficientTorqueForPlanning, TauJRangeViolation, InstabilityDetection,
        JointMoveInWrongDirection, CartesianSplineViolation, JointViaPlanLimitViolation, BaseAccelerationInitializationTimeout,
        BaseAccelerationInvalidReading,
    ]
};
fn check_set(name: &str, e: &FrankaErrors, on: &[usize]) -> R<()> {
    let txt = format!("{e}");
    let inner = txt.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| format!("{name}: {txt:?} is not a bracketed list"))?;
    let got: Vec<&str> =
        if inner.trim().is_empty() { vec![] } else { inner.split(',').map(|x| x.trim().trim_matches('"')).collect() };
    let want: Vec<&str> = on.iter().map(|i| ERROR_NAMES[*i]).collect();
    ensure(got == want, || format!("{name}: text {txt:?}, active conditions {want:?}"))?;
    for (i, k) in KINDS_OF_ERROR.iter().enumerate() {
        let c = e.contains(*k);
        ensure(c == on.contains(&i), || format!("{name}: contains({k:?}) is {c} with active conditions {want:?}"))?;
        ensure(*k as u64 as usize == i && format!("{k}") == ERROR_NAMES[i], || format!("condition {i} is named {k}"))?;
    }
    checked(42);
    Ok(())
}
fn flag_sets(r: &mut franka::Robot, s: &SimRef, a: &[usize], b: &[usize]) -> R<()> {
    let mut d = State::new();
    d.set_modes(0, 3, wire::RM_REFLEX);
    d.set_flags(st::ERRORS, a);
    d.set_flags(st::REFLEX, b);
    let p = publish(r, s, &d, 0)?;
    check_set("current_errors", &p.current_errors, a)?;
    check_set("last_motion_errors", &p.last_motion_errors, b)
}
fn c25(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c25-pairs", 0, "no flag, every single flag, every pair, all, all but one, all but two; a different set in the other error list", || {
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            let i = pick(42);
            for j in i..42 {
                let set: Vec<usize> = (0..41).filter(|x| *x == i || *x == j).collect();
                let rest: Vec<usize> = (0..41).filter(|x| *x != i && *x != j).collect();
                flag_sets(&mut r, &s, &set, &rest)?;
                flag_sets(&mut r, &s, &rest, &set)?;
            }
            Ok(i as u64)
        }),
        space("c25-triples", 0, "every three flags, the first two in one error list and the third in the other (quick), all in one (both tiers)", move || {
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            let i = pick(39);
            let j = i + 1 + pick(39 - i);
            for k in j + 1..41 {
                flag_sets(&mut r, &s, &[i, j, k], &[j])?;
                if !q {
                    flag_sets(&mut r, &s, &[i, k], &[i, j, k])?;
                    for l in k + 1..41 {
                        flag_sets(&mut r, &s, &[i, j, k, l], &[k])?;
                    }
                }
            }
            Ok((i * 41 + j) as u64)
        }),
        space("c25-reports", 0, "a reflex with every single flag and every pair of neighbouring flags, in the text of the control error of three control calls", || {
            let i = pick(41);
            let on: Vec<usize> = if pick(2) == 0 { vec![i] } else { let mut v = vec![i, (i + 1) % 41]; v.sort(); v };
            let kind = [0, 6, 8][pick(3)];
            let mut sp = Spec::new(kind, 3);
            sp.finisher = (kind == 8) as usize;
            let mut sim = robot_sim();
            sim.plans.push_back(Plan {
                abort: Some(Abort { at: 2, status: MV_REFLEX, mode: wire::RM_REFLEX, reply_lag: 0, state_lag: 0, flags: on.clone() }),
                finish_lag: 40,
                ..Default::default()
            });
            let s = sim.install();
            let mut r = connect(&s)?;
            let (d, _) = super::motions::bad_motion(&mut r, &s, &sp, MV_REFLEX, true, &on, 50)?;
            Ok(d.0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", spaces: c04, assumptions: &["a truncated datagram may be skipped or end the pending call with a network error"] },
        Prop { id: "C05", spaces: c05, assumptions: &[] },
        Prop { id: "C25", spaces: c25, assumptions: &[] },
    ]
}
