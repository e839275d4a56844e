//! C21 gripper commands, C22 gripper states.
use super::util::*;
use super::Prop;
use crate::explore::{checked, dev, pick, space, Dig, Space};
use crate::sim::*;
use crate::wire::{self, Req, Wr};
use crate::Tier;
use franka::exception::FrankaException;
use franka::{Gripper, GripperState};

/// The published state must be the image of one datagram that was sent.
pub fn check_state(s: &Sim, x: &GripperState) -> R<u32> {
    let m = x.time.as_millis() as u32;
    let d = s.gsent.get(&m).ok_or_else(|| format!("a gripper state with number {m} was given out, which was never sent"))?;
    let mut r = wire::Rd::new(d);
    let id = r.u32();
    let [w, mx]: [f64; 2] = r.f();
    let g = r.u8() != 0;
    let t = r.u16();
    ensure(
        x.time == std::time::Duration::from_millis(id as u64)
            && x.width.to_bits() == w.to_bits()
            && x.max_width.to_bits() == mx.to_bits()
            && x.is_grasped == g
            && x.temperature == t,
        || format!("gripper state {x:?} differs from the datagram (id {id}, width {w}, max {mx}, grasped {g}, temperature {t})"),
    )?;
    checked(1);
    Ok(m)
}
const OPS: usize = 8;
#[derive(Clone, Debug)]
struct GOp {
    k: usize,
    pat: usize,
}
impl GOp {
    fn v(&self, i: usize) -> f64 {
        super::services::val(self.pat, i)
    }
    fn cmd(&self) -> u32 {
        [1, 3, 2, 2, 2, 2, 4, 3][self.k]
    }
    fn payload(&self) -> Vec<u8> {
        let w = Wr(vec![]);
        let (a, b) = (self.v(5), self.v(6));
        match self.k {
            0 | 6 => vec![],
            1 => w.f(&[self.v(0), self.v(1)]).0,
            7 => w.f(&[self.v(3), self.v(2)]).0,
            // width, inner and outer tolerance, speed, force
            2 => w.f(&[self.v(0), 0.005, 0.005, self.v(1), self.v(2)]).0,
            3 => w.f(&[self.v(0), a, b, self.v(1), self.v(2)]).0,
            4 => w.f(&[self.v(0), a, 0.005, self.v(1), self.v(2)]).0,
            _ => w.f(&[self.v(0), 0.005, b, self.v(1), self.v(2)]).0,
        }
    }
    fn run(&self, g: &mut Gripper) -> Result<bool, FrankaException> {
        let (w, s, f, a, b) = (self.v(0), self.v(1), self.v(2), self.v(5), self.v(6));
        match self.k {
            0 => g.homing(),
            1 => g.move_gripper(w, s),
            7 => g.move_gripper(self.v(3), self.v(2)),
            2 => g.grasp(w, s, f, None, None),
            3 => g.grasp(w, s, f, Some(a), Some(b)),
            4 => g.grasp(w, s, f, Some(a), None),
            5 => g.grasp(w, s, f, None, Some(b)),
            _ => g.stop(),
        }
    }
    fn check(&self, reqs: &[Req], from: usize) -> R<()> {
        ensure(reqs.len() == from + 1, || format!("{self:?} sent {} requests", reqs.len() - from))?;
        let r = &reqs[from];
        ensure(r.cmd == self.cmd() && r.payload == self.payload(), || {
            format!("{self:?} sent command {} with {:?}, expected {} with {:?}", r.cmd, r.payload, self.cmd(), self.payload())
        })?;
        checked(1);
        Ok(())
    }
}
fn expect(o: &Result<Result<bool, FrankaException>, String>, status: u8) -> R<()> {
    match (o, status) {
        (Ok(Ok(true)), 0) | (Ok(Ok(false)), 2) => Ok(()),
        (Ok(Err(FrankaException::CommandException { message })), 1) => {
            ensure(lower(message).contains("fail"), || format!("a failed command was reported as {message:?}"))
        }
        (Ok(Err(FrankaException::CommandException { message })), 3) => {
            ensure(lower(message).contains("abort"), || format!("an aborted command was reported as {message:?}"))
        }
        (Ok(Ok(b)), s) => Err(format!("gripper status {s} was returned as Ok({b})")),
        (o, s) => Err(format!("gripper status {s} was returned as {:?}", res(o))),
    }
}
fn run_ops(ops: &[(GOp, u8)], cfg: impl FnOnce(&mut Sim)) -> R<u64> {
    let mut sim = gripper_sim();
    cfg(&mut sim);
    let s = sim.install();
    crate::world::with(|w| w.k.max_steps += ops.len() as u64 * 20);
    let mut g = connect_gripper(&s)?;
    let mut d = Dig::new();
    for (op, st) in ops {
        s.borrow_mut().statuses.clear();
        s.borrow_mut().statuses.insert(op.cmd(), [*st].into());
        let from = s.borrow().reqs.len();
        let o = call(|| op.run(&mut g));
        expect(&o, *st).map_err(|e| format!("{op:?}: {e}"))?;
        op.check(&s.borrow().reqs, from)?;
        d.u(op.k as u64).s(&format!("{:?}", res(&o)));
    }
    drop(g);
    let sm = s.borrow();
    sm.wire_clean()?;
    super::services::check_ids(&sm.reqs)?;
    Ok(d.0)
}
fn c21(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c21-arguments", 0, "every call x argument pattern x status", || {
            let mut op = GOp { k: pick(OPS), pat: pick(4 + super::services::n_rich(5)) };
            if op.pat >= 4 {
                op.pat += super::services::RICH - 4;
            }
            run_ops(&[(op, pick(4) as u8)], |_| {})
        }),
        space("c21-sequences", 0, "all sequences of calls x statuses up to the depth bound", move || {
            let n = 1 + pick(if q { 3 } else { 4 });
            let ops: Vec<(GOp, u8)> = (0..n).map(|i| (GOp { k: [0, 1, 3, 6][pick(4)], pat: i % 4 }, pick(4) as u8)).collect();
            run_ops(&ops, |_| {})
        }),
        space("c21-long", 0, "histories of 70 000 calls (each call, and all in turn, statuses in turn): never a repeated id, every request and result right", || {
            let k = pick(5);
            let ops: Vec<(GOp, u8)> = (0..70_000).map(|i| (GOp { k: [0, 1, 3, 6][if k == 4 { i % 4 } else { k }], pat: i % 4 }, (i / 4 % 4) as u8)).collect();
            run_ops(&ops, |_| {})
        }),
        space("c21-cuts", 0, "every one and two cut segmentation of the reply, in bursts or one tick apart, x status", || {
            let op = GOp { k: [0, 1, 3, 6][pick(4)], pat: 0 };
            let st = pick(4) as u8;
            let a = pick(12);
            let b = a + pick(12 - a + 1);
            let gap = [0, 1, 7][pick(3)];
            run_ops(&[(op, st), (GOp { k: 0, pat: 0 }, 2), (GOp { k: 1, pat: 3 }, 0)], move |s| {
                s.cuts = Some(Box::new(move |n, m| {
                    if n == 0 {
                        return vec![(0, m.to_vec())];
                    }
                    vec![(0, m[..a].to_vec()), (gap, m[a..b].to_vec()), (2 * gap, m[b..].to_vec())].into_iter().filter(|x| !x.1.is_empty()).collect()
                }));
            })
        }),
        space("c21-last", 0, "every call x status; the stream ends right behind its complete reply, at once or up to 12 ms later", || {
            let op = GOp { k: pick(OPS), pat: 0 };
            let st = pick(4) as u8;
            let d = [0u64, 1, 12][pick(3)];
            let mut sim = gripper_sim();
            sim.sever = Some((1, usize::MAX, X_FIN, d));
            sim.statuses.insert(op.cmd(), [st].into());
            let s = sim.install();
            let mut g = connect_gripper(&s)?;
            let o = call(|| op.run(&mut g));
            expect(&o, st).map_err(|e| format!("{op:?}, whose complete reply came {d} ms before the end of the connection: {e}"))?;
            checked(1);
            Ok(Dig::new().s(&format!("{:?}", res(&o))).0)
        }),
        space("c21-merged", 0, "replies to other commands before, after and around the own reply (any status, larger and smaller ids), merged or separate", || {
            let op = GOp { k: [0, 1, 3, 6][pick(4)], pat: 0 };
            let st = pick(4) as u8;
            let other = pick(4) as u8;
            let oid = [0u32, 2, 7, 0xffff_ffff][pick(4)];
            let ocmd = [1u16, 2, 3, 4][pick(4)];
            let form = pick(5);
            run_ops(&[(op, st), (GOp { k: 6, pat: 0 }, 2), (GOp { k: 1, pat: 3 }, 0)], move |s| {
                s.cuts = Some(Box::new(move |n, m| {
                    if n != 1 {
                        return vec![(0, m.to_vec())];
                    }
                    let id = u32::from_le_bytes(m[2..6].try_into().unwrap());
                    let foreign = if oid == id || oid == id + 1 || oid == id + 2 { oid + 500 } else { oid };
                    let f = wire::gripper_msg(ocmd, foreign, &[other, 0]);
                    match form {
                        0 => vec![(0, [f, m.to_vec()].concat())],
                        1 => vec![(0, [m.to_vec(), f].concat())],
                        2 => vec![(0, f), (2, m.to_vec())],
                        3 => vec![(0, m.to_vec()), (0, f)],
                        _ => {
                            let x = [f.clone(), m.to_vec(), f].concat();
                            vec![(0, x[..15].to_vec()), (1, x[15..27].to_vec()), (2, x[27..].to_vec())]
                        }
                    }
                }));
            })
        }),
        space("c21-disturbed", if q { 3 } else { 4 }, "three calls with split, delayed and merged replies, short and interrupted writes, interrupted waits", || {
            let op = GOp { k: [0, 3][pick(2)], pat: 1 };
            let st = pick(4) as u8;
            run_ops(&[(op, st), (GOp { k: 1, pat: 0 }, 0), (GOp { k: 6, pat: 0 }, 2)], |s| {
                s.reply_menu = true;
                s.faults = X_EINTR | X_SHORT;
                s.fault_budget = 100;
            })
        }),
    ]
}
fn read(g: &mut Gripper, s: &SimRef) -> R<Option<u32>> {
    let t = s.borrow().tick;
    let o = call(|| g.read_once());
    match &o {
        Ok(Ok(x)) => {
            let m = check_state(&s.borrow(), x)?;
            let at = s.borrow().gdelivered.get(&m).copied();
            ensure(at.is_some(), || format!("gripper state {m} was given out before it arrived whole"))?;
            ensure(at > Some(t), || format!("gripper state {m} was already waiting before the call"))?;
            Ok(Some(m))
        }
        Ok(Err(FrankaException::NetworkException { .. })) => Ok(None),
        o => Err(format!("reading the gripper state: {:?}", res(o))),
    }
}
fn c22(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space("c22-fields", 0, "bit patterns in every field (each special value in each field, all grasp flags, temperature and message number bits)", || {
            let f = pick(5);
            let s = gripper_sim().install();
            let mut g = connect_gripper(&s)?;
            let specials: [u64; 10] = [
                0, 0x8000_0000_0000_0000, 0x7ff8_0000_0000_0001, 0xfff0_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 1, 0x3ff0_0000_0000_0000,
                0x0102_0304_0506_0708, 0xffff_ffff_ffff_ffff, 0x3fb4_7ae1_47ae_147b,
            ];
            let i = pick(32);
            s.borrow_mut().emit = false;
            let (mut w, mut m, mut gr, mut te, mut id) = (0.0123, 0.08, false, 35u16, 1000u32);
            match f {
                0 => w = f64::from_bits(specials[i % 10]),
                1 => m = f64::from_bits(specials[i % 10]),
                2 => gr = i % 2 == 1,
                3 => te = 1u16.checked_shl(i as u32).unwrap_or(0xabcd),
                _ => id = 1u32 << i,
            }
            {
                let mut sm = s.borrow_mut();
                let b = wire::gripper_state(id, w, m, gr, te);
                sm.gsent.insert(id, b.clone());
                let t = sm.tick;
                sm.held.push((t + 1, b));
            }
            let got = read(&mut g, &s)?;
            ensure(got == Some(id), || format!("expected state {id}, got {got:?}"))?;
            Ok((f * 100 + i) as u64)
        }),
        space(
            "c22-windows",
            0,
            "every arrival sequence of up to four (thorough: five) datagrams drawn with repetition from a window of four states, a truncated one and an empty one, in the same millisecond or later, some of them before the call; three reads",
            move || {
                let s = gripper_sim().install();
                let mut g = connect_gripper(&s)?;
                let n = 1 + pick(if q { 4 } else { 5 });
                {
                    let mut sm = s.borrow_mut();
                    sm.emit = false;
                    let win: Vec<Vec<u8>> = (0..4).map(|_| sm.make_state()).collect();
                    let mut t = sm.tick + 1;
                    for i in 0..n {
                        let d = pick(6);
                        if i > 0 && pick(2) == 1 {
                            t += 2;
                        }
                        let b = match d {
                            4 => win[3][..22].to_vec(),
                            5 => vec![],
                            d => win[d].clone(),
                        };
                        if d >= 4 {
                            sm.truncated += 1;
                        }
                        sm.held.push((t, b));
                    }
                }
                if pick(2) == 1 {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                let mut d = Dig::new();
                for _ in 0..3 {
                    // a read ends with a state that arrived after the call, or with a network error
                    let t = s.borrow().tick;
                    let x = read(&mut g, &s)?;
                    let sm = s.borrow();
                    if x.is_none() && sm.truncated == 0 {
                        let late = sm.gdelivered.iter().find(|(_, a)| **a > t).map(|x| *x.0);
                        ensure(late.is_none(), || format!("state {late:?} arrived during the call but the read failed"))?;
                    }
                    d.u(x.unwrap_or(0) as u64);
                }
                Ok(d.0)
            },
        ),
        space("c22-backlog", 0, "reads after pauses during which 1..200 states piled up (every number), the first waiting ones repeated or truncated, two reads", || {
            let n = 1 + pick(200) as u64;
            let odd = pick(3);
            let s = gripper_sim().install();
            let mut g = connect_gripper(&s)?;
            for _ in 0..2 {
                std::thread::sleep(std::time::Duration::from_millis(n));
                if odd > 0 {
                    let mut sm = s.borrow_mut();
                    let t = sm.tick;
                    let b = sm.make_state();
                    if odd == 1 {
                        sm.truncated += 1;
                    }
                    sm.held.push((t + 1, if odd == 1 { b[..b.len() - 1].to_vec() } else { b }));
                    drop(sm);
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                let x = read(&mut g, &s)?;
                ensure(x.is_some(), || format!("reading after a pause of {n} ms failed"))?;
            }
            Ok(n * 3 + odd as u64)
        }),
        space("c22-stream", if q { 4 } else { 6 }, "four reads of a stream with lost, duplicated, delayed, truncated and bursty datagrams, pauses and interrupted waits, commands in between", || {
            let mut sim = gripper_sim();
            sim.lag = 1;
            let s = sim.install();
            let mut g = connect_gripper(&s)?;
            {
                let mut sm = s.borrow_mut();
                sm.udp_menu = U_LOSE | U_DUP | U_DELAY | U_BURST | U_TRUNC;
                sm.faults = X_EINTR;
                sm.fault_budget = 100;
            }
            let mut d = Dig::new();
            for i in 0..4 {
                let x = read(&mut g, &s)?;
                ensure(x.is_some() || s.borrow().truncated > 0, || "reading a healthy gripper failed".into())?;
                d.u(x.unwrap_or(0) as u64);
                let p = [0, 1, 3][dev(3)];
                if p > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(p));
                }
                if i == 1 {
                    let o = res(&call(|| g.stop()));
                    ensure(o == Res::Ok, || format!("stop: {o:?}"))?;
                }
            }
            Ok(d.0)
        }),
        space("c22-silence", 0, "silence from the start, after 1..3 reads, and gaps below and above one second", || {
            let after = pick(4);
            let gap = [300, 900, 1300, 5000][pick(4)];
            let s = gripper_sim().install();
            let mut g = connect_gripper(&s)?;
            for _ in 0..after {
                ensure(read(&mut g, &s)?.is_some(), || "reading a healthy gripper failed".into())?;
            }
            {
                let mut sm = s.borrow_mut();
                let t = sm.tick;
                sm.quiet_from_to = Some((t, t + gap));
            }
            let t0 = crate::world::with(|w| w.k.now);
            let x = read(&mut g, &s)?;
            let dt = (crate::world::with(|w| w.k.now) - t0) / crate::world::MS;
            ensure(x.is_some() == (gap < 1000), || format!("a pause of {gap} ms: {x:?}"))?;
            ensure(dt < 3000, || format!("silence was reported after {dt} ms"))?;
            let mut ok = false;
            for _ in 0..8 {
                ok = read(&mut g, &s)?.is_some();
                if ok {
                    break;
                }
            }
            ensure(ok, || "the gripper could not be read after the pause".into())?;
            Ok(Dig::new().u(gap).u(after as u64).0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", spaces: c21, assumptions: &[] },
        Prop { id: "C22", spaces: c22, assumptions: &["a truncated datagram may be skipped or end the pending read with a network error"] },
    ]
}
