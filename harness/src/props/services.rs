//! C01 request encoding, C02 reply reassembly, C03 status mapping.
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, RunResult, Space};
use crate::sim::*;
use crate::wire::{cmd, Req, Wr};
use crate::Tier;
use franka::exception::FrankaException;
use franka::{MotionFinished, Robot};

pub const NOPS: usize = 12;
pub const PATTERNS: usize = 4;
/// Argument value number `i` of pattern `p`.
pub fn val(p: usize, i: usize) -> f64 {
    if p >= RICH {
        return rich(p - RICH, i);
    }
    match p {
        0 => 1.0 + i as f64,
        1 => [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 5e-324, -1.5][i % 9],
        2 => f64::from_bits((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)),
        _ => -0.001 * (i as f64 + 1.0) * (i as f64 + 1.0),
    }
}
/// Argument patterns from here on: everyday values, uniform values and one unusual element.
pub const RICH: usize = 1000;
const UNIFORM: [f64; 12] = [0., -0., 1., -1., 100., 20., 1e-9, 1e9, f64::NAN, f64::INFINITY, 5e-324, -30.];
const ODD: [f64; 6] = [0., -0., -1., f64::NAN, f64::NEG_INFINITY, 1e300];
const SHAPES: usize = 8;
/// Number of patterns for `n` arguments.
pub fn n_rich(n: usize) -> usize {
    SHAPES + UNIFORM.len() + n * ODD.len()
}
fn rich(q: usize, i: usize) -> f64 {
    match q {
        0 => 100. - i as f64,
        1 => 0.1 + 0.01 * i as f64,
        2 => -0.1 - 0.01 * i as f64,
        3 => if i % 2 == 0 { 1. } else { -1. },
        4 => if i % 5 == 0 { 1. } else { 0. },
        5 => 1e-3 / (i + 1) as f64,
        6 => (i / 7) as f64,
        7 => 3000. - 100. * (i % 7) as f64,
        q if q < SHAPES + UNIFORM.len() => UNIFORM[q - SHAPES],
        q => {
            let q = q - SHAPES - UNIFORM.len();
            if i == q / ODD.len() { ODD[q % ODD.len()] } else { 2. + 0.5 * i as f64 }
        }
    }
}
fn arr<const N: usize>(p: usize, base: usize) -> [f64; N] {
    let mut a = [0.; N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = val(p, base + i);
    }
    a
}
#[derive(Clone, Debug)]
pub struct Op {
    pub kind: usize,
    pub pat: usize,
    pub bits: usize,
}
impl Op {
    pub fn new(kind: usize, pat: usize) -> Op {
        Op { kind, pat, bits: 0b1010110 }
    }
    /// command number of the (first) request and of all requests
    pub fn cmds(&self) -> Vec<u32> {
        match self.kind {
            11 => vec![cmd::SET_COLLISION, cmd::SET_JOINT_IMP, cmd::SET_CART_IMP],
            k => vec![[
                cmd::SET_COLLISION,
                cmd::SET_JOINT_IMP,
                cmd::SET_CART_IMP,
                cmd::SET_GUIDING,
                cmd::SET_EE_TO_K,
                cmd::SET_NE_TO_EE,
                cmd::SET_LOAD,
                cmd::SET_FILTERS,
                cmd::RECOVERY,
                cmd::STOP_MOVE,
                cmd::GET_CARTESIAN_LIMIT,
            ][k]],
        }
    }
    /// the payloads the protocol demands
    pub fn payloads(&self) -> Vec<Vec<u8>> {
        let p = self.pat;
        let w = || Wr(vec![]);
        match self.kind {
            0 => vec![w().f(&arr::<52>(p, 0)).0],
            1 => vec![w().f(&arr::<7>(p, 0)).0],
            2 => vec![w().f(&arr::<6>(p, 0)).0],
            3 => vec![(0..7).map(|i| (self.bits >> i & 1) as u8).collect()],
            4 | 5 => vec![w().f(&arr::<16>(p, 0)).0],
            6 => vec![w().f(&arr::<13>(p, 0)).0],
            7 => vec![w().f(&arr::<5>(p, 0)).0],
            8 | 9 => vec![vec![]],
            10 => vec![w().i32(self.wall_id()).0],
            _ => vec![
                w().f(&[20.; 14]).f(&[10.; 14]).f(&[20.; 12]).f(&[10.; 12]).0,
                w().f(&[3000., 3000., 3000., 2500., 2500., 2000., 2000.]).0,
                w().f(&[3000., 3000., 3000., 300., 300., 300.]).0,
            ],
        }
    }
    pub fn wall_id(&self) -> i32 {
        [7, -1, i32::MAX, i32::MIN, 0, 1, -8][if self.pat < RICH { self.pat % 4 } else { (self.pat - RICH) % 7 }]
    }
    pub fn run(&self, r: &mut Robot) -> Result<Option<(i32, [f64; 3], [f64; 16], bool)>, FrankaException> {
        let p = self.pat;
        match self.kind {
            0 => r.set_collision_behavior(
                arr(p, 0), arr(p, 7), arr(p, 14), arr(p, 21), arr(p, 28), arr(p, 34), arr(p, 40), arr(p, 46),
            ),
            1 => r.set_joint_impedance(arr(p, 0)),
            2 => r.set_cartesian_impedance(arr(p, 0)),
            3 => {
                let mut g = [false; 6];
                for (i, x) in g.iter_mut().enumerate() {
                    *x = self.bits >> i & 1 == 1;
                }
                r.set_guiding_mode(g, self.bits >> 6 & 1 == 1)
            }
            4 => r.set_K(arr(p, 0)),
            5 => r.set_EE(arr(p, 0)),
            6 => r.set_load(val(p, 0), arr(p, 1), arr(p, 4)),
            7 => r.set_filters(val(p, 0), val(p, 1), val(p, 2), val(p, 3), val(p, 4)),
            8 => r.automatic_error_recovery(),
            9 => r.stop(),
            10 => return r.get_virtual_wall(self.wall_id()).map(|w| Some((w.id, w.object_world_size, w.p_frame, w.active))),
            _ => r.set_default_behavior(),
        }
        .map(|_| None)
    }
    pub fn n_status(&self) -> usize {
        match self.kind {
            8 => 6,
            9 => 5,
            _ => 3,
        }
    }
    /// any one of these must occur in the error text for that status
    pub fn keywords(&self, status: usize) -> &'static [&'static str] {
        const NP: &[&str] = &["not possible"];
        const INV: &[&str] = &["invalid arg"];
        const US: &[&str] = &["user stop"];
        const RF: &[&str] = &["reflex"];
        match (self.kind, status) {
            (8, 1) | (9, 1) => NP,
            (8, 2) => &["manual"],
            (8, 3) | (9, 3) => RF,
            (8, 4) | (9, 2) => US,
            (8, 5) => &["aborted"],
            (9, 4) => &["abort", "not possible"],
            (_, 1) => NP,
            _ => INV,
        }
    }
}
/// Requests after index `from` must be exactly those of the operation.
pub fn check_requests(reqs: &[Req], from: usize, op: &Op, all: bool) -> R<()> {
    let (c, p) = (op.cmds(), op.payloads());
    let n = reqs.len() - from;
    if all && n != c.len() || n > c.len() || n == 0 {
        return Err(format!("{op:?} emitted {n} requests, expected {}", c.len()));
    }
    for i in 0..n {
        let r = &reqs[from + i];
        if r.cmd != c[i] {
            return Err(format!("{op:?} emitted command {} instead of {}", r.cmd, c[i]));
        }
        if r.payload != p[i] {
            let at = r.payload.iter().zip(&p[i]).position(|(a, b)| a != b);
            return Err(format!(
                "{op:?}: request payload differs from the protocol encoding ({} vs {} bytes, first difference at {at:?})",
                r.payload.len(),
                p[i].len()
            ));
        }
    }
    Ok(())
}
pub fn check_ids(reqs: &[Req]) -> R<()> {
    let mut seen = std::collections::HashMap::new();
    for i in 0..reqs.len() {
        if let Some(j) = seen.insert(reqs[i].id, i) {
            return Err(format!("requests {j} and {i} carry the same command id {}", reqs[i].id));
        }
    }
    Ok(())
}
fn check_connect(s: &Sim) -> R<()> {
    let r = s.reqs.first().ok_or("no connect request")?;
    let want = Wr(vec![]).u16(5).u16(crate::world::CLIENT_UDP_PORT).0;
    ensure(r.cmd == 0 && r.payload == want, || format!("wrong connect request {r:?}"))
}
/// A short motion, so that Move requests take part in the id bookkeeping.
fn tiny_motion(r: &mut Robot) -> Result<(), FrankaException> {
    let mut n = 0;
    r.control_joint_velocities(
        |_, _| {
            n += 1;
            let v = franka::JointVelocities::new([0.; 7]);
            if n >= 2 {
                v.motion_finished()
            } else {
                v
            }
        },
        None,
        false,
        franka::MAX_CUTOFF_FREQUENCY,
    )
}
fn one(ops: &[Op], stat: &[usize], motion_after: Option<usize>, cfg: impl FnOnce(&mut Sim)) -> RunResult {
    let mut sim = robot_sim();
    for c in 0..14u32 {
        sim.statuses.insert(c, Default::default());
    }
    sim.statuses.clear();
    cfg(&mut sim);
    let s = sim.install();
    crate::world::with(|w| w.k.max_steps += ops.len() as u64 * 60);
    let mut r = connect(&s)?;
    let mut d = Dig::new();
    for (i, op) in ops.iter().enumerate() {
        let st = stat.get(i).copied().unwrap_or(0);
        {
            let mut sm = s.borrow_mut();
            sm.statuses.clear();
            for c in op.cmds() {
                sm.statuses.insert(c, [st as u8].into());
            }
        }
        let from = s.borrow().reqs.len();
        let out = res(&call(|| op.run(&mut r)));
        if let Res::Panic(p) = &out {
            return Err(format!("{op:?} panicked: {p}"));
        }
        let okay = matches!(out, Res::Ok);
        ensure(okay == (st == 0), || format!("{op:?} with reply status {st} returned {out:?}"))?;
        let sm = s.borrow();
        check_requests(&sm.reqs, from, op, st == 0)?;
        checked(2);
        drop(sm);
        d.u(op.kind as u64).s(&format!("{out:?}"));
        if motion_after == Some(i) {
            s.borrow_mut().statuses.clear();
            let from = s.borrow().reqs.len();
            let m = res(&call(|| tiny_motion(&mut r)));
            ensure(m == Res::Ok, || format!("a plain motion failed: {m:?}"))?;
            let sm = s.borrow();
            ensure(sm.reqs.len() == from + 1 && sm.reqs[from].cmd == cmd::MOVE, || "a plain motion must send one Move request".into())?;
        }
    }
    drop(r);
    let sm = s.borrow();
    sm.wire_clean()?;
    check_connect(&sm)?;
    check_ids(&sm.reqs)?;
    checked(2);
    Ok(d.0)
}
fn c01(t: Tier) -> Vec<Space> {
    let depth = if t == Tier::Quick { 3 } else { 4 };
    vec![
        space("c01-arguments", 0, "service call x argument pattern (distinct, special, bit-mixed, scaled, everyday and uniform values, every single argument zero, negative, huge or not a number; all 128 guiding masks)", || {
            let kind = pick(NOPS);
            let mut op = Op::new(kind, 0);
            if kind == 3 {
                op.bits = pick(128);
            } else {
                let n = [54, 7, 6, 0, 16, 16, 13, 5, 0, 0, 0, 0][kind];
                op.pat = pick(PATTERNS + n_rich(n));
                if op.pat >= PATTERNS {
                    op.pat += RICH - PATTERNS;
                }
            }
            one(&[op], &[], None, |_| {})
        }),
        space("c01-sequences", 0, "all sequences of service calls (and one motion) up to the depth bound, each accepted or rejected", move || {
            let n = 1 + pick(depth);
            let ops: Vec<Op> = (0..n).map(|i| Op::new(pick(NOPS), i)).collect();
            let st: Vec<usize> = if n < 4 { (0..n).map(|_| pick(2)).collect() } else { vec![0; n] };
            let m = pick(n + 1);
            one(&ops, &st, if m == 0 { None } else { Some(m - 1) }, |_| {})
        }),
        space("c01-long", 0, "histories of 70 000 calls (each command, and all commands in turn): never a repeated id, every request right", move || {
            let kind = pick(NOPS + 1);
            let n = 70_000;
            let ops: Vec<Op> = (0..n).map(|i| Op::new(if kind == NOPS { i % NOPS } else { kind }, i % PATTERNS)).collect();
            one(&ops, &[], None, |_| {})
        }),
        space(
            "c01-writes",
            if t == Tier::Quick { 3 } else { 4 },
            "two calls, every pattern of interrupted and short writes (1 or 7 bytes accepted) within the bound",
            || {
                let a = pick(NOPS);
                one(&[Op::new(a, 0), Op::new((a + 5) % NOPS, 2)], &[], None, |s| {
                    s.faults = X_SHORT | X_EINTR;
                    s.fault_budget = 100;
                })
            },
        ),
    ]
}

fn wall_bytes(seed: usize, active: bool) -> (Vec<u8>, [f64; 3], [f64; 16]) {
    let sz: [f64; 3] = arr(seed, 3);
    let fr: [f64; 16] = arr(seed, 10);
    (Wr(vec![]).f(&sz).f(&fr).u8(active as u8).0, sz, fr)
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// Length of the reply message to the operation.
fn reply_len(op: &Op) -> usize {
    match op.kind {
        10 => 12 + 1 + 153,
        _ => 13,
    }
}
/// Runs two operations; the reply of the first is delivered in the given segments.
fn split_run(op: &Op, status: u8, segs: impl Fn(&[u8]) -> Vec<(u64, Vec<u8>)> + 'static, done: u64, cfg: impl FnOnce(&mut Sim)) -> RunResult {
    let mut sim = robot_sim();
    let (w, sz, fr) = wall_bytes(op.pat, true);
    sim.wall = w;
    for c in op.cmds() {
        sim.statuses.insert(c, [status].into());
    }
    sim.cuts = Some(Box::new(move |n, m| if n == 1 { segs(m) } else { vec![(0, m.to_vec())] }));
    cfg(&mut sim);
    let s = sim.install();
    let mut r = connect(&s)?;
    let t0 = s.borrow().tick;
    let o = call(|| op.run(&mut r));
    let out = res(&o);
    let t1 = s.borrow().tick;
    match (&o, status) {
        (Ok(Ok(w)), 0) => {
            if let Some((id, s1, f1, act)) = w {
                ensure(*id == op.wall_id() && bits(s1) == bits(&sz) && bits(f1) == bits(&fr) && *act, || {
                    "virtual wall content differs from the reply".into()
                })?;
            }
        }
        (Ok(Err(FrankaException::CommandException { message })), st) if st != 0 => {
            let m = lower(message);
            ensure(op.keywords(st as usize).iter().any(|k| m.contains(k)), || format!("{op:?}: status {st} reported as {message:?}"))?;
        }
        _ => return Err(format!("{op:?} with reply status {status} returned {out:?}")),
    }
    ensure(t1 - t0 <= done + 60, || format!("the call returned {} ms after the complete reply", t1 - t0 - done))?;
    ensure(t1 - t0 >= done, || "the call returned before its reply was complete".into())?;
    // a later call is not disturbed
    let op2 = Op::new(if op.kind == 1 { 2 } else { 1 }, 3);
    s.borrow_mut().statuses.insert(op2.cmds()[0], [2u8].into());
    let o2 = res(&call(|| op2.run(&mut r)));
    match &o2 {
        Res::Command(m) if lower(m).contains("invalid arg") => {}
        o => return Err(format!("the call after {op:?} (rejected as invalid by the robot) returned {o:?}")),
    }
    let op3 = Op::new(10, op.pat);
    s.borrow_mut().statuses.clear();
    match call(|| op3.run(&mut r)) {
        Ok(Ok(Some((id, s1, f1, a)))) if id == op3.wall_id() && bits(&s1) == bits(&sz) && bits(&f1) == bits(&fr) && a => {}
        o => return Err(format!("a later virtual wall query returned {:?} or a wrong wall", res(&o))),
    }
    drop(r);
    s.borrow().wire_clean()?;
    checked(5);
    Ok(Dig::new().s(&format!("{out:?}")).u(t1 - t0).0)
}
fn c02(t: Tier) -> Vec<Space> {
    let thorough = t == Tier::Thorough;
    vec![
        space("c02-cuts", 0, "every command x every pair of cut positions of its reply (wall: a grid of them) x pauses of 0, 1 or 15 ms between segments", move || {
            let kind = pick(11);
            let op = Op::new(kind, 0);
            let n = reply_len(&op);
            let pos: Vec<usize> = if n > 40 && !thorough { [1, 3, 4, 8, 11, 12, 13, 14, 21, 37, 100, 164, 165].to_vec() } else { (1..n).collect() };
            let a = pos[pick(pos.len())];
            let b = pos[pick(pos.len())];
            let (a, b) = (a.min(b), a.max(b));
            let gap = [0u64, 1, 15][pick(3)];
            let status = if n > 40 { 0 } else { 1 };
            split_run(
                &op,
                status,
                move |m| {
                    let (a, b) = (a.min(m.len()), b.min(m.len()));
                    vec![(0, m[..a].to_vec()), (gap, m[a..b].to_vec()), (2 * gap, m[b..].to_vec())]
                },
                2 * gap,
                |_| {},
            )
        }),
        space("c02-merged", 0, "the reply with up to two foreign replies before and one behind it in one stream, cut at every position", move || {
            let kind = [1, 8, 9, 10][pick(4)];
            let op = Op::new(kind, 0);
            let before = pick(3);
            let behind = pick(2);
            let foreign = |id: u32| crate::wire::robot_msg(cmd::SET_LOAD, id, &[2]);
            let total = 13 * (before + behind) + reply_len(&op);
            let cuts: Vec<usize> = (0..total).filter(|c| thorough || total < 60 || *c < 45 || c % 7 == 0 || *c + 3 > total).collect();
            let cut = cuts[pick(cuts.len())];
            let gap = [0u64, 1, 15][pick(3)];
            let status = if kind == 10 { 0 } else { 1 };
            // complete once the last byte of the own reply is there
            let own_end = 13 * before + reply_len(&op);
            let done = if cut < own_end { gap } else { 0 };
            let done = if cut == 0 { gap } else { done };
            split_run(
                &op,
                status,
                move |m| {
                    let mut all = vec![];
                    for i in 0..before {
                        all.extend(foreign(800_000 + i as u32));
                    }
                    all.extend_from_slice(m);
                    for i in 0..behind {
                        all.extend(foreign(810_000 + i as u32));
                    }
                    let c = cut.min(all.len());
                    vec![(0, all[..c].to_vec()), (gap, all[c..].to_vec())]
                },
                done,
                |_| {},
            )
        }),
        space(
            "c02-crowd",
            0,
            "the reply among 5 to 6000 unclaimed replies (also one of up to 3 MB) before, behind or on both sides of it, in one segment or many; service calls, and a motion whose final reply is overtaken by its state",
            || {
                let who = pick(5);
                let k = [5usize, 8, 16, 17, 33, 64, 65, 100, 129, 257, 1025, 6000][pick(12)];
                let (before, behind) = [(k, 0), (0, k), (k, k)][pick(3)];
                let seg = [usize::MAX, 1000, 70_000][pick(3)];
                let big = k <= 300 && pick(2) == 1;
                let shape = move |m: &[u8]| {
                    let mut all = vec![];
                    let mut junk = |n: usize, base: u32, all: &mut Vec<u8>| {
                        for i in 0..n {
                            let fat = big && i == n / 2;
                            let body = if fat { vec![0xa5; if k == 65 { 3_000_000 } else { 70_000 + k }] } else { vec![2] };
                            all.extend(crate::wire::robot_msg(cmd::SET_LOAD, base + i as u32, &body));
                        }
                    };
                    junk(before, 800_000, &mut all);
                    all.extend_from_slice(m);
                    junk(behind, 1_800_000, &mut all);
                    all.chunks(seg.min(all.len())).map(|c| (0, c.to_vec())).collect::<Vec<_>>()
                };
                if who < 4 {
                    let op = Op::new([1, 8, 9, 10][who], 0);
                    return split_run(&op, if op.kind == 10 { 0 } else { 1 }, shape, 0, |_| {});
                }
                let mut sim = robot_sim();
                sim.plans.push_back(Plan { final_state_lag: 3, ..Default::default() });
                sim.cuts = Some(Box::new(move |n, m| if n >= 2 { shape(m) } else { vec![(0, m.to_vec())] }));
                let s = sim.install();
                let mut r = connect(&s)?;
                let mut sp = super::ctl::Spec::new(k % super::ctl::KINDS, 2);
                sp.finisher = (sp.kind == 8) as usize;
                let d = super::motions::good_motion(&mut r, &s, &sp)?;
                s.borrow_mut().cuts = None;
                let d2 = super::motions::good_motion(&mut r, &s, &sp)?;
                drop(r);
                s.borrow().wire_clean()?;
                Ok(Dig::new().u(d.0).u(d2.0).0)
            },
        ),
        space("c02-leftovers", 0, "3000 calls on one connection, each reply with one unclaimed reply before or behind it", || {
            let behind = pick(2) == 1;
            let k0 = pick(11);
            let mut sim = robot_sim();
            sim.cuts = Some(Box::new(move |n, m| {
                let x = crate::wire::robot_msg(cmd::SET_LOAD, 800_000 + n as u32, &[2]);
                vec![(0, if behind { [m.to_vec(), x].concat() } else { [x, m.to_vec()].concat() })]
            }));
            let s = sim.install();
            let mut r = connect(&s)?;
            for i in 0..3000 {
                let op = Op::new((k0 + i) % 11, i % 3);
                let (w, sz, fr) = wall_bytes(op.pat, true);
                let st = if op.kind != 10 && i % 7 == 3 { 1u8 } else { 0 };
                {
                    let mut sm = s.borrow_mut();
                    sm.wall = w;
                    for c in op.cmds() {
                        sm.statuses.insert(c, [st].into());
                    }
                    sm.reqs.clear();
                    sm.ev.clear();
                }
                match (call(|| op.run(&mut r)), st) {
                    (Ok(Ok(None)), 0) if op.kind != 10 => {}
                    (Ok(Ok(Some((id, s1, f1, a)))), 0) if id == op.wall_id() && bits(&s1) == bits(&sz) && bits(&f1) == bits(&fr) && a => {}
                    (Ok(Err(FrankaException::CommandException { message })), 1) => {
                        let m = lower(&message);
                        ensure(op.keywords(1).iter().any(|k| m.contains(k)), || format!("call {i}: {op:?}: status 1 reported as {message:?}"))?;
                    }
                    (o, _) => return Err(format!("call {i}: {op:?} with reply status {st} returned {:?} or a wrong wall", res(&o))),
                }
                checked(1);
            }
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u(behind as u64).0)
        }),
        space("c02-trickle", 0, "every command, reply delivered byte by byte with 0, 1 or 11 ms between bytes", || {
            let op = Op::new(pick(11), 0);
            let gap = [0u64, 1, 11][pick(3)];
            let n = reply_len(&op) as u64;
            split_run(&op, 0, move |m| m.iter().enumerate().map(|(i, b)| (gap * i as u64, vec![*b])).collect(), gap * (n - 1), |_| {})
        }),
        space("c02-last", 0, "every command x status; the stream ends right behind its complete reply, at once or up to 12 ms later", || {
            let op = Op::new(pick(11), 0);
            if op.cmds().len() != 1 {
                return Ok(0);
            }
            let st = pick(op.n_status());
            let d = [0u64, 1, 12][pick(3)];
            let mut sim = robot_sim();
            sim.wall = wall_bytes(op.pat, true).0;
            sim.statuses.insert(op.cmds()[0], [st as u8].into());
            sim.sever = Some((1, usize::MAX, X_FIN, d));
            let s = sim.install();
            let mut r = connect(&s)?;
            let o = res(&call(|| op.run(&mut r)));
            let fine = match &o {
                Res::Ok => st == 0,
                Res::Command(m) => st != 0 && op.keywords(st).iter().any(|k| lower(m).contains(k)),
                _ => false,
            };
            ensure(fine, || format!("{op:?}: the complete reply with status {st} arrived and the connection ended {d} ms later, the call returned {o:?}"))?;
            let o2 = res(&call(|| Op::new(1, 3).run(&mut r)));
            ensure(matches!(o2, Res::Network(_)), || format!("a call on the ended connection returned {o2:?}"))?;
            checked(2);
            drop(r);
            Ok(Dig::new().s(&format!("{o:?}")).0)
        }),
        space(
            "c02-interrupts",
            if thorough { 4 } else { 3 },
            "sequences of three calls; each reply whole, late, cut, byte-wise or merged with foreign replies, any wait or read interrupted by a signal",
            || {
                let a = pick(11);
                let ops = [Op::new(a, 0), Op::new((a + 3) % 11, 1), Op::new(10, 2)];
                one(&ops, &[0, 1, 0], None, |s| {
                    s.reply_menu = true;
                    s.faults = X_EINTR;
                    s.fault_budget = 100;
                })
            },
        ),
    ]
}
fn c03(t: Tier) -> Vec<Space> {
    let depth = if t == Tier::Quick { 2 } else { 3 };
    vec![
        space("c03-status", 0, "every command x every defined status, followed by every other command accepted", || {
            let op = Op::new(pick(NOPS), 0);
            let st = pick(op.n_status());
            let follow = Op::new(pick(NOPS), 1);
            let which = if op.kind == 11 && st > 0 { pick(3) } else { 0 };
            let active = pick(2) == 1;
            let sim = robot_sim();
            let s = sim.install();
            let mut r = connect(&s)?;
            let (w, sz, fr) = wall_bytes(if active { 0 } else { 1 }, active);
            {
                let mut sm = s.borrow_mut();
                sm.wall = w;
                sm.statuses.insert(op.cmds()[which], [st as u8].into());
            }
            let from = s.borrow().reqs.len();
            let o = call(|| op.run(&mut r));
            let out = res(&o);
            if st == 0 {
                ensure(out == Res::Ok, || format!("{op:?} accepted by the robot returned {out:?}"))?;
                if let Ok(Ok(Some((id, s1, f1, a)))) = &o {
                    ensure(*id == op.wall_id() && bits(s1) == bits(&sz) && bits(f1) == bits(&fr) && *a == active, || "wrong virtual wall content".into())?;
                }
            } else {
                match &out {
                    Res::Command(m) => {
                        let l = lower(m);
                        ensure(op.keywords(st).iter().any(|k| l.contains(k)), || format!("{op:?}: status {st} reported as {m:?}"))?;
                        for (k, owner) in [("user stop", [4, 2]), ("reflex", [3, 3]), ("manual", [2, 99]), ("invalid arg", [99, 99])] {
                            let mine = (op.kind == 8 && st == owner[0]) || (op.kind == 9 && st == owner[1]) || (op.kind < 8 || op.kind > 9) && k == "invalid arg" && st == 2;
                            ensure(mine || !l.contains(k), || format!("{op:?}: status {st} is wrongly reported as {m:?}"))?;
                        }
                    }
                    o => return Err(format!("{op:?} rejected with status {st} returned {o:?}")),
                }
            }
            ensure(s.borrow().reqs.len() - from == if st == 0 { op.cmds().len() } else { which + 1 }, || format!("{op:?} with status {st} sent a wrong number of requests"))?;
            // the following call is unaffected
            s.borrow_mut().statuses.clear();
            let from = s.borrow().reqs.len();
            let o2 = res(&call(|| follow.run(&mut r)));
            ensure(o2 == Res::Ok, || format!("{follow:?} after {op:?} (status {st}) returned {o2:?}"))?;
            check_requests(&s.borrow().reqs, from, &follow, true)?;
            drop(r);
            s.borrow().wire_clean()?;
            checked(4);
            Ok(Dig::new().s(&format!("{out:?}")).0)
        }),
        space("c03-walls", 0, "virtual wall query x ids x activity x sizes and frames (everyday and uniform values, every single element zero, negative, huge or not a number)", || {
            let pat = pick(n_rich(26));
            let active = pick(2) == 1;
            let s = robot_sim().install();
            let mut r = connect(&s)?;
            for id in 0..7 {
                let op = Op::new(10, RICH + id);
                let (w, sz, fr) = wall_bytes(RICH + pat, active);
                s.borrow_mut().wall = w;
                let o = call(|| op.run(&mut r));
                match &o {
                    Ok(Ok(Some((id, s1, f1, a)))) => ensure(*id == op.wall_id() && bits(s1) == bits(&sz) && bits(f1) == bits(&fr) && *a == active, || {
                        format!("virtual wall {} of size {sz:?}, frame {fr:?}, active {active} was returned as {id}, {s1:?}, {f1:?}, {a}", op.wall_id())
                    })?,
                    _ => return Err(format!("virtual wall query returned {:?}", res(&o))),
                }
                checked(4);
            }
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u(pat as u64).0)
        }),
        space("c03-sequences", 0, "all sequences of commands with any status up to the depth bound: each result depends only on its own status", move || {
            let n = depth + 1;
            let mut ops = vec![];
            let mut st = vec![];
            for i in 0..n {
                let kind = [0, 3, 8, 9, 10][pick(5)];
                let op = Op::new(kind, i);
                st.push(pick(op.n_status()));
                ops.push(op);
            }
            one(&ops, &st, None, |_| {})
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", spaces: c01, assumptions: &["argument values are copied verbatim, so four value patterns with pairwise different bit patterns represent all values"] },
        Prop { id: "C02", spaces: c02, assumptions: &[] },
        Prop { id: "C03", spaces: c03, assumptions: &["status codes outside the protocol are not considered"] },
    ]
}
