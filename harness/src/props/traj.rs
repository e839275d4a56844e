//! C16 motion generator, C24 pose conversions.
use super::ctl::*;
use super::shape::cube;
use super::util::*;
use super::Prop;
use crate::explore::{checked, count, guarded, pick, space, Dig, Space};
use crate::geo::{self, norm};
use crate::sim::*;
use crate::wire::{cmd, st, Cmd};
use crate::Tier;
use franka::*;
use nalgebra::{Isometry3, Translation3, UnitQuaternion, Quaternion, Vector6};
use std::time::Duration;

const VMAX: [f64; 7] = [2., 2., 2., 2., 2.5, 2.5, 2.5];
const AMAX: f64 = 5.;
/// Shortest time of one joint with the published profile.
fn duration(i: usize, d: f64, s: f64) -> f64 {
    let d = d.abs();
    if d <= 1e-6 {
        return 0.;
    }
    let (v, a) = (VMAX[i] * s, AMAX * s);
    let v = v.min((2. / 3. * d * a).sqrt());
    1.5 * v / a + d / v
}
fn alphabet(i: usize, s: f64) -> Vec<f64> {
    // distance at which the joint just reaches its top speed
    let th = 1.5 * VMAX[i] * VMAX[i] * s / AMAX;
    vec![0., 1e-7, -1e-7, 1e-6, 2e-6, -3e-6, 1e-4, 1e-3, -0.02, 0.1, -0.5, th * 0.999, -th, th * 1.001, 1., -2.9, 5.8, -4.5, -6.3, th * 0.91, th * 0.7, -th * 0.5, 3.5]
}
const NA: usize = 23;
const SPEEDS: [f64; 6] = [1., 0.5, 0.1, 0.99, 0.01, 1e-3];
/// Step patterns in nanoseconds.
fn step(pat: usize, k: usize) -> u64 {
    let ms = match pat {
        0 => 1,
        1 => [1, 3, 1, 7, 2][k % 5],
        2 => 10,
        3 => [0, 0, 1, 0, 5][k % 5],
        4 => 100,
        5 => 2,
        // steps that are not whole milliseconds
        6 => return 250_000,
        7 => return [333_333, 1_000_000, 1, 999_999, 2_500_001][k % 5],
        8 => return 1_999_999,
        // long pauses
        9 => 700,
        _ => [1, 2000, 1, 600, 1500][k % 5],
    };
    ms * 1_000_000
}
struct Track {
    goal: [f64; 7],
    start: [f64; 7],
    s: f64,
    total: f64,
    last: [f64; 7],
    // velocity and step of the previous sample
    pv: Option<([f64; 7], f64)>,
    t: f64,
    rows: Vec<(f64, [f64; 7])>,
}
impl Track {
    fn new(start: [f64; 7], goal: [f64; 7], s: f64) -> Track {
        let total = (0..7).map(|i| duration(i, goal[i] - start[i], s)).fold(0., f64::max);
        Track { goal, start, s, total, last: start, pv: None, t: 0., rows: vec![] }
    }
    fn sample(&mut self, q: &[f64; 7], dt: f64) -> R<()> {
        self.t += dt;
        let mut v = [0.; 7];
        for i in 0..7 {
            let d = self.goal[i] - self.start[i];
            let sg = d.signum();
            let step = q[i] - self.last[i];
            let say = |w: String| format!("joint {i} from {} to {} at speed {}, time {:.4}: {w}", self.start[i], self.goal[i], self.s, self.t);
            let eps = 1e-12 * (1. + self.goal[i].abs() + self.start[i].abs());
            ensure(q[i].is_finite(), || say(format!("{}", q[i])))?;
            ensure(step * sg >= -eps, || say(format!("moves backwards by {step:e}")))?;
            ensure((self.goal[i] - q[i]) * sg >= -eps && (q[i] - self.start[i]) * sg >= -eps, || say(format!("{} is not between start and goal", q[i])))?;
            if d.abs() <= 1.0000001e-6 {
                ensure(step.abs() <= 1.1e-6, || say("moves although it is at its goal".into()))?;
            } else if dt > 0. {
                v[i] = step / dt;
                ensure(v[i].abs() <= VMAX[i] * self.s * (1. + 1e-9) + eps / dt, || say(format!("velocity {}", v[i])))?;
                if let Some((p, pdt)) = self.pv {
                    // mean velocities of adjacent intervals differ by at most the acceleration times the distance of their midpoints
                    let a = (v[i] - p[i]) / (0.5 * (dt + pdt));
                    ensure(a.abs() <= AMAX * self.s * (1. + 1e-6) + 8. * eps / (dt * pdt.min(dt)), || say(format!("acceleration {a}")))?;
                }
            } else {
                ensure(step.abs() <= eps, || say("moves without time passing".into()))?;
            }
            checked(4);
        }
        if dt > 0. {
            self.pv = Some((v, dt));
        }
        self.last = *q;
        self.rows.push((self.t, *q));
        Ok(())
    }
    fn done(&self, maxdt: f64) -> R<()> {
        for i in 0..7 {
            let d = self.goal[i] - self.start[i];
            let tol = if d.abs() < 1.0000001e-6 { 1.0000001e-6 } else { 1e-12 * (1. + self.goal[i].abs()) };
            ensure((self.last[i] - self.goal[i]).abs() <= tol, || format!("joint {i} ends at {} instead of {}", self.last[i], self.goal[i]))?;
        }
        ensure(self.t <= self.total * (1. + 1e-6) + maxdt + 1e-9, || format!("the motion takes {} s, the slowest joint needs {}", self.t, self.total))?;
        // synchronized: nobody arrives before the end
        let early = self.rows.iter().rev().find(|r| r.0 < 0.9 * (self.t - maxdt));
        if let Some((t, q)) = early {
            for i in 0..7 {
                let d = (self.goal[i] - self.start[i]).abs();
                if d > 1.5e-6 {
                    ensure((self.goal[i] - q[i]).abs() > 1e-5 * d, || format!("joint {i} is at its goal at {t:.4} s, the motion ends at {:.4} s", self.t))?;
                }
            }
        }
        checked(8);
        Ok(())
    }
}
/// Deltas of the seven joints for a choice.
fn deltas(s: f64) -> [f64; 7] {
    let mut d = [0.; 7];
    match pick(2) {
        0 => {
            let (b, st) = (pick(NA), pick(NA));
            for i in 0..7 {
                d[i] = alphabet(i, s)[(b + st * i) % NA];
            }
        }
        _ => {
            let (j, a, b) = (pick(7), pick(NA), pick(NA));
            for i in 0..7 {
                d[i] = alphabet(i, s)[if i == j { a } else { b }];
            }
        }
    }
    d
}
/// Steps of the limiter while it follows a motion whose start or end is more abrupt than the jerk
/// bound (motions of less than a tenth of a millirad, or after lost states).
const SLACK: f64 = 1e-5;
const HOME: [f64; 7] = [0.1, -0.78, 0.2, -2.35, 0., 1.57, 0.785];
fn c16(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c16-generator", 0, "motion generator: joint distances (23 per joint incl. the profile thresholds, all strides and all one-joint-differs tuples) x speed factors x step patterns incl. irregular and zero steps and steps of fractions of a millisecond", move || {
            let si = pick(if full { 6 } else { 5 });
            let s = SPEEDS[si];
            let d = deltas(s);
            let pat = pick(11);
            let start = if d[0] > 0. { HOME } else { [0.; 7] };
            let mut goal = [0.; 7];
            for i in 0..7 {
                goal[i] = start[i] + d[i];
            }
            let mut tr = Track::new(start, goal, s);
            // keep the number of samples in bounds: skip fine steps for long slow motions
            let fine = if pat == 4 || pat >= 9 { 0.1 } else if pat == 2 { 0.01 } else if pat == 6 { 0.00025 } else { 0.001 };
            if tr.total / fine > if full { 60000. } else { 3000. } {
                return Ok(0);
            }
            let mut g = MotionGenerator::new(s, &goal);
            let mut st = RobotState { q_d: start, ..Default::default() };
            let zeros = [0, 1, 3][(si + pat) % 3];
            let mut n = 0u64;
            let mut k = 0usize;
            let mut first = true;
            let mut maxdt = 0f64;
            loop {
                let ns = if k <= zeros { 0 } else { step(pat, k) };
                let out = guarded(|| g.generate_motion(&st, &Duration::from_nanos(ns)))?;
                let dt = ns as f64 * 1e-9;
                maxdt = maxdt.max(dt);
                if first {
                    ensure(geo::maxdiff(&out.q, &start) <= 1e-6, || format!("the motion starts at {:?} instead of {start:?}", out.q))?;
                    first = false;
                }
                tr.sample(&out.q, dt)?;
                n += 1;
                k += 1;
                if out.is_finished() {
                    break;
                }
                ensure(tr.t <= tr.total * 1.01 + 1. + maxdt, || format!("not finished after {} s, the slowest joint needs {}", tr.t, tr.total))?;
                // the robot is somewhere else: the generator must not care
                st.q_d = out.q;
                st.q = [9.; 7];
                st.dq_d = [1.; 7];
            }
            if tr.total == 0. {
                ensure(n == 1, || format!("start equal to goal: {n} samples"))?;
            }
            tr.done(maxdt)?;
            count(n);
            Ok(Dig::new().u(n).0)
        }),
        space("c16-call", if full { 2 } else { 1 }, "point-to-point call on a tracking robot: distances x speed factors, with lost, duplicated and delayed states as deviations", move || {
            let s = [1., 0.3, 0.05][pick(3)];
            let ds = [0., 1e-7, 1e-5, 1e-3, -0.05, 0.4, -1.5];
            let (a, b) = (pick(ds.len()), pick(ds.len()));
            let mut goal = HOME;
            for i in 0..7 {
                goal[i] += if i % 2 == 0 { ds[a] } else { ds[b] } * (1. - 0.1 * i as f64);
            }
            let total = (0..7).map(|i| duration(i, goal[i] - HOME[i], s)).fold(0., f64::max);
            let lossy = total < 0.06 && pick(2) == 1;
            let slack = if lossy { 1e-3 } else { SLACK };
            if total > if full { 40. } else { 3. } {
                return Ok(0);
            }
            let mut sim = robot_sim();
            sim.st.set(st::q_d, &HOME);
            sim.st.set(st::q, &HOME);
            if lossy {
                sim.udp_menu = U_LOSE | U_DUP | U_DELAY;
            }
            let s_ = sim.install();
            let mut r = connect(&s_)?;
            look(&s_);
            let (e0, r0) = (s_.borrow().ev.len(), s_.borrow().reqs.len());
            let rs = res(&call(|| r.joint_motion(s, &goal)));
            ensure(rs == Res::Ok, || format!("joint_motion({s}, {goal:?}) from {HOME:?}: {rs:?}"))?;
            let sm = s_.borrow();
            let sp = Spec { mode: 1, ..Spec::new(0, 1) };
            ensure(kinds_of(&sm, r0) == [cmd::MOVE] && sm.reqs[r0].payload == sp.move_payload(), || "wrong requests".into())?;
            let cmds: Vec<&Cmd> = sm.ev[e0..].iter().filter_map(|e| if let Ev::Cmd(c) = e { Some(c) } else { None }).collect();
            ensure(!cmds.is_empty() && cmds.last().unwrap().finished, || "no completing command".into())?;
            let body: Vec<&&Cmd> = cmds.iter().filter(|c| !c.finished).collect();
            let (mut prev, mut pm) = (HOME, None::<u64>);
            let mut own = MotionGenerator::new(s, &goal);
            let mut worst = 0f64;
            for c in body.iter().copied().chain(cmds.iter().filter(|c| c.finished).take(1)) {
                let dt = pm.map(|p| (c.msg - p) as f64 * 1e-3).unwrap_or(0.);
                for i in 0..7 {
                    let sg = (goal[i] - HOME[i]).signum();
                    let stp = c.q[i] - prev[i];
                    ensure(stp * sg >= -slack && (goal[i] - c.q[i]) * sg >= -slack, || format!("joint {i}: {} after {} on the way to {}", c.q[i], prev[i], goal[i]))?;
                    ensure(stp.abs() <= VMAX[i] * s * dt * 1.000001 + slack, || format!("joint {i} steps by {stp} in {dt} s"))?;
                    checked(2);
                }
                let z = sp.image(&Out { q: c.q, ..Default::default() }, None);
                same_cmd(c, &z)?;
                if !lossy {
                    let b = RobotState { q_d: sm.sent[&c.msg].arr(st::q_d), ..RobotState::default() };
                    let g = own.generate_motion(&b, &Duration::from_millis((dt * 1000.).round() as u64));
                    worst = worst.max(geo::maxdiff(&c.q, &g.q));
                }
                prev = c.q;
                pm = Some(c.msg);
            }
            ensure(lossy || worst <= 2e-5, || format!("the commands differ from the generated motion by up to {worst:e} {total}"))?;
            let f = cmds.last().unwrap();
            let err = geo::maxdiff(&f.q, &goal);
            ensure(err <= slack, || format!("joint_motion({s}, {goal:?}) ended at {:?}, off by {err:e}", f.q))?;
            let n = body.len();
            ensure((n as f64) <= total * 1000. + 4., || format!("{n} commands for a motion of {total} s"))?;
            if total == 0. {
                ensure(n == 0, || format!("start equal to goal: {n} commands before completion"))?;
            }
            drop(sm);
            drop(r);
            s_.borrow().wire_clean()?;
            count(n as u64);
            Ok(Dig::new().u(n as u64).0)
        }),
        space("c16-limited", 0, "point-to-point call on a robot whose desired position does not move, or lags, while states are lost in runs of 1..100: every command stays within the velocity and acceleration limits of one cycle", move || {
            let (s, d) = ([1., 0.3][pick(2)], [0.4, -1.5, 0.02][pick(3)]);
            let gap = [1, 2, 5, 20, 100][pick(5)];
            let track = pick(2) == 1;
            let mut goal = HOME;
            goal.iter_mut().enumerate().for_each(|(i, g)| *g += d * (1. - 0.1 * i as f64));
            let mut sim = robot_sim();
            sim.st.set(st::q_d, &HOME);
            sim.st.set(st::q, &HOME);
            sim.track = track;
            // the k-th state after the start of the motion is followed by a pause of `gap` states
            sim.gap = Some((20, gap));
            let s_ = sim.install();
            let mut r = connect(&s_)?;
            let e0 = s_.borrow().ev.len();
            let rs = res(&call(|| r.joint_motion(s, &goal)));
            ensure(rs == Res::Ok, || format!("joint_motion({s}, {goal:?}) from {HOME:?}: {rs:?}"))?;
            let sm = s_.borrow();
            let mut n = 0;
            for c in sm.ev[e0..].iter().filter_map(|e| if let Ev::Cmd(c) = e { Some(c) } else { None }) {
                let b = &sm.sent[&c.msg];
                let (q, dq): ([f64; 7], [f64; 7]) = (b.arr(st::q_d), b.arr(st::dq_d));
                for i in 0..7 {
                    let v = (c.q[i] - q[i]) * 1e3;
                    let a = (v - dq[i]) * 1e3;
                    ensure(v.abs() <= super::limits::QV[i] + 1e-9 && a.abs() <= super::limits::QA[i] + 1e-5, || format!("joint {i}: velocity {v}, acceleration {a} after a gap of {gap} states"))?;
                    checked(2);
                }
                n += 1;
            }
            count(n);
            Ok(Dig::new().u(n).0)
        }),
    ]
}
// ---------------------------------------------------------------------------------------- C24
fn axes() -> Vec<[f64; 3]> {
    let mut v = vec![];
    for x in -2i32..=2 {
        for y in -2i32..=2 {
            for z in -2i32..=2 {
                if (x, y, z) != (0, 0, 0) {
                    v.push([x as f64, y as f64 * 0.7, z as f64]);
                }
            }
        }
    }
    v
}
fn angles(full: bool) -> Vec<f64> {
    let pi = std::f64::consts::PI;
    let mut v = vec![0., 1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 0.1, 1., pi / 2., 2., pi - 1e-3, pi - 1e-6, pi - 1e-8, pi - 1e-12, pi, -pi / 2., -0.4, pi + 1e-7];
    if full {
        for k in 0..64 {
            v.push(k as f64 * pi / 32.);
        }
    }
    v
}
fn iso_matrix(i: &Isometry3<f64>) -> [f64; 16] {
    let mut o = [0.; 16];
    let m = i.to_homogeneous();
    for c in 0..4 {
        for r in 0..4 {
            o[c * 4 + r] = m[(r, c)];
        }
    }
    o
}
/// Nearest rotation: polar decomposition by Newton iteration.
fn nearest(m: &geo::M3) -> geo::M3 {
    let mut x = *m;
    for _ in 0..60 {
        let det = x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1]) - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0]) + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0]);
        let mut inv_t = [[0.; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                let (a, b, c, d) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
                inv_t[i][j] = (x[a][c] * x[b][d] - x[a][d] * x[b][c]) / det;
            }
        }
        for i in 0..3 {
            for j in 0..3 {
                x[i][j] = 0.5 * (x[i][j] + inv_t[i][j]);
            }
        }
    }
    x
}
fn conv(p: &[f64; 16], want: &geo::M3, tol: f64) -> R<()> {
    let i = guarded(|| array_to_isometry(p))?;
    let back = iso_matrix(&i);
    let r = geo::rot_of(&back);
    for k in 0..3 {
        ensure(geo::maxdiff(&r[k], &want[k]) <= tol, || format!("array_to_isometry({p:?}) has the rotation {r:?}, expected {want:?}"))?;
        ensure(back[12 + k].to_bits() == p[12 + k].to_bits(), || format!("array_to_isometry({p:?}) changes the translation: {back:?}"))?;
    }
    ensure(back[3] == 0. && back[7] == 0. && back[11] == 0. && back[15] == 1., || "last row".into())?;
    let q = i.rotation.into_inner();
    ensure((q.norm() - 1.).abs() < 1e-12, || format!("array_to_isometry({p:?}) is not a unit quaternion: {q:?}"))?;
    // it acts on points like the matrix
    for x in [[1., 0., 0.], [0., 1., 0.], [0.3, -0.2, 0.9]] {
        let g = i * nalgebra::Point3::new(x[0], x[1], x[2]);
        for k in 0..3 {
            let w = want[k][0] * x[0] + want[k][1] * x[1] + want[k][2] * x[2] + p[12 + k];
            ensure((g[k] - w).abs() <= tol * 4. + 1e-15 * p[12 + k].abs(), || format!("array_to_isometry({p:?}) maps {x:?} to {g:?}"))?;
        }
    }
    // through the command type
    let c: CartesianPose = i.into();
    ensure(c.elbow.is_none() && !c.is_finished(), || "an isometry became a command with an elbow or a finished mark".into())?;
    ensure(geo::maxdiff(&c.O_T_EE, &back) <= 1e-15, || format!("CartesianPose::from(isometry) is {:?}, the isometry is {back:?}", c.O_T_EE))?;
    let c2: CartesianPose = (*p).into();
    let c3 = CartesianPose::new(*p, None);
    ensure(c2.O_T_EE == *p && c3.O_T_EE == *p && c2.elbow.is_none() && !c2.is_finished() && !c3.is_finished(), || "CartesianPose from an array alters it".into())?;
    let i2 = array_to_isometry(&c.O_T_EE);
    ensure(geo::maxdiff(&iso_matrix(&i2), &back) <= 1e-14, || format!("array -> isometry -> pose -> isometry drifts at {p:?}"))?;
    checked(12);
    Ok(())
}
fn same7(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn fin<T: MotionFinished + Finishable + Copy>(t: T, vals: impl Fn(&T) -> Vec<f64>) -> R<()> {
    let before = vals(&t);
    ensure(!t.is_finished(), || "a new command is already finished".into())?;
    let f = t.motion_finished();
    ensure(f.is_finished(), || "motion_finished does not set the mark".into())?;
    ensure(same7(&before, &vals(&f)), || format!("motion_finished alters the values {before:?} to {:?}", vals(&f)))?;
    let mut g = f;
    g.set_motion_finished(false);
    ensure(!g.is_finished() && same7(&before, &vals(&g)), || "clearing the mark".into())?;
    g.set_motion_finished(true);
    ensure(g.is_finished() && same7(&before, &vals(&g)), || "setting the mark".into())?;
    checked(4);
    Ok(())
}
fn c24(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c24-isometry", 0, "124 axes x angles incl. tiny, quarter, near and exact half turns x translations: array, isometry, pose command and back", move || {
            let ax = axes();
            let a = ax[pick(ax.len())];
            for an in angles(full) {
                for tr in [[0., 0., 0.], [0.3, -0.2, 1e-9], [1e6, -3., 0.1], [1e-12, -5e-324, 1e12]] {
                    let r = geo::rot(&a, an);
                    conv(&geo::pose(&r, &tr), &r, 1e-12)?;
                    // from our own quaternion
                    let n = norm(&a);
                    let (s, c) = (an / 2.).sin_cos();
                    let q = UnitQuaternion::from_quaternion(Quaternion::new(c, a[0] / n * s, a[1] / n * s, a[2] / n * s));
                    let i = Isometry3::from_parts(Translation3::new(tr[0], tr[1], tr[2]), q);
                    let p: CartesianPose = i.into();
                    ensure(geo::maxdiff(&p.O_T_EE, &geo::pose(&r, &tr)) <= 1e-12, || format!("CartesianPose::from(isometry) is {:?} for a rotation by {an} about {a:?}", p.O_T_EE))?;
                    count(2);
                    checked(1);
                }
            }
            Ok(Dig::new().u(a[0].to_bits()).u(a[1].to_bits()).u(a[2].to_bits()).0)
        }),
        space("c24-cube", 0, "the 24 exact rotations of the cube and all products of two of them with small rotations", move || {
            let cs = cube();
            let a = cs[pick(24)];
            let b = cs[pick(24)];
            conv(&geo::pose(&a, &[1., 2., 3.]), &a, 1e-15)?;
            for an in [1e-10, 1e-5, 0.2] {
                let r = geo::mul(&geo::mul(&a, &geo::rot(&[1., -1., 0.3], an)), &b);
                conv(&geo::pose(&r, &[0., -2., 3.]), &r, 1e-12)?;
            }
            count(4);
            Ok(0)
        }),
        space("c24-nearest", 0, "axes x angles x every single and pairs of matrix elements displaced by 1e-9..1e-3: the result is the nearest rotation (polar decomposition)", move || {
            let ax = axes();
            let a = ax[pick(ax.len())];
            let ang = angles(full);
            let an = ang[pick(ang.len())];
            let r = geo::rot(&a, an);
            for d in [1e-9, -1e-6, 1e-5, 1e-3] {
                for e in 0..9 {
                    for e2 in e..9 {
                        let mut m = r;
                        m[e / 3][e % 3] += d;
                        if e2 != e {
                            m[e2 / 3][e2 % 3] -= 0.5 * d;
                        }
                        conv(&geo::pose(&m, &[0.1, 0.2, 0.3]), &nearest(&m), 1e-10)?;
                        count(1);
                    }
                }
            }
            Ok(Dig::new().u(an.to_bits()).0)
        }),
        space("c24-types", 0, "command types from arrays, vectors, with elbow, with finished mark, for special values in every element", move || {
            let sv = [0., -0., 1., -1.5, 1e300, 5e-324, f64::NAN, f64::INFINITY, 0.1];
            let v = sv[pick(sv.len())];
            let e = pick(17);
            let mut q = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7];
            if e < 7 {
                q[e] = v;
            }
            let mut tw = [1., 2., 3., 4., 5., 6.];
            if e < 6 {
                tw[e] = v;
            }
            let mut p = geo::pose(&geo::rot(&[1., 2., 3.], 0.4), &[0.1, 0.2, 0.3]);
            if e < 16 {
                p[e] = v;
            }
            let el = [None, Some([0.3, 1.]), Some([v, -1.])][pick(3)];
            let qv = Vector7::from_column_slice(&q);
            let (a, b): (JointPositions, JointVelocities) = (qv.into(), qv.into());
            let c: Torques = qv.into();
            ensure(same7(&a.q, &q) && same7(&b.dq, &q) && same7(&c.tau_J, &q), || "vector conversion alters joint values".into())?;
            let d: CartesianVelocities = Vector6::from_column_slice(&tw).into();
            ensure(same7(&d.O_dP_EE, &tw) && d.elbow.is_none(), || "vector conversion alters velocities".into())?;
            for x in [JointPositions::new(q), a] {
                fin(x, |t| t.q.to_vec())?;
            }
            for x in [JointVelocities::new(q), b] {
                fin(x, |t| t.dq.to_vec())?;
            }
            for x in [Torques::new(q), c] {
                fin(x, |t| t.tau_J.to_vec())?;
            }
            let ev = |e: &Option<[f64; 2]>| e.map(|x| vec![1., x[0], x[1]]).unwrap_or(vec![0.]);
            for x in [CartesianVelocities::new(tw, el), d] {
                fin(x, |t| [t.O_dP_EE.to_vec(), ev(&t.elbow)].concat())?;
            }
            for x in [CartesianPose::new(p, el), p.into()] {
                fin(x, |t| [t.O_T_EE.to_vec(), ev(&t.elbow)].concat())?;
            }
            let x = CartesianPose::new(p, el);
            ensure(same7(&x.O_T_EE, &p) && ev(&x.elbow) .iter().zip(ev(&el)).all(|(a, b)| a.to_bits() == b.to_bits()) && x.has_elbow() == el.is_some(), || "CartesianPose::new alters its arguments".into())?;
            let y = CartesianVelocities::new(tw, el);
            ensure(same7(&y.O_dP_EE, &tw) && ev(&y.elbow).iter().zip(ev(&el)).all(|(a, b)| a.to_bits() == b.to_bits()) && y.has_elbow() == el.is_some(), || "CartesianVelocities::new alters its arguments".into())?;
            checked(8);
            Ok(Dig::new().u(v.to_bits()).u(e as u64).0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", spaces: c16, assumptions: super::ASSUMPTIONS },
        Prop { id: "C24", spaces: c24, assumptions: super::ASSUMPTIONS },
    ]
}
