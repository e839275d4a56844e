//! C11 joint limits, C12 Cartesian and elbow limits.
use super::ctl::*;
use super::rig::*;
use super::shape::{cube, orientations, still};
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, Space};
use crate::geo::{self, norm};
use crate::wire::{st, State};
use crate::Tier;

const DT: f64 = 1e-3;
const EPS: f64 = 1e-3;
// published limits
const QJ: [f64; 7] = [7500., 3750., 5000., 6250., 7500., 10000., 10000.];
pub const QA: [f64; 7] = [15., 7.5, 10., 12.5, 15., 20., 20.];
pub const QV: [f64; 7] = [2.175, 2.175, 2.175, 2.175, 2.61, 2.61, 2.61];
#[derive(Clone, Copy)]
pub struct Lim {
    pub v: f64,
    pub a: f64,
    pub j: f64,
}
const TRANS: Lim = Lim { v: 2., a: 13., j: 6500. };
const ROT: Lim = Lim { v: 2.5, a: 25., j: 12500. };
const ELBOW: Lim = Lim { v: 2.175, a: 10., j: 5000. };
fn joint(i: usize) -> Lim {
    Lim { v: QV[i], a: QA[i], j: QJ[i] }
}
impl Lim {
    /// The bounds the library works with: a small margin below the published ones.
    fn inner(&self, f: f64) -> Lim {
        let a = self.a - EPS;
        Lim { v: f * (self.v - EPS - 1e-6 * a), a: f * a, j: f * (self.j - EPS) }
    }
}
/// Acceleration of the next command that comes closest to the requested velocity: jerk first, then
/// acceleration with the braking margin towards the velocity limit.
fn ref1(l: &Lim, req: f64, v: f64, a: f64) -> f64 {
    let x = ((req - v) / DT).clamp(a - l.j * DT, a + l.j * DT);
    let lo = (-l.a).max(l.j / l.a * (-l.v - v));
    let hi = l.a.min(l.j / l.a * (l.v - v));
    x.min(hi).max(lo)
}
fn gain(fc: f64) -> f64 {
    if fc < 1000. {
        DT / (DT + 1. / (2. * std::f64::consts::PI * fc))
    } else {
        1.
    }
}
/// Checks one limited joint command against the reference and the published one-step bounds.
fn joint_step(sp: &Spec, s: &Step, fc: f64) -> R<()> {
    let (q, dq, ddq): ([f64; 7], [f64; 7], [f64; 7]) = (s.st.arr(st::q_d), s.st.arr(st::dq_d), s.st.arr(st::ddq_d));
    let g = gain(fc);
    for i in 0..7 {
        let l = joint(i);
        let (req, v) = if sp.mg() == 1 {
            ((g * s.out.q[i] + (1. - g) * q[i] - q[i]) / DT, (s.cmd.q[i] - q[i]) / DT)
        } else {
            (g * s.out.dq[i] + (1. - g) * dq[i], s.cmd.dq[i])
        };
        let a = ref1(&l.inner(1.), req, dq[i], ddq[i]);
        let want = dq[i] + a * DT;
        let got = (v - dq[i]) / DT;
        checked(3);
        ensure((v - want).abs() <= 2e-7, || {
            format!("{} joint {i}: commanded velocity {v:?}, the closest reachable one is {want:?} (last {:?}, acceleration {:?}, requested {req:?})", NAMES[sp.kind], dq[i], ddq[i])
        })?;
        ensure(v.abs() <= l.v && got.abs() <= l.a, || {
            format!("{} joint {i}: velocity {v:?} or acceleration {got:?} above the limit (last {:?}, {:?})", NAMES[sp.kind], dq[i], ddq[i])
        })?;
        // a request within reach arrives unchanged
        if (req - want).abs() < 1e-12 {
            let (c, r) = if sp.mg() == 1 { (s.cmd.q[i], g * s.out.q[i] + (1. - g) * q[i]) } else { (s.cmd.dq[i], req) };
            ensure((c - r).abs() <= 1e-12 * (1. + r.abs()), || format!("{} joint {i}: {r:?} is within reach, {c:?} was sent", NAMES[sp.kind]))?;
        }
    }
    Ok(())
}
/// Closed loop: the states report what the robot did with the commands.
fn joint_bounds(sp: &Spec, v: &[Step]) -> R<()> {
    let mut prev: Option<[f64; 7]> = None;
    for (k, s) in v.iter().enumerate() {
        let (q, dq, ddq): ([f64; 7], [f64; 7], [f64; 7]) = (s.st.arr(st::q_d), s.st.arr(st::dq_d), s.st.arr(st::ddq_d));
        let mut acc = [0.; 7];
        for i in 0..7 {
            let l = joint(i);
            let vel = if sp.mg() == 1 { (s.cmd.q[i] - q[i]) / DT } else { s.cmd.dq[i] };
            acc[i] = (vel - dq[i]) / DT;
            let jerk = (acc[i] - ddq[i]) / DT;
            checked(1);
            ensure(vel.abs() <= l.v && acc[i].abs() <= l.a && jerk.abs() <= l.j + 1e-4, || {
                format!("{} cycle {k} joint {i}: velocity {vel:?}, acceleration {:?}, jerk {jerk:?} exceed {}, {}, {}", NAMES[sp.kind], acc[i], l.v, l.a, l.j)
            })?;
            if let Some(p) = prev {
                ensure((p[i] - ddq[i]).abs() < 1e-3, || "the robot model does not track".into())?;
            }
        }
        prev = Some(acc);
    }
    Ok(())
}
/// Durations of the phases of a request.
fn durations(full: bool) -> &'static [usize] {
    if full {
        &[1, 2, 3, 4, 5, 7, 10, 15, 20, 35, 50, 75, 100, 125, 145, 146, 147, 148, 149, 150, 155, 200]
    } else {
        &[1, 2, 3, 5, 10, 20, 50, 100, 145, 150, 200]
    }
}
/// The 7 different schedules of the joints of one execution are picked together.
#[derive(Clone)]
struct Sched(Vec<(usize, f64)>);
impl Sched {
    fn at(&self, k: usize) -> f64 {
        let mut t = k;
        for (d, l) in &self.0 {
            if t < *d {
                return *l;
            }
            t -= d;
        }
        self.0.last().unwrap().1
    }
}
fn c11(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c11-step", 0, "joint calls x filter x previous velocity x previous acceleration x requests (within reach, at and around each bound, huge), all joints", move || {
            let kind = [0, 1, 4, 5][pick(4)];
            let fc = [1000., 100., 10.][pick(3)];
            let vf = if full { vec![0., 0.1, -0.1, 0.5, -0.5, 0.9, -0.9, 0.97, -0.97, 0.99, -0.99, 0.999, -0.999, 1., -1.] } else { vec![0., 0.3, -0.3, 0.9, -0.9, 0.98, -0.98, 1., -1.] };
            let af = if full { vec![0., 0.2, -0.2, 0.5, -0.5, 0.8, -0.8, 0.99, -0.99, 1., -1.] } else { vec![0., 0.5, -0.5, 0.95, -0.95, 1., -1.] };
            // requested jerk relative to the limit / acceleration relative to the limit / velocity relative to the limit
            let rq = [
                (0, 0.), (0, 0.5), (0, -0.5), (0, 0.999), (0, -0.999), (0, 1.001), (0, -1.001), (0, 2.), (0, -2.), (1, 0.), (1, 0.5), (1, -0.5), (1, 0.99),
                (1, -0.99), (1, 1.1), (1, -1.1), (2, 0.), (2, 0.5), (2, -0.5), (2, 1.), (2, -1.), (2, 1.01), (2, -1.01), (2, 20.), (2, -20.), (2, 1e9), (2, -1e9), (2, 1e200), (2, -1e200),
            ];
            let base = [0., 1.3, -2.7][pick(3)];
            let n = vf.len() * af.len() * rq.len();
            let sp = spec(kind, n, Some(true), Some(fc));
            let (nv, na, nr) = (vf.len(), af.len(), rq.len());
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    let (mut q, mut dq, mut ddq) = ([0.; 7], [0.; 7], [0.; 7]);
                    for i in 0..7 {
                        let c = (k + i * 97) % n;
                        q[i] = base + 0.01 * i as f64;
                        dq[i] = vf[c / nr / na % nv] * QV[i];
                        ddq[i] = af[c / nr % na] * QA[i];
                    }
                    s.set(st::q_d, &q);
                    s.set(st::dq_d, &dq);
                    s.set(st::ddq_d, &ddq);
                },
                move |k, s| {
                    let mut o = still(s);
                    for i in 0..7 {
                        let c = (k + i * 97) % n;
                        let (w, x) = rq[c % nr];
                        let (v, a) = (s.dq_d[i], s.ddq_d[i]);
                        let req = match w {
                            0 => v + (a + x * QJ[i] * DT) * DT,
                            1 => v + x * QA[i] * DT,
                            _ => x * QV[i],
                        };
                        o.dq[i] = req;
                        o.q[i] = s.q_d[i] + req * DT;
                    }
                    o
                },
                false,
            )?;
            v.iter().try_for_each(|s| joint_step(&sp, s, fc))?;
            Ok(Dig::new().u(kind as u64).u(fc.to_bits()).0)
        }),
        space("c11-phases", 0, "joint calls, robot at rest that tracks its commands: every three-phase velocity request (levels x durations), different phases per joint", move || {
            let kind = [0, 1, 4, 5][pick(if full { 4 } else { 2 })];
            let fc = [1000., 100.][pick(2)];
            let d = durations(full);
            let (d1, d2) = (d[pick(d.len())], d[pick(d.len())]);
            let lv = [0., 0.4, -0.4, 1., -1., 50., -50.];
            let (a, b) = (pick(lv.len()), pick(lv.len()));
            // seven third levels, one per joint, and both preceding levels shifted
            let n = d1 + d2 + if full { 420 } else { 330 };
            let sch: Vec<Sched> = (0..7).map(|i| Sched(vec![(d1, lv[(a + i) % 7]), (d2, lv[(b + 2 * i) % 7]), (usize::MAX, lv[(a + b + 3 * i) % 7])])).collect();
            let sp = spec(kind, n, Some(true), Some(fc));
            let mut start: Option<[f64; 7]> = None;
            let mut goal = [0.; 7];
            let v = closed_loop(
                &sp,
                |s| s.set(st::q_d, &[0.3, -0.4, 0.2, -1.8, 0.1, 1.7, 0.8]),
                move |k, s| {
                    let mut o = still(s);
                    let q0 = *start.get_or_insert(s.q_d);
                    for i in 0..7 {
                        let v = sch[i].at(k) * QV[i];
                        o.dq[i] = v;
                        if k == 0 {
                            goal[i] = q0[i];
                        }
                        // a position far ahead, or a ramp of that velocity
                        goal[i] += v * DT;
                        o.q[i] = if sch[i].at(k).abs() > 2. { q0[i] + v } else { goal[i] };
                    }
                    o
                },
            )?;
            v.iter().try_for_each(|s| joint_step(&sp, s, fc))?;
            joint_bounds(&sp, &v)?;
            Ok(Dig::new().u(kind as u64).u(d1 as u64).u(d2 as u64).0)
        }),
        space("c11-periodic", 0, "joint calls, robot tracking: every periodic request with two to four levels of one to three cycles each", move || {
            let kind = [0, 1, 4, 5][pick(4)];
            let lv = [0., 0.2, 1., -1., 1e6, -1e6];
            let m = 2 + pick(3);
            let seq: Vec<usize> = (0..m).map(|_| pick(lv.len())).collect();
            let hold = [1, 2, 3, 10, 40][pick(5)];
            let sp = spec(kind, if full { 600 } else { 240 }, Some(true), Some(1000.));
            let v = closed_loop(
                &sp,
                |s| s.set(st::q_d, &[0.3, -0.4, 0.2, -1.8, 0.1, 1.7, 0.8]),
                move |k, s| {
                    let mut o = still(s);
                    for i in 0..7 {
                        let x = lv[(seq[(k / hold) % m] + i * (k / hold % 2)) % lv.len()];
                        o.dq[i] = x * QV[i];
                        o.q[i] = s.q[i] + x * QV[i] * 0.1;
                    }
                    o
                },
            )?;
            v.iter().try_for_each(|s| joint_step(&sp, s, 1000.))?;
            joint_bounds(&sp, &v)?;
            Ok(Dig::new().u(kind as u64).u(m as u64).0)
        }),
    ]
}
// ---------------------------------------------------------------------------------------- C12
type V3 = [f64; 3];
fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn axpy(a: &V3, k: f64, b: &V3) -> V3 {
    [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]]
}
fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn scale(a: &V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
/// Velocity of the next command in three dimensions: jerk vector shortened to the limit, then the
/// acceleration vector shortened to the limit and the braking margin along its direction.
fn ref3(l: &Lim, req: &V3, v: &V3, a: &V3) -> V3 {
    let j = scale(&sub(&scale(&sub(req, v), 1. / DT), a), 1. / DT);
    let nj = norm(&j);
    let mut acc = *a;
    if nj > 0. {
        acc = axpy(a, nj.min(l.j) / nj * DT, &j);
    }
    let na = norm(&acc);
    if na < 1e-12 {
        return *v;
    }
    let u = scale(&acc, 1. / na);
    let d = dot(&u, v);
    let dist = -d + (d * d - dot(v, v) + l.v * l.v).max(0.).sqrt();
    axpy(v, na.min(l.j / l.a * dist).min(l.a) * DT, &u)
}
fn v3(x: &[f64]) -> V3 {
    [x[0], x[1], x[2]]
}
struct Cart {
    v: [f64; 6],
    lv: [f64; 6],
    la: [f64; 6],
}
fn cart(sp: &Spec, s: &Step) -> Cart {
    let (lv, la): ([f64; 6], [f64; 6]) = (s.st.arr(st::O_dP_EE_c), s.st.arr(st::O_ddP_EE_c));
    let v = if sp.mg() == 3 {
        let l: [f64; 16] = s.st.arr(st::O_T_EE_c);
        geo::twist(&l, &s.cmd.pose, DT)
    } else {
        s.cmd.vel
    };
    Cart { v, lv, la }
}
fn valid_pose(n: &str, p: &[f64; 16]) -> R<()> {
    let r = geo::rot_of(p);
    let e = geo::mul(&r, &geo::tr(&r));
    for i in 0..3 {
        for j in 0..3 {
            ensure((e[i][j] - (i == j) as usize as f64).abs() < 1e-7, || format!("{n}: the transmitted rotation is not orthonormal: {r:?}"))?;
        }
    }
    let det = r[0][0] * (r[1][1] * r[2][2] - r[1][2] * r[2][1]) - r[0][1] * (r[1][0] * r[2][2] - r[1][2] * r[2][0]) + r[0][2] * (r[1][0] * r[2][1] - r[1][1] * r[2][0]);
    ensure(det > 0.9, || format!("{n}: the transmitted rotation is a reflection"))?;
    ensure(p[3] == 0. && p[7] == 0. && p[11] == 0. && p[15] == 1., || format!("{n}: bad last row"))
}
/// `tol`: velocity tolerance of the comparison with the reference.
fn cart_step(sp: &Spec, s: &Step, tol: f64, strict: bool) -> R<()> {
    let n = NAMES[sp.kind];
    let c = cart(sp, s);
    let f = if sp.mg() == 3 { 0.99 } else { 1. };
    let req = if sp.mg() == 3 {
        let l: [f64; 16] = s.st.arr(st::O_T_EE_c);
        valid_pose(n, &s.cmd.pose)?;
        geo::twist(&l, &s.out.pose, DT)
    } else {
        s.out.vel
    };
    for (o, l, f) in [(0, TRANS, 1.), (3, ROT, f)] {
        let what = if o == 0 { "translation" } else { "rotation" };
        let (v, lv, la, rq) = (v3(&c.v[o..]), v3(&c.lv[o..]), v3(&c.la[o..]), v3(&req[o..]));
        let want = ref3(&l.inner(f), &rq, &lv, &la);
        checked(2);
        // at full speed the braking margin is ill-conditioned: only the bounds decide
        let edge = norm(&lv) >= l.inner(f).v * (1. - 1e-6);
        ensure(edge || norm(&sub(&v, &want)) <= tol, || {
            format!("{n} {what}: commanded velocity {v:?}, expected {want:?} (last {lv:?}, acceleration {la:?}, requested {rq:?})")
        })?;
        if strict {
            let a = norm(&sub(&v, &lv)) / DT;
            ensure(norm(&v) <= l.v && a <= l.a, || format!("{n} {what}: speed {:?} or acceleration {a:?} above the limit (last {lv:?}, {la:?}, requested {rq:?})", norm(&v)))?;
        }
    }
    elbow_step(sp, s)
}
fn elbow_step(sp: &Spec, s: &Step) -> R<()> {
    let n = NAMES[sp.kind];
    ensure(s.cmd.valid_elbow == s.out.elbow.is_some(), || format!("{n}: elbow validity {}", s.cmd.valid_elbow))?;
    if let Some(e) = s.out.elbow {
        let (p, v, a): ([f64; 2], [f64; 2], [f64; 2]) = (s.st.arr(st::elbow_c), s.st.arr(st::delbow_c), s.st.arr(st::ddelbow_c));
        let acc = ref1(&ELBOW.inner(1.), (e[0] - p[0]) / DT, v[0], a[0]);
        let want = v[0] + acc * DT;
        let got = (s.cmd.elbow[0] - p[0]) / DT;
        ensure((got - want).abs() < 2e-7, || format!("{n} elbow: commanded velocity {got:?}, expected {want:?} (last {:?}, {:?}, request {e:?})", v[0], a[0]))?;
        let ga = (got - v[0]) / DT;
        ensure(got.abs() <= ELBOW.v && ga.abs() <= ELBOW.a, || format!("{n} elbow: velocity {got:?} or acceleration {ga:?} above the limit"))?;
        ensure(s.cmd.elbow[1] == e[1], || format!("{n}: elbow sign altered"))?;
        checked(3);
    }
    Ok(())
}
fn elbow_jerk(sp: &Spec, v: &[Step]) -> R<()> {
    for (k, s) in v.iter().enumerate() {
        if s.out.elbow.is_some() {
            let (p, vl, a): ([f64; 2], [f64; 2], [f64; 2]) = (s.st.arr(st::elbow_c), s.st.arr(st::delbow_c), s.st.arr(st::ddelbow_c));
            let vel = (s.cmd.elbow[0] - p[0]) / DT;
            let jerk = ((vel - vl[0]) / DT - a[0]) / DT;
            ensure(jerk.abs() <= ELBOW.j + 1e-4, || format!("{} cycle {k}: elbow jerk {jerk:?}", NAMES[sp.kind]))?;
        }
    }
    Ok(())
}
fn dirs(full: bool) -> Vec<V3> {
    let mut d = vec![];
    for x in -1..=1 {
        for y in -1..=1 {
            for z in -1..=1 {
                if (x, y, z) != (0, 0, 0) && (full || x * x + y * y + z * z != 2 || x == 1) {
                    let v = [x as f64, y as f64, z as f64];
                    d.push(scale(&v, 1. / norm(&v)));
                }
            }
        }
    }
    d.push([0.6, -0.64, 0.48]);
    d
}
fn place(s: &mut State, r: &geo::M3, t: V3) {
    s.set(st::O_T_EE_c, &geo::pose(r, &t));
}
fn c12(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c12-step", 0, "Cartesian calls x previous velocity and acceleration vectors (directions x magnitudes up to the limit) x requests", move || {
            let kind = [2, 3, 6, 7][pick(4)];
            let d = dirs(full);
            let n = d.len();
            let vm = [0., 0.3, 0.9, 0.999][pick(4)];
            let am = [0., 0.5, 0.99][pick(3)];
            let vd = pick(n);
            let rm = [0., 0.5, 1., 1.5, 30., 1e9];
            let cyc = n * n * rm.len();
            let sp = spec(kind, cyc, Some(true), Some(1000.));
            let r = [geo::rot(&[1., 0., 0.], std::f64::consts::PI), geo::rot(&[1., 2., -1.], 0.8), geo::rot(&[0., 1., 1.], 3.1)];
            let (d1, d2) = (d.clone(), d.clone());
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    let ad = k % n;
                    let mut v = [0.; 6];
                    let mut a = [0.; 6];
                    for i in 0..3 {
                        v[i] = d1[vd][i] * vm * (TRANS.v - 2e-3);
                        v[3 + i] = d1[(vd + 5) % n][i] * vm * 0.98 * ROT.v;
                        a[i] = d1[ad][i] * am * TRANS.a;
                        a[3 + i] = d1[(ad + 3) % n][i] * am * 0.98 * ROT.a;
                    }
                    s.set(st::O_dP_EE_c, &v);
                    s.set(st::O_ddP_EE_c, &a);
                    s.set(st::delbow_c, &[vm * ELBOW.v * if k % 2 == 0 { 1. } else { -1. }, 0.]);
                    s.set(st::ddelbow_c, &[am * ELBOW.a * if k % 4 < 2 { 1. } else { -1. }, 0.]);
                    place(s, &r[k % 3], [0.3, -0.2, 0.5]);
                },
                move |k, s| {
                    let (rd, m) = (k / n % n, rm[k / n / n]);
                    let mut o = still(s);
                    for i in 0..3 {
                        o.vel[i] = d2[rd][i] * m * TRANS.v;
                        o.vel[3 + i] = d2[(rd + 7) % n][i] * m.min(1000.) * ROT.v;
                    }
                    let w = [o.vel[3] * DT, o.vel[4] * DT, o.vel[5] * DT];
                    let rot = geo::mul(&geo::rot(&w, norm(&w)), &geo::rot_of(&s.O_T_EE_c));
                    let l = s.O_T_EE_c;
                    o.pose = geo::pose(&rot, &[l[12] + o.vel[0] * DT, l[13] + o.vel[1] * DT, l[14] + o.vel[2] * DT]);
                    o.elbow = Some([s.elbow_c[0] + [0., 1e-6, -1e-6, 1e-3, -1e-3, 5., -1e9][k % 7], if k % 3 == 0 { 1. } else { -1. }]);
                    o
                },
                false,
            )?;
            v.iter().try_for_each(|s| cart_step(&sp, s, 1e-6, true))?;
            Ok(Dig::new().u(kind as u64).u(vd as u64).0)
        }),
        space("c12-tiny", 0, "Cartesian calls x previous velocity and acceleration x requests that differ from going on as before by 1e-10 to 1e-3 m/s or rad/s in every direction: obeyed to 1e-8", move || {
            let kind = [2, 3, 6, 7][pick(4)];
            let d = dirs(full);
            let n = d.len();
            let vm = [0., 0.01, 0.3][pick(3)];
            let am = [0., 1e-4, 0.3][pick(3)];
            let vd = pick(n);
            let e = [0., 1e-10, 1e-8, 1e-7, 3e-7, 9e-7, 3e-6, 1e-5, 1e-4, 1e-3];
            let sp = spec(kind, n * e.len(), Some(true), Some(1000.));
            let r = [geo::rot(&[1., 0., 0.], std::f64::consts::PI), geo::rot(&[1., 2., -1.], 0.8), geo::rot(&[0., 1., 1.], 3.1)];
            let (d1, d2) = (d.clone(), d.clone());
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    let (mut v, mut a) = ([0.; 6], [0.; 6]);
                    for i in 0..3 {
                        v[i] = d1[vd][i] * vm * TRANS.v;
                        v[3 + i] = d1[(vd + 5) % n][i] * vm * ROT.v;
                        a[i] = d1[(vd + 1) % n][i] * am * TRANS.a;
                        a[3 + i] = d1[(vd + 3) % n][i] * am * ROT.a;
                    }
                    s.set(st::O_dP_EE_c, &v);
                    s.set(st::O_ddP_EE_c, &a);
                    s.set(st::delbow_c, &[0., 0.]);
                    s.set(st::ddelbow_c, &[0., 0.]);
                    place(s, &r[k % 3], [0.3, -0.2, 0.5]);
                },
                move |k, s| {
                    let (rd, m) = (k % n, e[k / n % e.len()]);
                    let mut o = still(s);
                    for i in 0..3 {
                        o.vel[i] = s.O_dP_EE_c[i] + s.O_ddP_EE_c[i] * DT + d2[rd][i] * m;
                        o.vel[3 + i] = s.O_dP_EE_c[3 + i] + s.O_ddP_EE_c[3 + i] * DT + d2[(rd + 7) % n][i] * m;
                    }
                    let w = [o.vel[3] * DT, o.vel[4] * DT, o.vel[5] * DT];
                    let rot = geo::mul(&geo::rot(&w, norm(&w)), &geo::rot_of(&s.O_T_EE_c));
                    let l = s.O_T_EE_c;
                    o.pose = geo::pose(&rot, &[l[12] + o.vel[0] * DT, l[13] + o.vel[1] * DT, l[14] + o.vel[2] * DT]);
                    o.elbow = Some([s.elbow_c[0] + 1e-12 * (k as f64 - 30.), if k % 3 == 0 { 1. } else { -1. }]);
                    o
                },
                false,
            )?;
            v.iter().try_for_each(|s| cart_step(&sp, s, 1e-8, true))?;
            Ok(Dig::new().u(kind as u64).u(vd as u64).0)
        }),
        space("c12-rest", 0, "pose calls x 94 orientations x three positions x filter: a robot at rest told to stay where it is does not move and the call succeeds", move || {
            let kind = [2, 6][pick(2)];
            let fc = [1000., 100.][pick(2)];
            let mut rs = cube();
            rs.extend(orientations());
            let r = rs[pick(rs.len())];
            let tr = [[0., 0., 0.], [0.3, -0.2, 0.5], [1., 1e-3, -0.7]][pick(3)];
            let sp = spec(kind, if full { 100 } else { 20 }, Some(true), Some(fc));
            let v = closed_loop(&sp, move |s| place(s, &r, tr), |_, s| Out { elbow: None, ..still(s) })?;
            let p0 = geo::pose(&r, &tr);
            for s in &v {
                checked(1);
                ensure(geo::maxdiff(&s.cmd.pose, &p0) < 1e-9, || format!("{}: told to stay at {p0:?}, commanded {:?}", NAMES[kind], s.cmd.pose))?;
            }
            Ok(Dig::new().u(kind as u64).0)
        }),
        space("c12-turns", 0, "pose calls, robot at rest that tracks its commands: every ordered pair of orientations (incl. half turns) with a translation, bounded motion towards the goal", move || {
            let kind = [2, 6][pick(2)];
            let mut rs = cube();
            rs.extend(orientations());
            let (a, b) = (pick(rs.len()), pick(rs.len()));
            let (ra, rb) = (rs[a], rs[b]);
            let sp = spec(kind, 30, Some(true), Some(1000.));
            let v = closed_loop(
                &sp,
                move |s| {
                    place(s, &ra, [0.3, 0.1, 0.2]);
                    s.set(st::elbow_c, &[0.3, -1.]);
                },
                move |_, s| Out { pose: geo::pose(&rb, &[0.9, 0.1, -0.2]), elbow: Some([-1., -1.]), ..still(s) },
            )?;
            let th = geo::angle(&ra, &rb);
            for s in &v {
                cart_bounds(&sp, s)?;
                elbow_step(&sp, s)?;
                valid_pose(NAMES[kind], &s.cmd.pose)?;
            }
            elbow_jerk(&sp, &v)?;
            // it turns towards the goal along the shortest arc, and by the same arc length it approaches
            let last = geo::rot_of(&v.last().unwrap().cmd.pose);
            let (x, y) = (geo::angle(&ra, &last), geo::angle(&last, &rb));
            // (a nearer goal is overshot: the limiter does not brake for it)
            ensure(th <= 0.1 || (x + y - th).abs() < 1e-6, || format!("{}: from {ra:?} to {rb:?} ({th}): turned {x}, still {y}", NAMES[kind]))?;
            if th > 0.1 {
                ensure(x > 3e-3, || format!("{}: from {ra:?} to {rb:?}: the robot turned only {x}", NAMES[kind]))?;
            }
            checked(2);
            Ok(Dig::new().u(kind as u64).u(a as u64).0)
        }),
        space("c12-phases", 0, "Cartesian calls, robot tracking: every three-phase velocity request (directions x magnitudes x durations)", move || {
            let kind = [2, 3, 6, 7][pick(if full { 4 } else { 2 })];
            let ax: [V3; 6] = [[1., 0., 0.], [0., 1., 0.], [-1., 0., 0.], [0.6, -0.8, 0.], [0.6, 0.64, 0.48], [0., 0., 0.]];
            let mg: &[f64] = if full { &[0.4, 1., 40.] } else { &[1., 40.] };
            let (a, b, c) = (pick(6), pick(6), pick(6));
            let (ma, mb) = (mg[pick(mg.len())], mg[pick(mg.len())]);
            let d = if full { &[1usize, 3, 20, 100, 160, 300][..] } else { &[1, 20, 170][..] };
            let (d1, d2) = (d[pick(d.len())], d[pick(d.len())]);
            let n = d1 + d2 + if full { 300 } else { 100 };
            let sp = spec(kind, n, Some(true), Some(1000.));
            let v = closed_loop(
                &sp,
                move |s| {
                    place(s, &geo::rot(&[1., 0., 0.], std::f64::consts::PI), [0.3, 0.1, 0.2]);
                    s.set(st::elbow_c, &[0.3, -1.]);
                },
                move |k, s| {
                    let (x, m) = if k < d1 { (a, ma) } else if k < d1 + d2 { (b, mb) } else { (c, 1.) };
                    let mut o = still(s);
                    for i in 0..3 {
                        o.vel[i] = ax[x][i] * m * TRANS.v;
                        o.vel[3 + i] = ax[(x + 1) % 6][i] * m.min(50.) * ROT.v;
                    }
                    let w = [o.vel[3] * DT, o.vel[4] * DT, o.vel[5] * DT];
                    let rot = geo::mul(&geo::rot(&w, norm(&w)), &geo::rot_of(&s.O_T_EE_c));
                    let l = s.O_T_EE_c;
                    o.pose = geo::pose(&rot, &[l[12] + o.vel[0] * DT, l[13] + o.vel[1] * DT, l[14] + o.vel[2] * DT]);
                    o.elbow = Some([s.elbow_c[0] + ax[x][0] * m * 3e-3, -1.]);
                    o
                },
            )?;
            for s in &v {
                cart_step(&sp, s, 2e-6, false)?;
                cart_bounds(&sp, s)?;
            }
            elbow_jerk(&sp, &v)?;
            Ok(Dig::new().u(kind as u64).u(d1 as u64).u(d2 as u64).0)
        }),
        space("c12-corner", 0, "Cartesian calls, robot tracking at full speed in 19 directions, then requests relative to the current velocity (perpendicular, diagonal, opposite) of five sizes", move || {
            let kind = [2, 3, 6, 7][pick(4)];
            let d = dirs(full);
            let n = d.len();
            let (a, b) = (d[pick(n)], d[pick(n)]);
            let m = [1e-6, 1e-3, 0.013, 1., 1e3][pick(5)];
            let how = pick(4);
            let warm = [190, 600][pick(if full { 2 } else { 1 })];
            let sp = spec(kind, warm + if full { 200 } else { 60 }, Some(true), Some(1000.));
            let v = closed_loop(
                &sp,
                move |s| place(s, &geo::rot(&[1., 0., 0.], std::f64::consts::PI), [0.3, 0.1, 0.2]),
                move |k, s| {
                    let mut o = still(s);
                    for (off, l) in [(0, TRANS), (3, ROT)] {
                        let v = v3(&s.O_dP_EE_c[off..]);
                        let req = if k < warm {
                            scale(&a, 3. * l.v)
                        } else {
                            let sp = dot(&v, &v);
                            // the part of b perpendicular to the velocity
                            let p = if sp > 0. { axpy(&b, -dot(&b, &v) / sp, &v) } else { b };
                            match how {
                                0 => axpy(&v, m, &p),
                                1 => axpy(&v, m, &b),
                                2 => scale(&axpy(&v, m, &p), 1.001),
                                _ => {
                                    let p2 = [v[1] * p[2] - v[2] * p[1], v[2] * p[0] - v[0] * p[2], v[0] * p[1] - v[1] * p[0]];
                                    axpy(&v, m, if k % 2 == 0 { &p } else { &p2 })
                                }
                            }
                        };
                        o.vel[off..off + 3].copy_from_slice(&req);
                    }
                    for x in o.vel[3..].iter_mut() {
                        *x = x.clamp(-1e3, 1e3);
                    }
                    let w = [o.vel[3] * DT, o.vel[4] * DT, o.vel[5] * DT];
                    let rot = geo::mul(&geo::rot(&w, norm(&w)), &geo::rot_of(&s.O_T_EE_c));
                    let l = s.O_T_EE_c;
                    o.pose = geo::pose(&rot, &[l[12] + o.vel[0] * DT, l[13] + o.vel[1] * DT, l[14] + o.vel[2] * DT]);
                    o
                },
            )?;
            for s in &v {
                cart_bounds(&sp, s)?;
                cart_step(&sp, s, 2e-6, false)?;
            }
            Ok(Dig::new().u(kind as u64).u(how as u64).0)
        }),
    ]
}
/// Published speed and acceleration bounds.
fn cart_bounds(sp: &Spec, s: &Step) -> R<()> {
    let c = cart(sp, s);
    for (o, l) in [(0, TRANS), (3, ROT)] {
        let (v, lv) = (v3(&c.v[o..]), v3(&c.lv[o..]));
        let a = norm(&sub(&v, &lv)) / DT;
        checked(1);
        ensure(norm(&v) <= l.v && a <= l.a, || {
            format!("{} {}: speed {:?}, acceleration {a:?} exceed the limit (last {lv:?}, acceleration {:?}, commanded {v:?})", NAMES[sp.kind], if o == 0 { "translation" } else { "rotation" }, norm(&v), &c.la[o..o + 3])
        })?;
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", spaces: c11, assumptions: super::ASSUMPTIONS },
        Prop { id: "C12", spaces: c12, assumptions: super::ASSUMPTIONS },
    ]
}
