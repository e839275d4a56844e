//! C13 torque rate, C14 bit-exact transmission, C15 command filter.
use super::ctl::*;
use super::rig::*;
use super::util::*;
use super::Prop;
use crate::explore::{checked, guarded, pick, space, Dig, Space};
use crate::geo;
use crate::wire::{st, Cmd, State};
use crate::Tier;
use franka::robot::low_pass_filter::{cartesian_low_pass_filter, low_pass_filter};

const SPECIAL: [f64; 18] = [
    0., -0., 1., -1., f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1. / 3., 1e-300, 1e300, 3.141592653589793, -2.5,
    0.1, 123456789.123456789, 1.0000000000000002,
];
pub fn orientations() -> Vec<geo::M3> {
    let mut v = vec![];
    for ax in [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 1., 0.], [1., 0., -1.], [1., 1., 1.], [0.2, -0.7, 0.4]] {
        for an in [0., 1e-8, 1e-4, 0.3, 1.2, std::f64::consts::FRAC_PI_2, 2.5, std::f64::consts::PI - 1e-6, std::f64::consts::PI, -1.1] {
            v.push(geo::rot(&ax, an));
        }
    }
    v
}
/// The 24 rotations of the cube, exactly.
pub fn cube() -> Vec<geo::M3> {
    let mut v = vec![];
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for s in 0..8 {
            let mut m = [[0.; 3]; 3];
            for i in 0..3 {
                m[i][p[i]] = if s >> i & 1 == 0 { 1. } else { -1. };
            }
            let det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
            if det > 0. {
                v.push(m);
            }
        }
    }
    v
}
fn elems(sp: &Spec) -> usize {
    // writable scalars of a request: motion values, then torques
    let m = match (sp.kind, sp.mg()) {
        (8, _) => 0,
        (_, 1) | (_, 2) => 7,
        (_, 3) => 3,
        _ => 6,
    };
    m + if sp.torque() { 7 } else { 0 }
}
fn poke(sp: &Spec, o: &mut Out, e: usize, v: f64) {
    let m = elems(sp) - if sp.torque() { 7 } else { 0 };
    if e >= m {
        o.tau[e - m] = v;
    } else {
        match sp.mg() {
            1 => o.q[e] = v,
            2 => o.dq[e] = v,
            3 => o.pose[12 + e] = v,
            _ => o.vel[e] = v,
        }
    }
}
// ---------------------------------------------------------------------------------------- C14
const CUTS: [f64; 4] = [1000., 1000.0000001, 5000., f64::INFINITY];
fn c14(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space(
            "c14-values",
            0,
            "nine control calls x cutoff at or above the maximum x robot states: every scalar of the request x 18 special values, every special value in all scalars",
            move || {
                let kind = pick(KINDS);
                let cut = CUTS[pick(CUTS.len())];
                let seed = pick(if full { 8 } else { 2 });
                let e = elems(&Spec::new(kind, 1));
                let n = SPECIAL.len() * (e + 1);
                let mut sp = spec(kind, n, Some(false), Some(cut));
                sp.elbow = seed % 2 == 1;
                let sp2 = sp.clone();
                let v = open_loop(
                    &sp,
                    move |k, s| paint(s, k + seed),
                    move |k, _| {
                        let mut o = distinct(k % 50);
                        let x = SPECIAL[k % SPECIAL.len()];
                        let w = k / SPECIAL.len();
                        for i in 0..e {
                            if i == w || w == e {
                                poke(&sp2, &mut o, i, x);
                            }
                        }
                        o
                    },
                    true,
                )?;
                Ok(Dig::new().u(v.len() as u64).u(kind as u64).0)
            },
        ),
        space("c14-poses", 0, "pose calls x all cube rotations and 70 orientations, exact and with 1e-6 deviations from orthonormality, three translations", move || {
            let kind = [2, 6][pick(2)];
            let cut = CUTS[pick(CUTS.len())];
            let dv = [0., 1e-6, -3e-6][pick(3)];
            let mut rs = cube();
            rs.extend(orientations());
            let n = rs.len() * 3;
            let sp = spec(kind, n, Some(false), Some(cut));
            let v = open_loop(
                &sp,
                |k, s| paint(s, k),
                move |k, _| {
                    let mut o = distinct(k);
                    let mut m = rs[k / 3];
                    m[k % 3][(k + 1) % 3] += dv;
                    o.pose = geo::pose(&m, &[[0., 0., 0.], [1e9, -1e-9, 3.], [-0.1, 0.2, 0.3]][k % 3]);
                    o
                },
                true,
            )?;
            Ok(Dig::new().u(v.len() as u64).0)
        }),
        space("c14-elbow", 0, "Cartesian calls x every elbow sequence over none/positive/negative/extreme of four cycles x completing callback", move || {
            let kind = [2, 3, 6, 7][pick(4)];
            let seq: Vec<usize> = (0..4).map(|_| pick(4)).collect();
            let mut sp = spec(kind, 4, Some(false), Some(1000.));
            if kind >= 6 {
                sp.finisher = 1 + pick(2);
            }
            if sp.finisher == 2 {
                sp.finisher = 1;
                sp.mode = 1;
            }
            let v = open_loop(
                &sp,
                |k, s| paint(s, k),
                move |k, _| {
                    let mut o = distinct(k);
                    o.elbow = [None, Some([0.1 * k as f64, 1.]), Some([-1.5, -1.]), Some([1e300, -1.])][seq[k]];
                    o
                },
                true,
            )?;
            Ok(Dig::new().u(v.len() as u64).0)
        }),
        space("c14-defaults", 0, "nine control calls x omitted limiting and/or filter arguments, compared with explicit arguments on requests that show limiting and filtering", move || {
            let kind = pick(KINDS);
            let which = pick(4);
            let seed = pick(if full { 6 } else { 2 });
            let go = |l: Option<bool>, c: Option<f64>| -> R<Vec<Cmd>> {
                let sp = spec(kind, 8, l, c);
                let v = open_loop(
                    &sp,
                    move |k, s| {
                        // a robot at rest in a known place
                        let (mg, cm, rm) = (s.mg(), s.cm(), s.rm());
                        let m = s.msg();
                        *s = State::new();
                        s.set_msg(m);
                        s.set_modes(mg, cm, rm);
                        s.set(st::q_d, &[0.1 * seed as f64; 7]);
                        s.set(st::elbow_c, &[0.2, 1.]);
                        let _ = k;
                    },
                    move |k, _| {
                        // first half: within reach; second half: out of reach
                        let x = if k < 4 { 1e-10 } else { 10. } * (1. + k as f64);
                        let mut o = Out::default();
                        o.q = [0.1 * seed as f64 + x; 7];
                        o.dq = [if k < 4 { 1e-3 } else { 10. }; 7];
                        o.tau = [if k < 4 { 0.3 } else { 50. }; 7];
                        o.vel = [if k < 4 { 1e-3 } else { 10. }; 6];
                        o.pose[12] += x;
                        o.elbow = Some([0.2 + x, 1.]);
                        o
                    },
                    false,
                )?;
                Ok(v.into_iter().map(|s| s.cmd).collect())
            };
            let same = |a: &[Cmd], b: &[Cmd]| a.iter().zip(b).all(|(x, y)| same_cmd(x, y).is_ok());
            let (d, e) = match which {
                0 => ((None, None), (true, 100.)),
                1 => ((Some(false), None), (false, 100.)),
                2 => ((None, Some(1000.)), (true, 1000.)),
                _ => ((None, Some(10.)), (true, 10.)),
            };
            let got = go(d.0, d.1)?;
            let want = go(Some(e.0), Some(e.1))?;
            ensure(same(&got, &want), || format!("{} with {d:?} does not behave as with explicit {e:?}", NAMES[kind]))?;
            // the explicit settings are distinguishable
            for (l, c) in [(!e.0, e.1), (e.0, if e.1 == 1000. { 100. } else { 1000. }), (e.0, 50.)] {
                let other = go(Some(l), Some(c))?;
                ensure(!same(&got, &other), || format!("{}: settings {d:?} give the same commands as {:?}", NAMES[kind], (l, c)))?;
            }
            checked(4);
            Ok(Dig::new().u(kind as u64).u(which as u64).0)
        }),
    ]
}
// ---------------------------------------------------------------------------------------- C15
const FCS: [f64; 11] = [0.001, 1., 10., 100., 500., 999., 999.999, 999.9999999999, 1000., 1000.001, 2000.];
/// In control loops the filter is off at or above the maximum.
fn loop_gain(fc: f64) -> f64 {
    if fc >= 1000. {
        1.
    } else {
        gain(1e-3, fc)
    }
}
fn gain(dt: f64, fc: f64) -> f64 {
    dt / (dt + 1. / (2. * std::f64::consts::PI * fc))
}
fn scalar(name: &str, got: f64, req: f64, last: f64, g: f64) -> R<()> {
    let want = g * req + (1. - g) * last;
    let tol = 4e-15 * req.abs().max(last.abs()) + 1e-300;
    checked(1);
    ensure((got - want).abs() <= tol, || format!("{name}: transmitted {got:?}, the filter gives {want:?} (request {req:?}, last {last:?})"))
}
fn filtered(sp: &Spec, s: &Step, g: f64) -> R<()> {
    let n = NAMES[sp.kind];
    if sp.kind != 8 {
        match sp.mg() {
            1 => {
                let l: [f64; 7] = s.st.arr(st::q_d);
                (0..7).try_for_each(|i| scalar(&format!("{n} joint {i}"), s.cmd.q[i], s.out.q[i], l[i], g))?;
            }
            2 => {
                let l: [f64; 7] = s.st.arr(st::dq_d);
                (0..7).try_for_each(|i| scalar(&format!("{n} joint {i}"), s.cmd.dq[i], s.out.dq[i], l[i], g))?;
            }
            3 => {
                let l: [f64; 16] = s.st.arr(st::O_T_EE_c);
                pose_filtered(n, &s.cmd.pose, &s.out.pose, &l, g)?;
            }
            _ => {
                let l: [f64; 6] = s.st.arr(st::O_dP_EE_c);
                (0..6).try_for_each(|i| scalar(&format!("{n} component {i}"), s.cmd.vel[i], s.out.vel[i], l[i], g))?;
            }
        }
        if sp.mg() >= 3 {
            ensure(s.cmd.valid_elbow == s.out.elbow.is_some(), || format!("{n}: elbow validity {}", s.cmd.valid_elbow))?;
            if let Some(e) = s.out.elbow {
                let l: [f64; 2] = s.st.arr(st::elbow_c);
                scalar(&format!("{n} elbow"), s.cmd.elbow[0], e[0], l[0], g)?;
                ensure(s.cmd.elbow[1] == e[1], || format!("{n}: elbow sign {}", s.cmd.elbow[1]))?;
            }
        }
    }
    if sp.torque() {
        let l: [f64; 7] = s.st.arr(st::tau_J_d);
        (0..7).try_for_each(|i| scalar(&format!("{n} torque {i}"), s.cmd.tau[i], s.tau[i], l[i], g))?;
    }
    // nothing else
    let z = sp.image(&Out::default(), None);
    let mut c = s.cmd.clone();
    match sp.mg() {
        // a pure torque call commands zero velocity, which is filtered like any other
        _ if sp.kind == 8 => c.dq = z.dq,
        1 => c.q = z.q,
        2 => c.dq = z.dq,
        3 => c.pose = z.pose,
        _ => c.vel = z.vel,
    }
    c.tau = [0.; 7];
    c.elbow = [0.; 2];
    c.valid_elbow = z.valid_elbow;
    same_cmd(&c, &z)
}
/// Rotation part: on the shortest arc from `last` to the request, at the fraction `g`.
fn pose_filtered(n: &str, got: &[f64; 16], req: &[f64; 16], last: &[f64; 16], g: f64) -> R<()> {
    for i in 12..15 {
        scalar(&format!("{n} translation {}", i - 12), got[i], req[i], last[i], g)?;
    }
    for (i, w) in [(3, 0.), (7, 0.), (11, 0.), (15, 1.)] {
        ensure(got[i] == w, || format!("{n}: element {i} of the filtered pose is {}", got[i]))?;
    }
    let (a, b, o) = (geo::rot_of(last), geo::rot_of(req), geo::rot_of(got));
    let e = geo::mul(&o, &geo::tr(&o));
    let id = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    for i in 0..3 {
        ensure(geo::maxdiff(&e[i], &id[i]) < 1e-6, || format!("{n}: the filtered rotation is not orthonormal: {o:?}"))?;
    }
    let th = geo::angle(&a, &b);
    let (x, y) = (geo::angle(&a, &o), geo::angle(&o, &b));
    checked(3);
    ensure((x - g * th).abs() < 1e-6 && (y - (1. - g) * th).abs() < 1e-6, || {
        format!("{n}: the filtered orientation is {x:.9} from the last and {y:.9} from the requested one, which are {th:.9} apart (gain {g:.9}); last {a:?} request {b:?} got {o:?}")
    })
}
/// Neither sample time nor cutoff so extreme that equivalent formulas for the gain overflow or underflow.
fn plain(dt: f64, fc: f64) -> bool {
    [dt, fc, dt * fc].iter().all(|x| (1e-200..1e200).contains(x))
}
fn bad_args(t: Tier) -> R<u64> {
    let fcs = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1., -1e-300, 0., -0., 5e-324, 1e-3, 100., 1e3, 1e300];
    let dts = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-3, -5e-324, 1e-300, 1e-9, 1e-3, 0.04, 1., 1e300];
    let ys = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1., 0., 1e-300, 1e100, 0.5];
    let (fc, dt) = (fcs[pick(fcs.len())], dts[pick(dts.len())]);
    let ok = fc > 0. && fc.is_finite() && dt >= 0. && dt.is_finite();
    let mut k = 0;
    for y in ys {
        for l in ys {
            let valid = ok && y.is_finite() && l.is_finite();
            let r = guarded(|| low_pass_filter(dt, y, l, fc));
            ensure(r.is_ok() == valid, || format!("low_pass_filter({dt:?}, {y:?}, {l:?}, {fc:?}) gave {r:?}"))?;
            if let (true, Ok(v)) = (valid, r) {
                let g = gain(dt, fc);
                if g.is_finite() && plain(dt, fc) {
                    let w = g * y + (1. - g) * l;
                    ensure((v - w).abs() <= 1e-14 * y.abs().max(l.abs()), || format!("low_pass_filter({dt:?}, {y:?}, {l:?}, {fc:?}) = {v:?}, expected {w:?}"))?;
                }
            }
            checked(1);
            k += 1;
        }
    }
    // one bad element anywhere in either pose
    let base = geo::pose(&geo::rot(&[1., 2., 3.], 0.7), &[0.1, 0.2, 0.3]);
    let bases = if t == Tier::Thorough { vec![base, crate::wire::IDENTITY] } else { vec![base] };
    for b in bases {
        for e in 0..33 {
            for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                let (mut y, mut l) = (b, crate::wire::IDENTITY);
                if e < 16 {
                    y[e] = x;
                } else if e < 32 {
                    l[e - 16] = x;
                }
                let valid = ok && e == 32;
                let r = guarded(|| cartesian_low_pass_filter(dt, &y, &l, fc));
                ensure(r.is_ok() == valid, || format!("cartesian_low_pass_filter with sample time {dt:?}, cutoff {fc:?} and {x:?} in element {e} gave {r:?}"))?;
                if let (true, Ok(v)) = (valid, r) {
                    let g = gain(dt, fc);
                    if g.is_finite() && plain(dt, fc) {
                        pose_filtered("cartesian_low_pass_filter", &v, &y, &l, g)?;
                    }
                }
                checked(1);
                k += 1;
            }
        }
    }
    crate::explore::count(k);
    Ok(k)
}
fn c15(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c15-scalars", 0, "nine control calls x eight cutoff frequencies below the maximum x states and requests of different magnitudes and signs, all fields distinct", move || {
            let kind = pick(KINDS);
            let fc = FCS[pick(FCS.len())];
            let mags = [1., 1e-9, -3., 1e6, 1e100, -1e-100, 0.];
            let n = mags.len() * mags.len() * if full { 8 } else { 2 };
            let mut sp = spec(kind, n, Some(false), Some(fc));
            sp.elbow = false;
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    let m = mags[k % mags.len()];
                    for f in [st::q_d, st::dq_d, st::O_dP_EE_c, st::tau_J_d] {
                        let x: Vec<f64> = s.get(f).iter().map(|x| x * m).collect();
                        s.set(f, &x);
                    }
                    let e: [f64; 2] = s.arr(st::elbow_c);
                    s.set(st::elbow_c, &[e[0] * m, e[1]]);
                    let mut p: [f64; 16] = s.arr(st::O_T_EE_c);
                    for i in 12..15 {
                        p[i] *= m;
                    }
                    s.set(st::O_T_EE_c, &p);
                },
                move |k, _| {
                    let m = mags[k / mags.len() % mags.len()];
                    let mut o = distinct(k % 40);
                    for x in o.q.iter_mut().chain(&mut o.dq).chain(&mut o.tau).chain(&mut o.vel).chain(&mut o.pose[12..15]) {
                        *x *= m;
                    }
                    if k % 3 > 0 {
                        o.elbow = Some([0.7 * m, if k % 3 == 1 { 1. } else { -1. }]);
                    }
                    o
                },
                false,
            )?;
            let g = loop_gain(fc);
            v.iter().try_for_each(|s| filtered(&sp, s, g))?;
            Ok(Dig::new().u(kind as u64).u(fc.to_bits()).0)
        }),
        space("c15-orientations", 0, "pose calls x cutoff x every ordered pair of 94 orientations (cube rotations and axis/angle alphabet incl. half turns)", move || {
            let kind = [2, 6][pick(2)];
            let fc = if full { FCS[pick(FCS.len())] } else { [1., 100., 500.][pick(3)] };
            let mut rs = cube();
            rs.extend(orientations());
            let a = rs[pick(rs.len())];
            let n = rs.len();
            let sp = spec(kind, n, Some(false), Some(fc));
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    s.set(st::O_T_EE_c, &geo::pose(&a, &[0.3, 0.1 * k as f64, -0.4]));
                },
                move |k, _| {
                    let mut o = distinct(k);
                    o.pose = geo::pose(&rs[k], &[-0.3, 0.02 * k as f64, 0.5]);
                    o
                },
                false,
            )?;
            let g = loop_gain(fc);
            v.iter().try_for_each(|s| filtered(&sp, s, g))?;
            Ok(Dig::new().u(kind as u64).u(fc.to_bits()).0)
        }),
        space("c15-loop", 0, "nine control calls, robot tracking the filtered commands for 60 cycles with step, alternating and ramp requests", move || {
            let kind = pick(KINDS);
            let fc = FCS[pick(FCS.len())];
            let pat = pick(3);
            let sp = spec(kind, if full { 400 } else { 60 }, Some(false), Some(fc));
            let v = closed_loop(
                &sp,
                |s| {
                    s.set(st::q_d, &[0.1, -0.2, 0.3, -1.5, 0.5, 1.6, 0.7]);
                    s.set(st::elbow_c, &[0.3, -1.]);
                },
                move |k, _| {
                    let x = match pat {
                        0 => 1.,
                        1 => (k % 2) as f64 * 2. - 1.,
                        _ => k as f64 * 0.01,
                    };
                    let mut o = Out::default();
                    for i in 0..7 {
                        o.q[i] = x * (i + 1) as f64;
                        o.dq[i] = -x * (i + 1) as f64;
                        o.tau[i] = 10. * x + i as f64;
                    }
                    o.vel = [x, -x, 0.5 * x, 0.1, x, 0.];
                    o.pose = geo::pose(&geo::rot(&[1., -1., 0.5], x), &[x, 0., -x]);
                    o.elbow = Some([x, -1.]);
                    o
                },
            )?;
            let g = loop_gain(fc);
            v.iter().try_for_each(|s| filtered(&sp, s, g))?;
            Ok(Dig::new().u(kind as u64).u(fc.to_bits()).0)
        }),
        space("c15-arguments", 0, "public filter functions x sample times x cutoff frequencies x signals incl. all invalid classes, every pose element", move || bad_args(t)),
    ]
}
// ---------------------------------------------------------------------------------------- C13
const OFFS: [f64; 21] = [
    0., 0.5, -0.5, 0.99, -0.99, 0.9979, -0.9979, 1., -1., 1.0001, -1.0001, 1.5, -1.5, 10., -10., 1e6, -1e6, 1e100, -1e100, 1e-9, -0.25,
];
/// `req`: the torque after the filter.
fn torque_ok(n: &str, j: usize, got: f64, req: f64, last: f64) -> R<()> {
    let d = req - last;
    let tol = 1e-12 * (1. + last.abs());
    checked(1);
    let say = |w: &str| format!("{n} joint {j}: {w}: last {last:?}, requested {req:?}, transmitted {got:?}");
    ensure((got - last).abs() <= 1. + tol, || say("torque step above the published rate"))?;
    if d.abs() <= 0.998 {
        ensure((got - req).abs() <= tol, || say("a reachable torque was altered"))
    } else if d.abs() >= 1. {
        ensure((got - last) * d.signum() >= 0.998, || say("the torque does not move towards the request as fast as allowed"))
    } else {
        ensure((got - last) * d.signum() >= 0.998 - tol && (got - last) * d.signum() <= d.abs() + tol, || say("the torque does not approach the request"))
    }
}
fn torques(sp: &Spec, s: &Step, fc: f64) -> R<()> {
    let l: [f64; 7] = s.st.arr(st::tau_J_d);
    for i in 0..7 {
        let req = if fc < 1000. {
            let g = loop_gain(fc);
            g * s.tau[i] + (1. - g) * l[i]
        } else {
            s.tau[i]
        };
        torque_ok(NAMES[sp.kind], i, s.cmd.tau[i], req, l[i])?;
    }
    Ok(())
}
fn c13(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c13-steps", 0, "five torque calls x joint x last torque x 21 requested differences, other joints at rest or out of reach, with and without filter", move || {
            let kind = 4 + pick(5);
            let j = pick(7);
            let fc = [1000., 5000., 999., 100., 1.][pick(5)];
            let lasts = [0., 1., -87., 86.5, 1e-3, -12., 1e3];
            let n = OFFS.len() * lasts.len() * 3;
            let sp = spec(kind, n, Some(true), Some(fc));
            let v = open_loop(
                &sp,
                move |k, s| {
                    paint(s, k);
                    quiet(s);
                    let mut tau = [0.; 7];
                    for i in 0..7 {
                        tau[i] = lasts[(k / OFFS.len() + i) % lasts.len()];
                    }
                    s.set(st::tau_J_d, &tau);
                },
                move |k, stt| {
                    let mut o = still(stt);
                    let rest = [0., 3., -1e100][k / OFFS.len() / lasts.len()];
                    for i in 0..7 {
                        o.tau[i] = stt.tau_J_d[i] + if i == j { OFFS[k % OFFS.len()] } else { rest };
                    }
                    o
                },
                false,
            )?;
            v.iter().try_for_each(|s| torques(&sp, s, fc))?;
            Ok(Dig::new().u(kind as u64).u(j as u64).0)
        }),
        space("c13-sequences", 0, "five torque calls, robot tracking the commands: every sequence of seven requests per joint over four cycles", move || {
            let kind = 4 + pick(5);
            let reqs = [0., 0.6, -0.6, 2.5, -2.5, 1e6, -40.];
            let seq: Vec<usize> = (0..if full { 5 } else { 4 }).map(|_| pick(reqs.len())).collect();
            let fc = [1000., 100.][pick(2)];
            let sp = spec(kind, seq.len(), Some(true), Some(fc));
            let v = closed_loop(
                &sp,
                |_| {},
                move |k, stt| {
                    let mut o = still(stt);
                    for i in 0..7 {
                        o.tau[i] = reqs[(seq[k] + i) % reqs.len()];
                    }
                    o
                },
            )?;
            v.iter().try_for_each(|s| torques(&sp, s, fc))?;
            // the robot really tracks: consecutive commands differ by at most the bound
            for w in v.windows(2) {
                for i in 0..7 {
                    ensure((w[1].cmd.tau[i] - w[0].cmd.tau[i]).abs() <= 1. + 1e-9, || format!("{}: consecutive torques of joint {i} differ by more than the bound", NAMES[kind]))?;
                }
            }
            Ok(Dig::new().u(kind as u64).0)
        }),
        space("c13-off", 0, "five torque calls without limiting x joint x differences: torques not altered", move || {
            let kind = 4 + pick(5);
            let j = pick(7);
            let sp = spec(kind, OFFS.len() * 2, Some(false), Some(1000.));
            open_loop(
                &sp,
                |k, s| paint(s, k),
                move |k, stt| {
                    let mut o = distinct(k);
                    o.pose = stt.O_T_EE_c;
                    o.tau = stt.tau_J_d;
                    o.tau[j] += OFFS[k / 2];
                    o
                },
                true,
            )?;
            Ok(Dig::new().u(kind as u64).u(j as u64).0)
        }),
    ]
}
/// Motion fields of a robot at rest (the motion half of a torque call must not matter).
fn quiet(s: &mut State) {
    for f in [st::dq_d, st::ddq_d, st::O_dP_EE_c, st::O_ddP_EE_c, st::delbow_c, st::ddelbow_c] {
        let z = vec![0.; f.n];
        s.set(f, &z);
    }
}
/// A request to stay where the robot is.
pub fn still(s: &franka::RobotState) -> Out {
    Out { q: s.q_d, dq: s.dq_d, pose: s.O_T_EE_c, vel: s.O_dP_EE_c, elbow: None, tau: s.tau_J_d }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C13", spaces: c13, assumptions: super::ASSUMPTIONS },
        Prop { id: "C14", spaces: c14, assumptions: super::ASSUMPTIONS },
        Prop { id: "C15", spaces: c15, assumptions: super::ASSUMPTIONS },
    ]
}
