//! C10: nothing invalid is ever transmitted.
use super::ctl::*;
use super::rig::{paint, spec};
use super::shape::{cube, still};
use super::util::*;
use super::Prop;
use crate::explore::{checked, pick, space, Dig, Space};
use crate::geo;
use crate::sim::Ev;
use crate::wire::{st, Cmd, State, F};
use crate::Tier;
use std::cell::Cell;
use std::rc::Rc;

fn valid(sp: &Spec, c: &Cmd) -> R<()> {
    let n = NAMES[sp.kind];
    let fin = |w: &str, v: &[f64]| ensure(v.iter().all(|x| x.is_finite()), || format!("{n}: transmitted {w} {v:?}"));
    fin("joint positions", &c.q)?;
    fin("joint velocities", &c.dq)?;
    fin("pose", &c.pose)?;
    fin("Cartesian velocity", &c.vel)?;
    fin("elbow", &c.elbow)?;
    fin("torques", &c.tau)?;
    if sp.mg() == 3 {
        let p = &c.pose;
        let bad = || format!("{n}: transmitted a pose that is not a homogeneous transformation: {p:?}");
        ensure(p[3] == 0. && p[7] == 0. && p[11] == 0. && p[15] == 1., bad)?;
        for i in 0..3 {
            let col = geo::norm(&p[4 * i..4 * i + 3]);
            let row = geo::norm(&[p[i], p[4 + i], p[8 + i]]);
            ensure((col - 1.).abs() < 1.001e-5 && (row - 1.).abs() < 1.001e-5, bad)?;
        }
    }
    if c.valid_elbow {
        ensure(c.elbow[1].abs() == 1., || format!("{n}: transmitted elbow sign {}", c.elbow[1]))?;
    }
    checked(8);
    Ok(())
}
/// Runs `sp`; the request of cycle `at` (0-based) is spoilt.  Returns (panicked, number of commands).
fn spoilt(
    sp: &Spec,
    at: usize,
    spoil_state: impl Fn(&mut State) + 'static,
    spoil: impl Fn(&mut Out) + 'static,
    open: bool,
) -> R<(Res, usize, usize)> {
    let mut sim = robot_sim();
    sim.track = !open;
    let started = Rc::new(Cell::new(false));
    let k = Rc::new(Cell::new(0usize));
    let (s2, k2) = (started.clone(), k.clone());
    if open {
        sim.hook = Some(Box::new(move |s, v| {
            if v.motion.is_some() {
                if s2.get() {
                    k2.set(k2.get() + 1);
                }
                paint(s, k2.get());
                for f in [st::dq_d, st::ddq_d, st::O_dP_EE_c, st::O_ddP_EE_c, st::delbow_c, st::ddelbow_c] {
                    s.set(f, &vec![0.; f.n]);
                }
                if k2.get() == at {
                    spoil_state(s);
                }
            }
        }));
    }
    let s = sim.install();
    let mut r = connect(&s)?;
    let (e0, r0) = (s.borrow().ev.len(), s.borrow().reqs.len());
    let log = new_log();
    let el = sp.elbow;
    let g = gen(move |c, stt| {
        started.set(true);
        let mut o = still(stt);
        if c != at || !open {
            if el {
                o.elbow = Some([stt.elbow_c[0], 1.]);
            }
        } else if el {
            o.elbow = Some([0.1, 1.]);
        }
        if open {
            // the state itself may be spoilt: request something valid of our own
            o.q = [0.1; 7];
            o.dq = [0.01; 7];
            o.vel = [0.01; 6];
            o.tau = [0.1; 7];
            o.pose = geo::pose(&geo::rot(&[1., 2., 3.], 0.3), &[0.1, 0.2, 0.3]);
        }
        if c == at {
            spoil(&mut o);
        }
        o
    });
    let rs = res(&run(&mut r, &s, sp, &g, &log));
    let n = {
        let sm = s.borrow();
        let mut n = 0;
        for e in &sm.ev[e0..] {
            if let Ev::Cmd(c) = e {
                n += 1;
                valid(sp, c)?;
            }
            if let Ev::BadCmd(l) = e {
                return Err(format!("{}: a malformed command datagram of {l} bytes", NAMES[sp.kind]));
            }
        }
        if rs == Res::Ok {
            check_trace(&sm, e0, r0, sp, &log.borrow(), End::Success, false)?;
        }
        n
    };
    let cb = log.borrow().motion.len().max(log.borrow().torque.len());
    Ok((rs, n, cb))
}
const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
const CUTS: [f64; 4] = [1000., 100., f64::INFINITY, 1.];
fn must_panic(sp: &Spec, at: usize, what: &str, r: (Res, usize, usize)) -> R<()> {
    checked(2);
    ensure(matches!(r.0, Res::Panic(_)), || format!("{} with limiting {:?}, cutoff {:?}: {what} in cycle {at} did not end the call with a panic but {:?}", NAMES[sp.kind], sp.limit, sp.cutoff, r.0))?;
    ensure(r.1 == at, || format!("{}: {what} in cycle {at}: {} commands were sent", NAMES[sp.kind], r.1))
}
fn scalars(sp: &Spec) -> usize {
    let m = match (sp.kind, sp.mg()) {
        (8, _) => 0,
        (_, 1) | (_, 2) => 7,
        (_, 3) => 16 + 2,
        _ => 6 + 2,
    };
    m + if sp.torque() { 7 } else { 0 }
}
fn poke(sp: &Spec, o: &mut Out, e: usize, v: f64) {
    let m = scalars(sp) - if sp.torque() { 7 } else { 0 };
    if e >= m {
        o.tau[e - m] = v;
        return;
    }
    match sp.mg() {
        1 => o.q[e] = v,
        2 => o.dq[e] = v,
        g => {
            let n = if g == 3 { 16 } else { 6 };
            if e >= n {
                let mut x = o.elbow.unwrap_or([0.1, 1.]);
                x[e - n] = v;
                o.elbow = Some(x);
            } else if g == 3 {
                o.pose[e] = v;
            } else {
                o.vel[e] = v;
            }
        }
    }
}
/// Whether the matrix is invalid; None at the edge of the tolerance.
fn spoilt_pose(x: &[f64; 16]) -> Option<bool> {
    if x[3] != 0. || x[7] != 0. || x[11] != 0. || x[15] != 1. {
        return Some(true);
    }
    let off = (0..3).map(|i| (geo::norm(&x[4 * i..4 * i + 3]) - 1.).abs().max((geo::norm(&[x[i], x[4 + i], x[8 + i]]) - 1.).abs())).fold(0., f64::max);
    if off > 1.001e-5 || !off.is_finite() {
        Some(true)
    } else if off < 0.999e-5 {
        Some(false)
    } else {
        None
    }
}
/// (name, matrix, whether it is invalid)
fn poses() -> Vec<(String, [f64; 16], bool)> {
    let mut v = vec![];
    let t = [0.1, 0.2, 0.3];
    let bases = [geo::rot(&[1., 0., 0.], 0.), geo::rot(&[1., 0., 0.], std::f64::consts::PI), geo::rot(&[1., 2., 3.], 0.7), cube()[7]];
    for (b, m) in bases.iter().enumerate() {
        let p = geo::pose(m, &t);
        for e in 0..16 {
            if (12..15).contains(&e) {
                continue;
            }
            for d in [1e-12, 1e-9, -1e-7, 1e-6, -1e-6, 0.99e-5, -0.99e-5, 1.02e-5, -1.02e-5, 1.4e-5, -3e-5, 1e-3, -1e-3, 0.3, -0.9, 1e9] {
                let mut x = p;
                x[e] += d;
                if let Some(bad) = spoilt_pose(&x) {
                    v.push((format!("base {b} element {e} off by {d:e}"), x, bad));
                }
            }
        }
        for k in [0., 2., 0.5, 1.001, 0.999, 1e-5, 1e5, 1e200, 1. + 0.99e-5, 1. + 1.02e-5, 1. - 1.02e-5, 1. - 1.4e-5] {
            let mut x = p;
            for e in 0..12 {
                x[e] *= k;
            }
            v.extend(spoilt_pose(&x).map(|bad| (format!("base {b} scaled by {k}"), x, bad)));
            for c in 0..3 {
                let (mut x, mut y) = (p, p);
                for i in 0..3 {
                    x[4 * c + i] *= k;
                    y[4 * i + c] *= k;
                }
                v.extend(spoilt_pose(&x).map(|bad| (format!("base {b} column {c} scaled by {k}"), x, bad)));
                v.extend(spoilt_pose(&y).map(|bad| (format!("base {b} row {c} scaled by {k}"), y, bad)));
            }
        }
    }
    // unit columns but other rows, unit rows but other columns: one axis leans towards, or equals, another
    for (b, p) in [crate::wire::IDENTITY, geo::pose(&geo::rot(&[1., 2., 3.], 0.7), &[0.1, 0.2, 0.3])].into_iter().enumerate() {
        for (i, j) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)] {
            for a in [0.01f64, 0.3, -0.8, std::f64::consts::FRAC_PI_2] {
                let (mut x, mut y) = (p, p);
                for k in 0..3 {
                    x[4 * i + k] = a.cos() * p[4 * i + k] + a.sin() * p[4 * j + k];
                    y[4 * k + i] = a.cos() * p[4 * k + i] + a.sin() * p[4 * k + j];
                }
                for (m, w) in [(x, "column"), (y, "row")] {
                    v.extend(spoilt_pose(&m).map(|bad| (format!("base {b} {w} {i} leaning to {j} by {a}"), m, bad)));
                }
            }
        }
    }
    // only one row, or only one column, is too long or too short, every other one just within the tolerance
    let p = geo::pose(&geo::rot(&[1., 2., 3.], 0.7), &[0.1, 0.2, 0.3]);
    for k in 0..3 {
        for sg in [1., -1.] {
            for big in [0.9e-5, 1.1e-5, 2.6e-5] {
                for column in [false, true] {
                    let one: Vec<f64> = (0..3).map(|i| if i == k { sg * big } else { -sg * 0.9e-5 }).collect();
                    let mut x = p;
                    for c in 0..3 {
                        for r in 0..3 {
                            // first-order contribution of this element to the length of its row and of its column
                            let w = one[if column { c } else { r }] / 3.;
                            x[4 * c + r] += w / p[4 * c + r];
                        }
                    }
                    v.extend(spoilt_pose(&x).map(|bad| (format!("only {} {k} off by {:e}", if column { "column" } else { "row" }, sg * big), x, bad)));
                }
            }
        }
    }
    v.push(("all zero".into(), [0.; 16], true));
    v.push(("all one".into(), [1.; 16], true));
    v.push(("all huge".into(), [1e300; 16], true));
    // transposed: the translation in the last row
    let mut x = crate::wire::IDENTITY;
    x[3] = 0.1;
    x[7] = 0.2;
    x[11] = 0.3;
    v.push(("row major".into(), x, true));
    v
}
fn c10(t: Tier) -> Vec<Space> {
    let full = t == Tier::Thorough;
    vec![
        space("c10-nonfinite", 0, "nine control calls x limiting x cutoff x every scalar of the request (motion, elbow, torque) x NaN and infinities x first, middle and completing cycle", move || {
            let kind = pick(KINDS);
            let lim = [Some(false), Some(true), None][pick(3)];
            let cut = [Some(CUTS[0]), Some(CUTS[1]), Some(CUTS[2]), None][pick(4)];
            let mut sp = spec(kind, 3, lim, cut);
            sp.elbow = sp.mg() >= 3 && kind != 8;
            let e = pick(scalars(&sp));
            let b = BAD[pick(3)];
            let at = pick(3);
            let sp2 = sp.clone();
            let r = spoilt(&sp, at, |_| {}, move |o| poke(&sp2, o, e, b), false)?;
            must_panic(&sp, at, &format!("{b} in element {e}"), r)?;
            Ok(Dig::new().u(kind as u64).u(e as u64).0)
        }),
        space("c10-poses", 0, "pose calls x limiting x cutoff x ~1300 matrices: every rotation and last-row element displaced, rows, columns and whole scaled, sheared ones with unit rows or unit columns only, degenerate ones", move || {
            let kind = [2, 6][pick(2)];
            let lim = pick(2) == 1;
            let cut = CUTS[pick(if full { 4 } else { 2 })];
            let all = poses();
            let (name, p, bad) = all[pick(all.len())].clone();
            let at = pick(if full { 3 } else { 2 });
            let sp = spec(kind, 3, Some(lim), Some(cut));
            let r = spoilt(&sp, at, |_| {}, move |o| o.pose = p, false)?;
            if !bad {
                ensure(r.0 == Res::Ok, || format!("{} (limiting {lim}, cutoff {cut}): a valid pose ({name}) gave {:?}", NAMES[kind], r.0))?;
            } else if !lim && cut >= 1000. {
                must_panic(&sp, at, &format!("invalid pose ({name})"), r)?;
            } else {
                // either refused, or what was sent instead is valid (checked in `spoilt`)
                ensure(r.0 == Res::Ok || (matches!(r.0, Res::Panic(_)) && r.1 == at), || format!("{}: invalid pose ({name}): {:?} after {} commands", NAMES[kind], r.0, r.1))?;
            }
            Ok(Dig::new().u(kind as u64).u(bad as u64).0)
        }),
        space("c10-elbow", 0, "Cartesian calls x limiting x cutoff x invalid and valid elbow signs x cycle", move || {
            let kind = [2, 3, 6, 7][pick(4)];
            let lim = [Some(false), Some(true), None][pick(3)];
            let cut = [Some(CUTS[0]), Some(CUTS[1]), Some(CUTS[2]), None][pick(4)];
            let signs = [0., -0., 2., -2., 0.999, -1.0000000001, 1e-300, 1e300, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1., -1.];
            let sg = signs[pick(signs.len())];
            let at = pick(3);
            let mut sp = spec(kind, 3, lim, cut);
            sp.elbow = pick(2) == 1;
            let el = sp.elbow;
            sp.elbow = false;
            let r = spoilt(&sp, at, |_| {}, move |o| o.elbow = Some([if el { 0.001 } else { 0. }, sg]), false)?;
            if sg.abs() == 1. {
                ensure(r.0 == Res::Ok, || format!("{}: elbow sign {sg} gave {:?}", NAMES[kind], r.0))?;
            } else {
                must_panic(&sp, at, &format!("elbow sign {sg}"), r)?;
            }
            Ok(Dig::new().u(kind as u64).u(sg.to_bits()).0)
        }),
        space("c10-states", 0, "nine control calls x limiting x filter x every last-commanded quantity of the state x NaN, infinities and huge values: nothing invalid is sent", move || {
            let kind = pick(KINDS);
            let lim = pick(2) == 1;
            let cut = CUTS[pick(2)];
            let fields: [F; 11] =
                [st::q_d, st::dq_d, st::ddq_d, st::O_T_EE_c, st::O_dP_EE_c, st::O_ddP_EE_c, st::elbow_c, st::delbow_c, st::ddelbow_c, st::tau_J_d, st::O_T_EE_d];
            let f = fields[pick(fields.len())];
            let i = pick(f.n);
            let b = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308][pick(5)];
            let at = pick(3);
            let mut sp = spec(kind, 3, Some(lim), Some(cut));
            sp.elbow = sp.mg() >= 3 && kind != 8;
            let r = spoilt(
                &sp,
                at,
                move |s| {
                    let mut v = s.get(f);
                    v[i] = b;
                    s.set(f, &v);
                },
                |_| {},
                true,
            )?;
            ensure(r.0 == Res::Ok || (matches!(r.0, Res::Panic(_)) && r.1 == at), || format!("{}: {b} in the state: {:?} after {} commands", NAMES[kind], r.0, r.1))?;
            if !lim && cut >= 1000. {
                ensure(r.0 == Res::Ok, || format!("{}: {b} in the state matters although neither filter nor limiter is on: {:?}", NAMES[kind], r.0))?;
            }
            Ok(Dig::new().u(kind as u64).u(f.off as u64).0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C10", spaces: c10, assumptions: super::ASSUMPTIONS }]
}
