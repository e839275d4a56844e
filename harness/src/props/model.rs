//! C18 model queries, C19 model download and loading.
use super::services::{val, Op};
use super::util::*;
use super::Prop;
use crate::explore::{checked, count, guarded, pick, space, Dig, Space};
use crate::fakemodel::{self, image, image_lax, CallRec};
use crate::sim::*;
use crate::wire::{cmd, robot_msg};
use crate::world;
use crate::Tier;
use franka::{Frame, Model, RobotState};

const FILE: &str = "/tmp/model.so";
const FRAMES: [Frame; 10] = [
    Frame::Joint1,
    Frame::Joint2,
    Frame::Joint3,
    Frame::Joint4,
    Frame::Joint5,
    Frame::Joint6,
    Frame::Joint7,
    Frame::Flange,
    Frame::EndEffector,
    Frame::Stiffness,
];
pub const SYMBOLS: [&str; 30] = [
    "M_NE", "Ji_J_J1", "Ji_J_J2", "Ji_J_J3", "Ji_J_J4", "Ji_J_J5", "Ji_J_J6", "Ji_J_J7", "Ji_J_J8", "Ji_J_J9", "O_J_J1", "O_J_J2",
    "O_J_J3", "O_J_J4", "O_J_J5", "O_J_J6", "O_J_J7", "O_J_J8", "O_J_J9", "O_T_J1", "O_T_J2", "O_T_J3", "O_T_J4", "O_T_J5", "O_T_J6",
    "O_T_J7", "O_T_J8", "O_T_J9", "c_NE", "g_NE",
];
/// Caller-side inputs of all queries; every quantity has its own values.
#[derive(Clone)]
struct In {
    q: [f64; 7],
    dq: [f64; 7],
    fte: [f64; 16],
    etk: [f64; 16],
    inertia: [f64; 9],
    m: f64,
    c: [f64; 3],
    g: [f64; 3],
}
fn arr<const N: usize>(p: usize, base: usize) -> [f64; N] {
    let mut a = [0.; N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = val(p, base + i);
    }
    a
}
fn transform(i: usize) -> [f64; 16] {
    crate::geo::pose(&crate::geo::rot(&[1., -0.3 * i as f64, 0.7], 0.4 + i as f64), &[0.1 + i as f64, -0.2, 0.3 * i as f64])
}
fn input(p: usize) -> In {
    let b = 200 * p;
    In {
        q: arr(p, b),
        dq: arr(p, b + 20),
        fte: transform(2 * p + 1),
        etk: transform(2 * p + 2),
        inertia: arr(p, b + 60),
        m: val(p, b + 80),
        c: arr(p, b + 90),
        g: arr(p, b + 100),
    }
}
/// A state in which every quantity a query could confuse has its own value.
fn state(i: &In, p: usize) -> RobotState {
    let mut s = RobotState::default();
    let b = 1000 + 500 * p;
    s.q = i.q;
    s.dq = i.dq;
    s.q_d = arr(0, b);
    s.dq_d = arr(0, b + 10);
    s.ddq_d = arr(0, b + 20);
    s.theta = arr(0, b + 30);
    s.dtheta = arr(0, b + 40);
    s.F_T_EE = i.fte;
    s.EE_T_K = i.etk;
    s.O_T_EE = transform(20 + p);
    s.O_T_EE_d = transform(30 + p);
    s.O_T_EE_c = transform(40 + p);
    s.F_T_NE = transform(50 + p);
    s.NE_T_EE = transform(60 + p);
    s.m_ee = val(0, b + 50);
    s.m_load = val(0, b + 51);
    s.m_total = i.m;
    s.I_ee = arr(0, b + 60);
    s.I_load = arr(0, b + 70);
    s.I_total = i.inertia;
    s.F_x_Cee = arr(0, b + 80);
    s.F_x_Cload = arr(0, b + 85);
    s.F_x_Ctotal = i.c;
    s.O_ddP_O = i.g;
    s
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// A query: 0..10 pose, 10..20 body Jacobian, 20..30 zero Jacobian, 30 mass, 31 coriolis, 32 gravity
/// (explicit), 33 gravity (default); +34 for the variants taking a state.
const QUERIES: usize = 68;
fn expected_name(k: usize) -> String {
    let k = k % 34;
    let f = |x: usize| if x >= 8 { 9 } else { x + 1 };
    match k {
        0..=9 => format!("O_T_J{}", f(k)),
        10..=19 => format!("Ji_J_J{}", f(k - 10)),
        20..=29 => format!("O_J_J{}", f(k - 20)),
        30 => "M_NE".into(),
        31 => "c_NE".into(),
        _ => "g_NE".into(),
    }
}
fn product(a: &[f64; 16], b: &[f64; 16]) -> [f64; 16] {
    let mut o = [0.; 16];
    for c in 0..4 {
        for r in 0..4 {
            o[c * 4 + r] = (0..4).map(|k| a[k * 4 + r] * b[c * 4 + k]).sum();
        }
    }
    o
}
fn ask(m: &Model, k: usize, i: &In, s: &RobotState, explicit_g: &[f64; 3]) -> Vec<f64> {
    let st = k >= 34;
    let j = k % 34;
    match (j, st) {
        (0..=9, false) => m.pose(&FRAMES[j], &i.q, &i.fte, &i.etk).to_vec(),
        (0..=9, true) => m.pose_from_state(&FRAMES[j], s).to_vec(),
        (10..=19, false) => m.body_jacobian(&FRAMES[j - 10], &i.q, &i.fte, &i.etk).to_vec(),
        (10..=19, true) => m.body_jacobian_from_state(&FRAMES[j - 10], s).to_vec(),
        (20..=29, false) => m.zero_jacobian(&FRAMES[j - 20], &i.q, &i.fte, &i.etk).to_vec(),
        (20..=29, true) => m.zero_jacobian_from_state(&FRAMES[j - 20], s).to_vec(),
        (30, false) => m.mass(&i.q, &i.inertia, i.m, &i.c).to_vec(),
        (30, true) => m.mass_from_state(s).to_vec(),
        (31, false) => m.coriolis(&i.q, &i.dq, &i.inertia, i.m, &i.c).to_vec(),
        (31, true) => m.coriolis_from_state(s).to_vec(),
        (32, false) => m.gravity(&i.q, i.m, &i.c, explicit_g).to_vec(),
        (32, true) => m.gravity_from_state(s, explicit_g).to_vec(),
        (_, false) => m.gravity(&i.q, i.m, &i.c, None).to_vec(),
        (_, true) => m.gravity_from_state(s, None).to_vec(),
    }
}
fn check_query(m: &Model, k: usize, p: usize) -> R<u64> {
    let i = input(p);
    check_input(m, k, &i, &state(&i, p), arr(p, 7000))
}
fn check_input(m: &Model, k: usize, i: &In, s: &RobotState, eg: [f64; 3]) -> R<u64> {
    fakemodel::take();
    let got = guarded(|| ask(m, k, i, s, &eg)).map_err(|e| format!("query {k} panicked: {e}"))?;
    let calls: Vec<CallRec> = fakemodel::take();
    let name = expected_name(k);
    let j = k % 34;
    let n = match j {
        0..=9 => 16,
        10..=29 => 42,
        30 => 49,
        _ => 7,
    };
    checked(1);
    count(1);
    let what = || format!("query {} of {}", name, if k >= 34 { "a state" } else { "given values" });
    let frame = j % 10;
    let args: Vec<Vec<u64>> = match j {
        10 | 20 => vec![],
        0..=29 if frame < 8 => vec![bits(&i.q)],
        0..=29 if frame == 8 => vec![bits(&i.q), bits(&i.fte)],
        0..=29 => {
            // stiffness frame: the product of the two transforms, up to rounding
            let want = product(&i.fte, &i.etk);
            let c = calls
                .iter()
                .find(|c| {
                    c.name == name
                        && c.args.len() == 2
                        && c.args[0] == bits(&i.q)
                        && c.args[1].iter().zip(&want).all(|(x, y)| (f64::from_bits(*x) - y).abs() < 1e-9)
                })
                .ok_or_else(|| format!("{}: {name} was not called with the joint positions and F_T_EE*EE_T_K", what()))?;
            c.args.clone()
        }
        30 => vec![bits(&i.q), bits(&i.inertia), bits(&[i.m]), bits(&i.c)],
        31 => vec![bits(&i.q), bits(&i.dq), bits(&i.inertia), bits(&[i.m]), bits(&i.c)],
        32 => vec![bits(&i.q), bits(&eg), bits(&[i.m]), bits(&i.c)],
        _ if k < 34 => vec![bits(&i.q), bits(&[0., 0., -9.81]), bits(&[i.m]), bits(&i.c)],
        _ => vec![bits(&i.q), bits(&i.g), bits(&[i.m]), bits(&i.c)],
    };
    let want = fakemodel::output(&name, &args, n);
    ensure(bits(&got) == bits(&want), || {
        format!("{} (frame {frame}): the result is not that of {name} for these arguments; library calls made: {:?}", what(), calls.iter().map(|c| c.name).collect::<Vec<_>>())
    })?;
    Ok(j as u64)
}
fn structured(n: usize) -> [f64; 16] {
    let rot = |ax: usize, a: f64| {
        let (s, c) = a.sin_cos();
        let mut m = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.];
        let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
        m[u * 4 + u] = c;
        m[u * 4 + v] = s;
        m[v * 4 + u] = -s;
        m[v * 4 + v] = c;
        m
    };
    let mut t = rot(0, 0.);
    match n {
        0 => t,
        1 => [0.; 16],
        2 => rot(2, 0.7),
        3 => rot(0, std::f64::consts::PI),
        4 => rot(1, 1e-5),
        5 => {
            t[14] = 0.1034;
            t
        }
        6 => {
            t[12] = -0.2;
            t[13] = 1e-5;
            t
        }
        7 => {
            t = rot(1, -1.1);
            t[12] = 0.3;
            t[13] = -0.4;
            t[14] = 0.5;
            t
        }
        _ => transform(3),
    }
}
fn open_model() -> R<Model> {
    world::with(|w| w.k.files.insert(FILE.into(), image(300)));
    match guarded(|| Model::new(FILE, None)) {
        Ok(Ok(m)) => Ok(m),
        o => Err(format!("loading a complete model library failed: {:?}", res(&o))),
    }
}
fn c18(_t: Tier) -> Vec<Space> {
    vec![
        space("c18-single", 0, "every query and variant x argument patterns (distinct, special values incl. NaN/infinities/signed zero, arbitrary bits, negative)", || {
            let k = pick(QUERIES);
            let p = pick(4);
            let m = open_model()?;
            let d = check_query(&m, k, p)?;
            drop(m);
            ensure(world::with(|w| w.k.dl_open_count == 0), || "libraries stay open after the model was dropped".into())?;
            Ok(d)
        }),
        space(
            "c18-sequences",
            0,
            "every sequence of queries up to the depth bound, with changing and with repeated arguments",
            move || {
                let n = 3;
                let m = open_model()?;
                let mut d = Dig::new();
                let same = pick(2) == 1;
                for i in 0..n {
                    let k = pick(QUERIES);
                    d.u(check_query(&m, k, if same { 0 } else { [0, 3, 0][i] })?);
                }
                Ok(d.0)
            },
        ),
        space("c18-structured", 0, "every query x degenerate and structured arguments: transforms (identity, zero, pure rotations, pure translations, small, half turn, both) for both frames, zero/equal/distinct joints, zero/tiny/negative masses, zero/diagonal/full inertia, zero and standard gravity", || {
            let k = pick(QUERIES);
            let mut i = input(0);
            i.q = [[0.; 7], [0.3; 7], i.q][pick(3)];
            if k % 34 < 30 {
                i.fte = structured(pick(9));
                i.etk = structured(pick(9));
            } else {
                i.dq = [[0.; 7], i.dq][pick(2)];
                i.inertia = [[0.; 9], [0.1, 0., 0., 0., 0.2, 0., 0., 0., 0.3], i.inertia][pick(3)];
                i.m = [0., -0., 1e-9, 0.7, -1.][pick(5)];
                i.c = [[0.; 3], i.c][pick(2)];
                i.g = [[0.; 3], [0., 0., -9.81], [0., 0., 9.81], [1., 2., 3.]][pick(4)];
            }
            let eg = if k % 34 == 32 { [[0.; 3], [0., 0., -9.81], [9.81, 0., 0.]][pick(3)] } else { [5.; 3] };
            let m = open_model()?;
            check_input(&m, k, &i, &state(&i, 0), eg)
        }),
        space("c18-every-argument", 0, "every query x every single input element changed alone", || {
            // covered by digesting outputs: each element of each argument influences the expected value
            let k = pick(QUERIES);
            let el = pick(7 + 7 + 9 + 1 + 3 + 3);
            let mut i = input(0);
            match el {
                0..=6 => i.q[el] = -7.5,
                7..=13 => i.dq[el - 7] = -7.5,
                14..=22 => i.inertia[el - 14] = -7.5,
                23 => i.m = -7.5,
                24..=26 => i.c[el - 24] = -7.5,
                _ => i.g[el - 27] = -7.5,
            }
            let m = open_model()?;
            let s = state(&i, 0);
            let eg = i.g;
            fakemodel::take();
            let got = guarded(|| ask(&m, k, &i, &s, &eg))?;
            let calls = fakemodel::take();
            let uses = match k % 34 {
                10 | 20 => false,
                0..=29 => el < 7,
                30 => el < 7 || (14..=26).contains(&el),
                31 => el <= 26,
                32 => el < 7 || el >= 23,
                _ => el < 7 || (23..=26).contains(&el) || (el >= 27 && k >= 34),
            };
            let base = ask(&m, k, &input(0), &state(&input(0), 0), &input(0).g);
            checked(1);
            ensure((bits(&got) != bits(&base)) == uses, || {
                format!("query {k}: changing input element {el} {} the result (calls {calls:?})", if uses { "does not change" } else { "changes" })
            })?;
            Ok(uses as u64)
        }),
    ]
}
// ------------------------------------------------------------------------------------------- C19
/// The file's content, if it is there.
fn file() -> Option<Vec<u8>> {
    world::with(|w| w.k.files.get(FILE).cloned())
}
fn strays() -> Vec<String> {
    world::with(|w| w.k.files.keys().filter(|k| k.starts_with("/tmp") && k.as_str() != FILE).cloned().collect())
}
fn opened() -> Vec<Vec<u8>> {
    world::with(|w| w.k.dl_images.iter().filter(|(p, _)| p.starts_with("/tmp")).map(|x| x.1.clone()).collect())
}
fn requests(s: &SimRef, from: usize) -> R<usize> {
    let sm = s.borrow();
    let v: Vec<_> = sm.reqs[from..].iter().filter(|r| r.cmd == cmd::LOAD_MODEL).collect();
    for r in &v {
        ensure(r.payload == [0, 0], || format!("the library was requested for platform {:?} instead of Linux on x86_64", r.payload))?;
    }
    Ok(v.len())
}
/// One load that must succeed.
fn good_load(r: &mut franka::Robot, s: &SimRef, persistent: bool) -> R<Model> {
    let before = file();
    let r0 = s.borrow().reqs.len();
    let o0 = opened().len();
    let img = s.borrow().model.clone();
    let m = match guarded(|| r.load_model(persistent)) {
        Ok(Ok(m)) => m,
        o => return Err(format!("loading the model failed: {:?}", res(&o))),
    };
    let n = requests(s, r0)?;
    let now = opened();
    ensure(now.len() > o0, || "no library was opened".into())?;
    checked(4);
    match &before {
        Some(b) => {
            ensure(n == 0, || "the library was downloaded although it is already present".into())?;
            ensure(now.last() == Some(b), || "not the present library was loaded".into())?;
            ensure(file().as_ref() == Some(b), || "the present library file was changed or removed".into())?;
        }
        None => {
            ensure(n == 1, || format!("{n} download requests"))?;
            ensure(now.last() == Some(&img), || {
                format!("the library loaded has {} bytes and is not the one sent ({} bytes)", now.last().map(|x| x.len()).unwrap_or(0), img.len())
            })?;
            if persistent {
                ensure(file().as_ref() == Some(&img), || "the persistent library file is missing or differs".into())?;
            } else {
                ensure(file().is_none(), || "the library file was left behind although it is not persistent".into())?;
            }
        }
    }
    ensure(strays().is_empty(), || format!("files left behind: {:?}", strays()))?;
    for k in [0, 9, 43, 31] {
        check_query(&m, k, 0)?;
    }
    Ok(m)
}
fn still_usable(r: &mut franka::Robot) -> R<()> {
    let o = res(&call(|| Op::new(6, 0).run(r)));
    ensure(o == Res::Ok, || format!("service call afterwards: {o:?}"))
}
/// A failed load: right error class, nothing half-loaded, nothing left behind.
fn failed(o: &Res, before: Option<Vec<u8>>) -> R<()> {
    ensure(matches!(o, Res::Model(_) | Res::Network(_)), || format!("expected a model or network error, got {o:?}"))?;
    ensure(file() == before, || "a failed load left a library file behind or changed it".into())?;
    ensure(strays().is_empty(), || format!("files left behind: {:?}", strays()))?;
    ensure(world::with(|w| w.k.dl_open_count == 0), || "libraries stay open after the failed load".into())
}
const SIZES: [usize; 19] =
    [23, 24, 100, 200, 1000, 4083, 4084, 4085, 4096, 8192, 16384, 20000, 65536, 69987, 69988, 100000, 1 << 20, 3_000_001, (1 << 24) + 5];
fn c19(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    vec![
        space(
            "c19-sizes",
            0,
            "library size around every buffer boundary x segmentation of the reply x size of each file write x persistence x file already present",
            move || {
                let size = SIZES[pick(SIZES.len())];
                let seg = pick(7);
                let chunk = [None, Some(1), Some(7), Some(4096)][pick(if size > 20000 { 1 } else { 4 })];
                let persistent = pick(2) == 1;
                let present = size <= 100_000 && pick(2) == 1;
                let mut sim = robot_sim();
                sim.model = image(size);
                sim.file_chunk = chunk;
                sim.cuts = Some(Box::new(move |n, m| {
                    if n == 0 || m.len() < 30 {
                        return vec![(0, m.to_vec())];
                    }
                    let h = m.len() / 2;
                    match seg {
                        0 => vec![(0, m.to_vec())],
                        1 => vec![(0, m[..1].to_vec()), (1, m[1..].to_vec())],
                        2 => vec![(0, m[..12].to_vec()), (1, m[12..13].to_vec()), (2, m[13..].to_vec())],
                        3 => vec![(0, m[..h].to_vec()), (3, m[h..].to_vec())],
                        4 => vec![(0, m[..m.len() - 1].to_vec()), (30, m[m.len() - 1..].to_vec())],
                        5 if m.len() > 100_100 => m.chunks(144_800).enumerate().map(|(i, c)| (i as u64, c.to_vec())).collect(),
                        5 => m.chunks(1448).enumerate().map(|(i, c)| (i as u64, c.to_vec())).collect(),
                        _ => vec![(0, [robot_msg(cmd::SET_LOAD, 910_000, &[0]), m.to_vec(), robot_msg(cmd::SET_LOAD, 910_001, &[0])].concat())],
                    }
                }));
                let s = sim.install();
                let mut r = connect(&s)?;
                if present {
                    world::with(|w| w.k.files.insert(FILE.into(), image(77)));
                }
                let m = good_load(&mut r, &s, persistent)?;
                s.borrow_mut().cuts = None;
                still_usable(&mut r)?;
                drop(m);
                drop(r);
                s.borrow().wire_clean()?;
                ensure(world::with(|w| w.k.dl_open_count == 0 && w.k.open_fds() == 0), || "libraries or files stay open".into())?;
                Ok(Dig::new().u(size as u64).u(persistent as u64).u(present as u64).0)
            },
        ),
        space("c19-contents", 0, "libraries of several lengths ending (or, behind the header, beginning) with zeros, 0xff, line ends, text or a repeated header x persistence x segmentation", || {
            let size = [40usize, 300, 5000][pick(3)];
            let lax = pick(2) == 1;
            let mut img = if lax { image_lax(size) } else { image(size) };
            let pat: &[u8] = [&b"\0"[..], b"\xff", b"\n", b"\r\n", b" ", b"\x7fELF", b"\x1a", b"\xc3\x28"][pick(8)];
            let n = [1, 2, 4, 16][pick(4)].min(size - 19);
            let tail = pick(2) == 1;
            for i in 0..n {
                let k = if tail { size - 1 - i } else { 19 + i };
                img[k] = pat[if tail { pat.len() - 1 - i % pat.len() } else { i % pat.len() }];
            }
            let persistent = pick(2) == 1;
            let cut = [0, 13, size / 2][pick(3)];
            let mut sim = robot_sim();
            sim.model = img;
            sim.cuts = Some(Box::new(move |_, m| vec![(0, m[..cut.min(m.len())].to_vec()), (1, m[cut.min(m.len())..].to_vec())]));
            let s = sim.install();
            let mut r = connect(&s)?;
            let m = good_load(&mut r, &s, persistent)?;
            drop(m);
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u(size as u64).u(n as u64).0)
        }),
        space("c19-disk-full", 0, "the disk is full after every number of bytes (steps of 7, and the last ones) x libraries that load only when whole, or without their last bytes x persistence: a model error, nothing left, the retry works", || {
            let size = 400usize;
            let lax = pick(2) == 1;
            let at: Vec<usize> = (0..size).step_by(7).chain(size - 3..size).collect();
            let n = at[pick(at.len())];
            let persistent = pick(2) == 1;
            let mut sim = robot_sim();
            sim.model = if lax { image_lax(size) } else { image(size) };
            sim.file_err_after = Some(n);
            let s = sim.install();
            let mut r = connect(&s)?;
            let o = guarded(|| r.load_model(persistent));
            let rs = res(&o);
            ensure(matches!(rs, Res::Model(_)), || format!("the disk was full after {n} bytes, the load returned {rs:?}"))?;
            drop(o);
            ensure(file().is_none(), || format!("the disk was full after {n} bytes, a file of {} bytes is left", file().map(|f| f.len()).unwrap_or(0)))?;
            checked(2);
            s.borrow_mut().file_err_after = None;
            still_usable(&mut r)?;
            let m = good_load(&mut r, &s, persistent).map_err(|e| format!("retry: {e}"))?;
            drop(m);
            drop(r);
            Ok(Dig::new().u(n as u64).0)
        }),
        space("c19-bad-library", 0, "each missing symbol, truncated/empty/foreign library contents, server error status x persistence x already present", || {
            let kind = pick(30 + 6);
            let persistent = pick(2) == 1;
            let present = (kind < 33 || kind == 35) && pick(2) == 1;
            let mut sim = robot_sim();
            let good = image(300);
            let mut bad = good.clone();
            match kind {
                0..=29 => sim.missing_symbol = Some(SYMBOLS[kind].into()),
                30 => {
                    bad.pop();
                }
                31 => bad = b"garbage".to_vec(),
                32 => bad = vec![0; 5000],
                33 => bad = vec![],
                35 => {} // references that cannot be resolved, see below
                _ => {
                    sim.statuses.insert(cmd::LOAD_MODEL, [1u8].into_iter().collect());
                }
            }
            sim.model = bad.clone();
            let s = sim.install();
            let mut r = connect(&s)?;
            if present {
                world::with(|w| w.k.files.insert(FILE.into(), bad.clone()));
            }
            world::with(|w| w.k.dl_unresolved = kind == 35);
            let before = file();
            let o = res(&guarded(|| r.load_model(persistent)));
            world::with(|w| w.k.dl_unresolved = false);
            requests(&s, 0)?;
            failed(&o, before).map_err(|e| format!("library fault {kind}: {e}"))?;
            still_usable(&mut r)?;
            // once the library is good, loading works
            {
                let mut sm = s.borrow_mut();
                sm.missing_symbol = None;
                sm.model = good;
                sm.statuses.clear();
            }
            world::with(|w| w.k.files.remove(FILE));
            let m = good_load(&mut r, &s, persistent).map_err(|e| format!("after library fault {kind}: {e}"))?;
            drop(m);
            drop(r);
            s.borrow().wire_clean()?;
            Ok(Dig::new().u((kind >= 30) as u64 * kind as u64).u(present as u64).0)
        }),
        space("c19-direct", 0, "creating a model from a file: complete, each missing symbol, unloadable, absent, unusable math library", || {
            let kind = pick(30 + 5);
            let sim = robot_sim();
            let s = sim.install();
            let mut img = image(300);
            match kind {
                0..=29 => s.borrow_mut().missing_symbol = Some(SYMBOLS[kind].into()),
                30 => img = b"garbage".to_vec(),
                _ => {}
            }
            let path = "/tmp/other/m.so";
            if kind != 31 {
                world::with(|w| w.k.files.insert(path.into(), img));
            }
            let libm = match kind {
                32 => Some(std::path::Path::new("/tmp/nolibm.so")),
                33 => Some(std::path::Path::new("/usr/lib/libm.so.6")),
                _ => None,
            };
            let o = guarded(|| Model::new(path, libm));
            let fs = world::with(|w| w.k.files.contains_key(path));
            ensure(fs == (kind != 31), || "the library file was removed or created".into())?;
            checked(1);
            if kind >= 33 {
                match o {
                    Ok(Ok(m)) => {
                        for k in [3, 12, 29, 30] {
                            check_query(&m, k, 0)?;
                        }
                        Ok(1)
                    }
                    o => Err(format!("creating a model from a complete library failed: {:?}", res(&o))),
                }
            } else {
                let rs = res(&o);
                drop(o);
                ensure(matches!(rs, Res::Model(_)), || format!("model fault {kind}: expected a model error, got {rs:?}"))?;
                ensure(world::with(|w| w.k.dl_open_count == 0), || "libraries stay open after the failure".into())?;
                Ok(2)
            }
        }),
        space(
            "c19-faults",
            if q { 1 } else { 2 },
            "every file, loader and network call of a load fails, is short or interrupted (one fault per load: strict; two: only no panic, no success without the right library); then the load is retried",
            move || {
                let persistent = pick(2) == 1;
                let present = pick(2) == 1;
                let mut sim = robot_sim();
                sim.model = if pick(2) == 1 { image_lax(400) } else { image(400) };
                let s = sim.install();
                let mut r = connect(&s)?;
                if present {
                    world::with(|w| w.k.files.insert(FILE.into(), image(77)));
                }
                {
                    let mut sm = s.borrow_mut();
                    sm.faults = X_FILE | X_EINTR | X_SHORT | X_TCPSEND | X_FIN | X_RST;
                    sm.fault_budget = if q { 1 } else { 2 };
                }
                let before = file();
                let want = before.clone().unwrap_or_else(|| s.borrow().model.clone());
                let o = guarded(|| r.load_model(persistent));
                let rs = res(&o);
                let inj = s.borrow().injected.clone();
                s.borrow_mut().faults = 0;
                let benign = inj.iter().all(|x| matches!(*x, "eintr" | "short" | "file-short"));
                let dead = inj.iter().any(|x| matches!(*x, "tcp-send" | "fin" | "rst" | "tcp-recv"));
                let unlink_ok = inj.len() < 2;
                checked(2);
                match &o {
                    Ok(Ok(m)) => {
                        ensure(opened().last() == Some(&want), || format!("after {inj:?} a library other than the one sent was loaded"))?;
                        check_query(m, 0, 0)?;
                        // a deletion that failed must be reported
                        let left = persistent || present;
                        ensure(file() == if left { Some(want.clone()) } else { None }, || format!("wrong file left behind after {inj:?} although the load succeeded"))?;
                    }
                    _ => {
                        ensure(!benign, || format!("{inj:?} is not an error, but the load returned {rs:?}"))?;
                        ensure(matches!(rs, Res::Model(_) | Res::Network(_)), || format!("after {inj:?} the load returned {rs:?}"))?;
                        if unlink_ok {
                            // the only fault may have been the deletion itself: then the whole file may stay
                            let f = file();
                            ensure(f == before || f.as_ref() == Some(&want), || format!("after {inj:?} an incomplete library file of {} bytes is left behind", f.as_ref().map(|x| x.len()).unwrap_or(0)))?;
                        }
                    }
                }
                let ok = rs == Res::Ok;
                drop(o);
                ensure(world::with(|w| w.k.dl_open_count == 0), || "libraries stay open".into())?;
                if !dead && unlink_ok {
                    still_usable(&mut r)?;
                    let m = good_load(&mut r, &s, persistent).map_err(|e| format!("retry after {inj:?}: {e}"))?;
                    drop(m);
                }
                drop(r);
                Ok(Dig::new().u(ok as u64).s(inj.first().copied().unwrap_or("")).0)
            },
        ),
        space("c19-sequences", 0, "all sequences of loads (persistent or not, file removed or replaced in between, server error) up to the depth bound", move || {
            let n = 1 + pick(if q { 6 } else { 8 });
            let mut sim = robot_sim();
            sim.model = image(333);
            let s = sim.install();
            let mut r = connect(&s)?;
            let mut keep = vec![];
            let mut d = Dig::new();
            for i in 0..n {
                let a = pick(5);
                d.u(a as u64);
                match a {
                    0 | 1 => keep.push(good_load(&mut r, &s, a == 1).map_err(|e| format!("load {i}: {e}"))?),
                    2 => {
                        world::with(|w| w.k.files.remove(FILE));
                    }
                    3 => {
                        // a robot update: the library sent from now on differs
                        s.borrow_mut().model = image(400 + i);
                    }
                    _ => {
                        s.borrow_mut().statuses.insert(cmd::LOAD_MODEL, [1u8].into_iter().collect());
                        let before = file();
                        let o = guarded(|| r.load_model(true));
                        let rs = res(&o);
                        s.borrow_mut().statuses.clear();
                        if before.is_some() {
                            ensure(rs == Res::Ok, || format!("load {i}: present library not used: {rs:?}"))?;
                        } else {
                            ensure(matches!(rs, Res::Model(_)), || format!("load {i}: server error gave {rs:?}"))?;
                        }
                        ensure(file() == before, || format!("load {i}: library file changed by a failed download"))?;
                    }
                }
            }
            drop(keep);
            drop(r);
            s.borrow().wire_clean()?;
            ensure(world::with(|w| w.k.dl_open_count == 0 && w.k.open_fds() == 0), || "libraries or files stay open".into())?;
            Ok(d.0)
        }),
    ]
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", spaces: c18, assumptions: &["the model library is replaced by a stand-in that digests name and arguments of each call"] },
        Prop { id: "C19", spaces: c19, assumptions: &["a stand-in loader accepts exactly complete images"] },
    ]
}
