//! Independent encoder/decoder of the robot and gripper protocols (written from the protocol
//! description, not from the library's types).
#![allow(non_upper_case_globals, dead_code)]
use franka::RobotState;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F {
    pub off: usize,
    pub n: usize,
}
macro_rules! layout {
    ($($name:ident $prev:ident $n:expr;)*) => {
        $(pub const $name: F = F { off: $prev.off + $prev.n * 8, n: $n };)*
    };
}
pub mod st {
    //! f64 fields of the state datagram, in order, after the u64 message number.
    use super::F;
    pub const MSG: F = F { off: 0, n: 1 };
    layout! {
        O_T_EE MSG 16; O_T_EE_d O_T_EE 16; F_T_EE O_T_EE_d 16; EE_T_K F_T_EE 16; F_T_NE EE_T_K 16; NE_T_EE F_T_NE 16;
        m_ee NE_T_EE 1; I_ee m_ee 9; F_x_Cee I_ee 3; m_load F_x_Cee 1; I_load m_load 9; F_x_Cload I_load 3;
        elbow F_x_Cload 2; elbow_d elbow 2;
        tau_J elbow_d 7; tau_J_d tau_J 7; dtau_J tau_J_d 7; q dtau_J 7; q_d q 7; dq q_d 7; dq_d dq 7; ddq_d dq_d 7;
        joint_contact ddq_d 7; cartesian_contact joint_contact 6; joint_collision cartesian_contact 7; cartesian_collision joint_collision 6;
        tau_ext_hat_filtered cartesian_collision 7; O_F_ext_hat_K tau_ext_hat_filtered 6; K_F_ext_hat_K O_F_ext_hat_K 6;
        O_dP_EE_d K_F_ext_hat_K 6; O_ddP_O O_dP_EE_d 3;
        elbow_c O_ddP_O 2; delbow_c elbow_c 2; ddelbow_c delbow_c 2;
        O_T_EE_c ddelbow_c 16; O_dP_EE_c O_T_EE_c 6; O_ddP_EE_c O_dP_EE_c 6; theta O_ddP_EE_c 7; dtheta theta 7;
    }
    pub const MG_MODE: usize = dtheta.off + 7 * 8;
    pub const CTRL_MODE: usize = MG_MODE + 1;
    pub const ERRORS: usize = CTRL_MODE + 1;
    pub const REFLEX: usize = ERRORS + 41;
    pub const ROBOT_MODE: usize = REFLEX + 41;
    pub const SUCCESS: F = F { off: ROBOT_MODE + 1, n: 1 };
    pub const SIZE: usize = SUCCESS.off + 8;
    pub const ALL: &[F] = &[
        O_T_EE, O_T_EE_d, F_T_EE, EE_T_K, F_T_NE, NE_T_EE, m_ee, I_ee, F_x_Cee, m_load, I_load, F_x_Cload, elbow, elbow_d,
        tau_J, tau_J_d, dtau_J, q, q_d, dq, dq_d, ddq_d, joint_contact, cartesian_contact, joint_collision, cartesian_collision,
        tau_ext_hat_filtered, O_F_ext_hat_K, K_F_ext_hat_K, O_dP_EE_d, O_ddP_O, elbow_c, delbow_c, ddelbow_c, O_T_EE_c,
        O_dP_EE_c, O_ddP_EE_c, theta, dtheta, SUCCESS,
    ];
}
// motion generator modes, controller modes, robot modes
pub const MG_IDLE: u8 = 0;
pub const CM_OTHER: u8 = 3;
pub const RM_OTHER: u8 = 0;
pub const RM_IDLE: u8 = 1;
pub const RM_MOVE: u8 = 2;
pub const RM_GUIDING: u8 = 3;
pub const RM_REFLEX: u8 = 4;
pub const RM_USER_STOPPED: u8 = 5;
pub const RM_RECOVERY: u8 = 6;

#[derive(Clone, PartialEq, Debug)]
pub struct State {
    pub b: Vec<u8>,
}
impl State {
    pub fn new() -> State {
        let mut s = State { b: vec![0; st::SIZE] };
        s.b[st::CTRL_MODE] = CM_OTHER;
        s.b[st::ROBOT_MODE] = RM_IDLE;
        let id = IDENTITY;
        for f in [st::O_T_EE, st::O_T_EE_d, st::F_T_EE, st::EE_T_K, st::F_T_NE, st::NE_T_EE, st::O_T_EE_c] {
            s.set(f, &id);
        }
        s.set(st::SUCCESS, &[1.0]);
        s
    }
    pub fn msg(&self) -> u64 {
        u64::from_le_bytes(self.b[..8].try_into().unwrap())
    }
    pub fn set_msg(&mut self, m: u64) {
        self.b[..8].copy_from_slice(&m.to_le_bytes());
    }
    pub fn get(&self, f: F) -> Vec<f64> {
        (0..f.n).map(|i| f64::from_le_bytes(self.b[f.off + i * 8..f.off + i * 8 + 8].try_into().unwrap())).collect()
    }
    pub fn arr<const N: usize>(&self, f: F) -> [f64; N] {
        self.get(f).try_into().unwrap_or([f64::NAN; N])
    }
    pub fn set(&mut self, f: F, v: &[f64]) {
        for i in 0..f.n {
            self.b[f.off + i * 8..f.off + i * 8 + 8].copy_from_slice(&v[i].to_le_bytes());
        }
    }
    pub fn mg(&self) -> u8 {
        self.b[st::MG_MODE]
    }
    pub fn cm(&self) -> u8 {
        self.b[st::CTRL_MODE]
    }
    pub fn rm(&self) -> u8 {
        self.b[st::ROBOT_MODE]
    }
    pub fn set_modes(&mut self, mg: u8, cm: u8, rm: u8) {
        self.b[st::MG_MODE] = mg;
        self.b[st::CTRL_MODE] = cm;
        self.b[st::ROBOT_MODE] = rm;
    }
    pub fn set_flags(&mut self, off: usize, on: &[usize]) {
        for i in 0..41 {
            self.b[off + i] = on.contains(&i) as u8;
        }
    }
    pub fn flags(&self, off: usize) -> Vec<usize> {
        (0..41).filter(|i| self.b[off + i] != 0).collect()
    }
    pub fn in_motion(&self) -> bool {
        self.mg() != MG_IDLE || self.cm() == 2
    }
    /// Fills every floating point field with values that depend on the field, the index and `seed`.
    pub fn paint(&mut self, seed: u64) {
        let mut i = 0u64;
        for f in st::ALL {
            let v: Vec<f64> = (0..f.n).map(|k| { i += 1; (seed % 1_000_003) as f64 + i as f64 * 1e-4 + k as f64 * 1e-7 }).collect();
            self.set(*f, &v);
        }
    }
}
impl Default for State {
    fn default() -> Self {
        State::new()
    }
}
pub const IDENTITY: [f64; 16] = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.];

fn beq(name: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.to_bits() != w.to_bits() {
            return Err(format!("state field {name}[{i}] is {g:?} but the robot sent {w:?}"));
        }
    }
    Ok(())
}
pub fn close(name: &str, got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let t = tol * (1.0 + w.abs());
        let ok = (g - w).abs() <= t || g.to_bits() == w.to_bits();
        if !ok {
            return Err(format!("{name}[{i}] is {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}
pub const ERROR_NAMES: [&str; 41] = [
    "JointPositionLimitsViolation", "CartesianPositionLimitsViolation", "SelfCollisionAvoidanceViolation", "JointVelocityViolation",
    "CartesianVelocityViolation", "ForceControlSafetyViolation", "JointReflex", "CartesianReflex", "MaxGoalPoseDeviationViolation",
    "MaxPathPoseDeviationViolation", "CartesianVelocityProfileSafetyViolation", "JointPositionMotionGeneratorStartPoseInvalid",
    "JointMotionGeneratorPositionLimitsViolation", "JointMotionGeneratorVelocityLimitsViolation",
    "JointMotionGeneratorVelocityDiscontinuity", "JointMotionGeneratorAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorStartPoseInvalid", "CartesianMotionGeneratorElbowLimitViolation",
    "CartesianMotionGeneratorVelocityLimitsViolation", "CartesianMotionGeneratorVelocityDiscontinuity",
    "CartesianMotionGeneratorAccelerationDiscontinuity", "CartesianMotionGeneratorElbowSignInconsistent",
    "CartesianMotionGeneratorStartElbowInvalid", "ForceControllerDesiredForceToleranceViolation", "StartElbowSignInconsistent",
    "CommunicationConstraintsViolation", "PowerLimitViolation", "CartesianMotionGeneratorJointPositionLimitsViolation",
    "CartesianMotionGeneratorJointVelocityLimitsViolation", "CartesianMotionGeneratorJointVelocityDiscontinuity",
    "CartesianMotionGeneratorJointAccelerationDiscontinuity", "CartesianPositionMotionGeneratorInvalidFrame",
    "ControllerTorqueDiscontinuity", "JointP2PInsufficientTorqueForPlanning", "TauJRangeViolation", "InstabilityDetection",
    "JointMoveInWrongDirection", "CartesianSplineViolation", "JointViaPlanLimitViolation", "BaseAccelerationInitializationTimeout",
    "BaseAccelerationInvalidReading",
];
pub fn error_text(on: &[usize]) -> String {
    let v: Vec<String> = on.iter().map(|i| format!("\"{}\"", ERROR_NAMES[*i])).collect();
    format!("[{}]", v.join(", "))
}
/// The public state `p` must be the faithful image of the datagram `s`.
pub fn compare(p: &RobotState, s: &State) -> Result<(), String> {
    macro_rules! c { ($($f:ident)*) => { $( beq(stringify!($f), &p.$f, &s.get(st::$f))?; )* } }
    macro_rules! c1 { ($($f:ident)*) => { $( beq(stringify!($f), &[p.$f], &s.get(st::$f))?; )* } }
    c!(O_T_EE O_T_EE_d F_T_EE EE_T_K F_T_NE NE_T_EE I_ee F_x_Cee I_load F_x_Cload elbow elbow_d tau_J tau_J_d dtau_J q q_d dq
       dq_d ddq_d joint_contact cartesian_contact joint_collision cartesian_collision tau_ext_hat_filtered O_F_ext_hat_K
       K_F_ext_hat_K O_dP_EE_d O_ddP_O elbow_c delbow_c ddelbow_c O_T_EE_c O_dP_EE_c O_ddP_EE_c theta dtheta);
    c1!(m_ee m_load);
    beq("control_command_success_rate", &[p.control_command_success_rate], &s.get(st::SUCCESS))?;
    if p.time != std::time::Duration::from_millis(s.msg()) {
        return Err(format!("state time is {:?} but the message number is {}", p.time, s.msg()));
    }
    let rm = p.robot_mode as u8;
    if rm != s.rm() {
        return Err(format!("robot mode is {:?} but the robot sent {}", p.robot_mode, s.rm()));
    }
    for (name, set, off) in [("current_errors", &p.current_errors, st::ERRORS), ("last_motion_errors", &p.last_motion_errors, st::REFLEX)] {
        let got: Vec<usize> = set.franka_errors.iter().map(|e| *e as u64 as usize).collect();
        let want = s.flags(off);
        if got != want {
            return Err(format!("{name} is {got:?} but the robot sent {want:?}"));
        }
    }
    compare_total(p, s)
}
/// Independent combination of the end effector and load inertial parameters (parallel axis theorem).
pub fn compare_total(p: &RobotState, s: &State) -> Result<(), String> {
    let (m1, m2) = (s.get(st::m_ee)[0], s.get(st::m_load)[0]);
    let (c1, c2): ([f64; 3], [f64; 3]) = (s.arr(st::F_x_Cee), s.arr(st::F_x_Cload));
    let (i1, i2): ([f64; 9], [f64; 9]) = (s.arr(st::I_ee), s.arr(st::I_load));
    let fin = |v: &[f64]| v.iter().all(|x| x.is_finite() && x.abs() < 1e100);
    if !(fin(&[m1, m2]) && fin(&c1) && fin(&c2) && fin(&i1) && fin(&i2)) || m1 < 0. || m2 < 0. {
        return Ok(()); // not physical: the combination is not specified
    }
    let m = m1 + m2;
    let mut com = [0.; 3];
    if m > 0. {
        for k in 0..3 {
            com[k] = (m1 * c1[k] + m2 * c2[k]) / m;
        }
    }
    // steiner(m,c)[a][b] = m*(|c|^2 d_ab - c_a c_b)
    let steiner = |m: f64, c: &[f64; 3], a: usize, b: usize| {
        let n2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
        m * ((if a == b { n2 } else { 0. }) - c[a] * c[b])
    };
    let mut want = [0.; 9];
    let mut mag: f64 = 0.;
    for a in 0..3 {
        for b in 0..3 {
            let e1 = if m1 == 0. { 0. } else { i1[b * 3 + a] };
            let e2 = if m2 == 0. { 0. } else { i2[b * 3 + a] };
            let terms = [e1, e2, steiner(m1, &c1, a, b), steiner(m2, &c2, a, b), -steiner(m, &com, a, b)];
            for t in terms {
                mag = mag.max(t.abs());
            }
            want[b * 3 + a] = terms.iter().sum();
        }
    }
    if p.m_total.to_bits() != m.to_bits() && (p.m_total - m).abs() > 1e-12 * m {
        return Err(format!("m_total is {:?}, expected {m:?}", p.m_total));
    }
    close("F_x_Ctotal", &p.F_x_Ctotal, &com, 1e-12)?;
    for k in 0..9 {
        if !((p.I_total[k] - want[k]).abs() <= 1e-11 * (1.0 + mag)) {
            return Err(format!("I_total[{k}] is {:?}, expected {:?}", p.I_total[k], want[k]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ command datagram
#[derive(Clone, PartialEq, Debug)]
pub struct Cmd {
    pub msg: u64,
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub vel: [f64; 6],
    pub elbow: [f64; 2],
    pub valid_elbow: bool,
    pub finished: bool,
    pub tau: [f64; 7],
}
pub const CMD_SIZE: usize = 8 + (7 + 7 + 16 + 6 + 2) * 8 + 2 + 56;
pub struct Rd<'a> {
    b: &'a [u8],
    o: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, o: 0 }
    }
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let r = self.b.get(self.o..self.o + N).map(|x| x.try_into().unwrap()).unwrap_or([0xff; N]);
        self.o += N;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take::<1>()[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take())
    }
    pub fn f<const N: usize>(&mut self) -> [f64; N] {
        let mut o = [0.; N];
        for x in o.iter_mut() {
            *x = f64::from_le_bytes(self.take());
        }
        o
    }
}
pub fn parse_cmd(b: &[u8]) -> Option<Cmd> {
    if b.len() != CMD_SIZE {
        return None;
    }
    let mut r = Rd::new(b);
    let c = Cmd {
        msg: r.u64(),
        q: r.f(),
        dq: r.f(),
        pose: r.f(),
        vel: r.f(),
        elbow: r.f(),
        valid_elbow: r.u8() == 1,
        finished: r.u8() == 1,
        tau: r.f(),
    };
    if b[CMD_SIZE - 58] > 1 || b[CMD_SIZE - 57] > 1 {
        return None;
    }
    Some(c)
}

// ------------------------------------------------------------------------------ robot TCP
pub mod cmd {
    pub const CONNECT: u32 = 0;
    pub const MOVE: u32 = 1;
    pub const STOP_MOVE: u32 = 2;
    pub const GET_CARTESIAN_LIMIT: u32 = 3;
    pub const SET_COLLISION: u32 = 4;
    pub const SET_JOINT_IMP: u32 = 5;
    pub const SET_CART_IMP: u32 = 6;
    pub const SET_GUIDING: u32 = 7;
    pub const SET_EE_TO_K: u32 = 8;
    pub const SET_NE_TO_EE: u32 = 9;
    pub const SET_LOAD: u32 = 10;
    pub const SET_FILTERS: u32 = 11;
    pub const RECOVERY: u32 = 12;
    pub const LOAD_MODEL: u32 = 13;
}
pub const ROBOT_VERSION: u16 = 5;
pub const GRIPPER_VERSION: u16 = 3;
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn u8(mut self, x: u8) -> Wr {
        self.0.push(x);
        self
    }
    pub fn u16(mut self, x: u16) -> Wr {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn u32(mut self, x: u32) -> Wr {
        self.0.extend_from_slice(&x.to_le_bytes());
        self
    }
    pub fn i32(self, x: i32) -> Wr {
        self.u32(x as u32)
    }
    pub fn f(mut self, v: &[f64]) -> Wr {
        for x in v {
            self.0.extend_from_slice(&x.to_le_bytes());
        }
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Wr {
        self.0.extend_from_slice(v);
        self
    }
}
pub fn robot_msg(c: u32, id: u32, payload: &[u8]) -> Vec<u8> {
    Wr(vec![]).u32(c).u32(id).u32(12 + payload.len() as u32).bytes(payload).0
}
pub fn gripper_msg(c: u16, id: u32, payload: &[u8]) -> Vec<u8> {
    Wr(vec![]).u16(c).u32(id).u32(10 + payload.len() as u32).bytes(payload).0
}
pub fn gripper_state(id: u32, width: f64, max: f64, grasped: bool, temp: u16) -> Vec<u8> {
    Wr(vec![]).u32(id).f(&[width, max]).u8(grasped as u8).u16(temp).0
}
pub const GRIPPER_STATE_SIZE: usize = 4 + 16 + 1 + 2;
#[derive(Clone, PartialEq, Debug)]
pub struct Req {
    pub cmd: u32,
    pub id: u32,
    pub payload: Vec<u8>,
}
