//! Shared scenario helpers.
#![allow(dead_code)]
use crate::explore::guarded;
use crate::sim::{Sim, SimRef};
use franka::exception::FrankaException;
use franka::{Gripper, RealtimeConfig, Robot};

pub type R<T> = Result<T, String>;
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> R<()> {
    if c {
        Ok(())
    } else {
        Err(msg())
    }
}
/// Creates a robot connection that is expected to succeed.
pub fn connect(s: &SimRef) -> R<Robot> {
    connect_log(s, None)
}
pub fn connect_log(_s: &SimRef, log: Option<usize>) -> R<Robot> {
    match guarded(|| Robot::new("robot.local", RealtimeConfig::Ignore, log)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("connecting to a healthy robot failed: {e:?}")),
        Err(p) => Err(format!("connecting to a healthy robot panicked: {p}")),
    }
}
pub fn connect_gripper(_s: &SimRef) -> R<Gripper> {
    match guarded(|| Gripper::new("gripper.local")) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("connecting to a healthy gripper failed: {e:?}")),
        Err(p) => Err(format!("connecting to a healthy gripper panicked: {p}")),
    }
}
pub fn robot_sim() -> Sim {
    Sim::new(false)
}
pub fn gripper_sim() -> Sim {
    Sim::new(true)
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Command(String),
    Control(String),
    Network(String),
    Model(String),
    Realtime(String),
    Version(u16, u16),
    Other(String),
    Panic(String),
}
pub fn err_of(e: &FrankaException) -> Res {
    match e {
        FrankaException::ControlException { error, .. } => Res::Control(error.clone()),
        FrankaException::CommandException { message } => Res::Command(message.clone()),
        FrankaException::NetworkException { message } => Res::Network(message.clone()),
        FrankaException::ModelException { message } => Res::Model(message.clone()),
        FrankaException::RealTimeException { message } => Res::Realtime(message.clone()),
        FrankaException::IncompatibleLibraryVersionError { server_version, library_version } => Res::Version(*server_version, *library_version),
        e => Res::Other(format!("{e:?}")),
    }
}
pub fn res<T>(r: &Result<Result<T, FrankaException>, String>) -> Res {
    match r {
        Ok(Ok(_)) => Res::Ok,
        Ok(Err(e)) => err_of(e),
        Err(p) => Res::Panic(p.clone()),
    }
}
/// Runs a call; a panic is itself a result.
pub fn call<T>(f: impl FnOnce() -> Result<T, FrankaException>) -> Result<Result<T, FrankaException>, String> {
    guarded(f)
}
pub fn lower(s: &str) -> String {
    s.to_lowercase()
}

/// Notes that the client is about to look for its next state.
pub fn look(s: &SimRef) {
    let l = crate::world::with(|w| s.borrow().waiting(&mut w.k));
    s.borrow_mut().ev.push(crate::sim::Ev::Look(l));
}
