//! The properties and the spaces that decide them.
pub mod ctl;
pub mod faults;
pub mod gripper;
pub mod invalid;
pub mod limits;
pub mod logs;
pub mod model;
pub mod motions;
pub mod realtime;
pub mod rig;
pub mod services;
pub mod shape;
pub mod states;
pub mod traj;
pub mod util;
use crate::explore::Space;
use crate::Tier;
pub struct Prop {
    pub id: &'static str,
    pub spaces: fn(Tier) -> Vec<Space>,
    pub assumptions: &'static [&'static str],
}
pub const ASSUMPTIONS: &[&str] = &[
    "the simulated kernel (sockets, epoll, clock, files, scheduling, dynamic loading) behaves like Linux for the calls the library makes",
    "the environment model covers the robot and gripper behaviours listed in DESIGN.md",
    "exploration is complete only within the stated bounds",
];
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(services::props());
    v.extend(states::props());
    v.extend(motions::props());
    v.extend(faults::props());
    v.extend(gripper::props());
    v.extend(realtime::props());
    v.extend(model::props());
    v.extend(shape::props());
    v.extend(limits::props());
    v.extend(logs::props());
    v.extend(traj::props());
    v.extend(invalid::props());
    v
}
