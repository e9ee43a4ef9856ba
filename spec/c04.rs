//! C04 A clamped set stores the nearest allowed position and never fails
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn joint_clamped<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let before = j.clone();
    proper(&before.limits, x);
    j.set_joint_position_clamped(x);
    same_joint_but_motion(&j, &before);
    same(&j.joint_velocity(), &before.joint_velocity(), "velocity kept");
    if movable(&before.joint_type) {
        same(&j.joint_position(), &Some(nearest(&before.limits, x)), "nearest allowed position");
    } else {
        same(&j, &before, "nothing happens to a fixed joint");
    }
}

pub fn joint_unchecked<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let before = j.clone();
    j.set_joint_position_unchecked(x);
    same_joint_but_motion(&j, &before);
    same(&j.joint_velocity(), &before.joint_velocity(), "velocity kept");
    if movable(&before.joint_type) {
        same(&j.joint_position(), &Some(x), "position stored as given");
    } else {
        same(&j.joint_position(), &None, "a fixed joint has no position");
    }
}

pub fn node_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T) {
    let before = snaps(ns);
    let b = before[0].clone();
    proper(&b.limits, x);
    ns[0].set_joint_position_clamped(x);
    same_snap_but_position(&snap(&ns[0]), &b);
    if movable(&b.joint_type) {
        same(&ns[0].joint_position(), &Some(nearest(&b.limits, x)), "nearest allowed position");
    }
    for i in 1..ns.len() {
        same_snap(&snap(&ns[i]), &before[i]);
    }
}

pub fn node_unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T) {
    let before = snaps(ns);
    let b = before[0].clone();
    ns[0].set_joint_position_unchecked(x);
    same_snap_but_position(&snap(&ns[0]), &b);
    if movable(&b.joint_type) {
        same(&ns[0].joint_position(), &Some(x), "position stored as given");
    }
    for i in 1..ns.len() {
        same_snap(&snap(&ns[i]), &before[i]);
    }
}
