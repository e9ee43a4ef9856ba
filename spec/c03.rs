//! C03 A checked set is accepted exactly when movable and within limits
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn joint_position<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let before = j.clone();
    let want = checked(&before.name, &before.joint_type, &before.limits, x);
    let got = j.set_joint_position(x);
    same(&got, &want, "answer of the request");
    same_joint_but_motion(&j, &before);
    same(&j.joint_velocity(), &before.joint_velocity(), "velocity kept");
    if want.is_ok() {
        same(&j.joint_position(), &Some(x), "accepted position is read back");
    } else {
        same(&j, &before, "a refused request leaves the joint as it was");
    }
    same(&j.is_movable(), &movable(&j.joint_type), "movable unless fixed");
}

pub fn joint_velocity<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let before = j.clone();
    let got = j.set_joint_velocity(x);
    same_joint_but_motion(&j, &before);
    same(&j.joint_position(), &before.joint_position(), "position kept");
    same(&j.world_transform(), &before.world_transform(), "cached pose kept");
    if movable(&before.joint_type) {
        same(&got, &Ok(()), "answer of the request");
        same(&j.joint_velocity(), &Some(x), "accepted velocity is read back");
    } else {
        same(&got, &Err(Error::SetToFixedError { joint_name: before.name.clone() }), "answer of the request");
        same(&j, &before, "a refused request leaves the joint as it was");
        same(&j.joint_velocity(), &None, "no velocity of a fixed joint");
        same(&j.joint_position(), &None, "no position of a fixed joint");
    }
}

pub fn node_position<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T) {
    let before = snaps(ns);
    let b = before[0].clone();
    let wt = ns[0].world_transform();
    let wv = ns[0].world_velocity();
    let want = checked(&b.name, &b.joint_type, &b.limits, x);
    let got = ns[0].set_joint_position(x);
    same(&got, &want, "answer of the request");
    if want.is_ok() {
        same_snap_but_position(&snap(&ns[0]), &b);
        same(&ns[0].joint_position(), &Some(x), "accepted position is read back");
    } else {
        same_snap(&snap(&ns[0]), &b);
        same(&ns[0].world_transform(), &wt, "cached pose kept when refused");
        same(&ns[0].world_velocity(), &wv, "cached velocity kept when refused");
    }
    for i in 1..ns.len() {
        same_snap(&snap(&ns[i]), &before[i]);
    }
}
