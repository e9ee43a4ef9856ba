//! C26 Constraints read from a file default to fully constrained
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn default() {
    let c = Constraints::default();
    same(&c.position_x, &true, "x position is constrained");
    same(&c.position_y, &true, "y position is constrained");
    same(&c.position_z, &true, "z position is constrained");
    same(&c.rotation_x, &true, "x rotation is constrained");
    same(&c.rotation_y, &true, "y rotation is constrained");
    same(&c.rotation_z, &true, "z rotation is constrained");
    same(&c.ignored_joint_names.len(), &0, "no joint is ignored");
}

pub fn copy(c: &Constraints) {
    let d = c.clone();
    same(&d.position_x, &c.position_x, "x position kept");
    same(&d.position_y, &c.position_y, "y position kept");
    same(&d.position_z, &c.position_z, "z position kept");
    same(&d.rotation_x, &c.rotation_x, "x rotation kept");
    same(&d.rotation_y, &c.rotation_y, "y rotation kept");
    same(&d.rotation_z, &c.rotation_z, "z rotation kept");
    same(&d.ignored_joint_names, &c.ignored_joint_names, "ignored joints kept");
}
