//! C14 Inverse kinematics reports bad requests as errors and always ends
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

use crate::ikref::*;

/// the answer to every well-formed request
pub fn answer<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
) {
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    for n in ns {
        if let Some(l) = n.joint().limits.clone() {
            assume(l.min <= l.max);
        }
    }
    let c = flags(px, py, pz, rx, ry, rz, names);
    let orig = arm.joint_positions();
    let got = solver.solve_with_constraints(&arm, target, &c);
    arm.set_joint_positions_unchecked(&orig);
    let (want, _) = expected(ns, &arm, target, &c, &ignored, distance, angle, multiplier, tries, None);
    same(&got, &want, "answer of the solver");
}

/// an ignored name that no movable joint has
pub fn unknown_name<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    wrong: &str,
) {
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    for j in movables(ns) {
        assume(j.joint().name != wrong);
    }
    let before = snaps(ns);
    let mut all = names;
    all.push(wrong.to_string());
    let got = solver.solve_with_constraints(&arm, target, &flags(px, py, pz, rx, ry, rz, all));
    same(&got, &Err(Error::InvalidJointNameError { joint_name: wrong.to_string() }), "the unknown name is reported");
    unchanged(ns, &before);
}

/// by a solver that has been used before
pub fn answer_again<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    nx: &[Node<T>],
    target: &na::Isometry3<T>,
    other: &na::Isometry3<T>,
    v: Vec<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
) {
    let c = flags(px, py, pz, rx, ry, rz, names);
    let solver = second_hand(ns, nx, other, &c, &v, distance, angle, multiplier, tries);
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let orig = arm.joint_positions();
    let got = solver.solve_with_constraints(&arm, target, &c);
    arm.set_joint_positions_unchecked(&orig);
    let (want, _) = expected(ns, &arm, target, &c, &ignored, distance, angle, multiplier, tries, None);
    same(&got, &want, "answer of the solver");
}
