//! C11 A successful inverse kinematics result really reaches the target
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

use crate::ikref::*;

fn reached<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    arm: &SerialChain<T>,
    solver: &JacobianIkSolver<T>,
    target: &na::Isometry3<T>,
    c: &Constraints,
) {
    for n in ns {
        if let Some(l) = n.joint().limits.clone() {
            assume(l.min <= l.max);
        }
    }
    let got = solver.solve_with_constraints(arm, target, c);
    if got.is_ok() {
        let u = used(c);
        let (p, r) = masked(&difference(target, &arm.end_transform()), &u);
        if u.len() > 0 {
            must(p.norm() < solver.allowable_target_distance, "the position is reached");
            must(r.norm() < solver.allowable_target_angle, "the rotation is reached");
            for n in ns {
                let j = n.joint();
                if let (Some(l), Some(x)) = (&j.limits, j.joint_position()) {
                    if x == x {
                        must(l.min <= x && x <= l.max, "every joint is within its limits");
                    }
                }
            }
        }
    }
}

pub fn constrained<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    reached(ns, &arm, &solver, target, &flags(px, py, pz, rx, ry, rz, vec![]));
}

/// with a joint ignored and a sub-task
pub fn redundant<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    ignored: usize,
    f: &'static (dyn Fn(&[T]) -> Vec<T> + Send + Sync),
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let mut solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    solver.set_nullspace_function(Box::new(move |q| f(q)));
    let name = ns[ignored].joint().name.clone();
    reached(ns, &arm, &solver, target, &flags(px, py, pz, rx, ry, rz, vec![name]));
}

/// the plain call is the fully constrained one
pub fn plain<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    let orig = arm.joint_positions();
    let a = solver.solve(&arm, target);
    let after = arm.joint_positions();
    arm.set_joint_positions_unchecked(&orig);
    let b = solver.solve_with_constraints(&arm, target, &flags(true, true, true, true, true, true, vec![]));
    same(&a, &b, "same answer as with everything constrained");
    same(&after, &arm.joint_positions(), "same positions as with everything constrained");
}

/// by a solver that has been used before
pub fn reached_again<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    nx: &[Node<T>],
    target: &na::Isometry3<T>,
    other: &na::Isometry3<T>,
    v: Vec<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
) {
    let c = flags(px, py, pz, rx, ry, rz, vec![]);
    let solver = second_hand(ns, nx, other, &c, &v, distance, angle, multiplier, tries);
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    reached(ns, &arm, &solver, target, &c);
}
