//! C13 Inverse kinematics uses exactly the constrained coordinates and free joints
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

use crate::ikref::*;

fn moved<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    solver: &JacobianIkSolver<T>,
    target: &na::Isometry3<T>,
    c: &Constraints,
    ignored: &[usize],
    sub: Option<&dyn Fn(&[T]) -> Vec<T>>,
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let joints = movables(ns);
    for j in &joints {
        if let Some(l) = j.joint().limits.clone() {
            assume(l.min <= l.max);
        }
    }
    for i in ignored {
        let l = joints[*i].joint().limits.clone();
        let x = joints[*i].joint_position().unwrap();
        if let Some(l) = l {
            assume(l.min <= x && x <= l.max);
        }
    }
    let orig = arm.joint_positions();
    let got = solver.solve_with_constraints(&arm, target, c);
    let after = arm.joint_positions();
    if got.is_ok() {
        for i in ignored {
            same(&after[*i], &orig[*i], "an ignored joint is not moved");
        }
        arm.set_joint_positions_unchecked(&orig);
        let (want, positions) = expected(
            ns,
            &arm,
            target,
            c,
            ignored,
            solver.allowable_target_distance,
            solver.allowable_target_angle,
            solver.jacobian_multiplier,
            solver.num_max_try,
            sub,
        );
        same(&want, &Ok(()), "success only where it is due");
        same(&after, &positions, "the joints are moved by the steps computed for them");
    }
}

pub fn steps<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
) {
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    moved(ns, &solver, target, &flags(px, py, pz, rx, ry, rz, names), &ignored, None);
}

pub fn task_steps<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
    f: &'static (dyn Fn(&[T]) -> Vec<T> + Send + Sync),
) {
    let mut solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    solver.set_nullspace_function(Box::new(move |q| f(q)));
    let sub = |q: &[T]| f(q);
    moved(ns, &solver, target, &flags(px, py, pz, rx, ry, rz, names), &ignored, Some(&sub));
}

/// a sub-task that was taken back is not used
pub fn cleared<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
    f: &'static (dyn Fn(&[T]) -> Vec<T> + Send + Sync),
) {
    let mut solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    solver.set_nullspace_function(Box::new(move |q| f(q)));
    solver.clear_nullspace_function();
    moved(ns, &solver, target, &flags(px, py, pz, rx, ry, rz, names), &ignored, None);
}

/// by a solver that has been used before
pub fn steps_again<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    nx: &[Node<T>],
    target: &na::Isometry3<T>,
    other: &na::Isometry3<T>,
    v: Vec<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    names: Vec<String>,
    ignored: Vec<usize>,
) {
    let c = flags(px, py, pz, rx, ry, rz, names);
    let solver = second_hand(ns, nx, other, &c, &v, distance, angle, multiplier, tries);
    moved(ns, &solver, target, &c, &ignored, None);
}
