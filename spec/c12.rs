//! C12 A failed inverse kinematics leaves the arm as it was
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

use crate::ikref::*;

fn left<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    arm: &SerialChain<T>,
    solver: &JacobianIkSolver<T>,
    target: &na::Isometry3<T>,
    c: &Constraints,
) {
    let before = snaps(ns);
    let got = solver.solve_with_constraints(arm, target, c);
    if got.is_err() {
        unchanged(ns, &before);
    } else {
        for (n, b) in ns.iter().zip(before.iter()) {
            same_snap_but_position(&snap(n), b);
        }
    }
}

/// the arm are the first `len` nodes
pub fn failed<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    len: usize,
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    ignored: Vec<String>,
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns[0..len].to_vec()));
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    left(ns, &arm, &solver, target, &flags(px, py, pz, rx, ry, rz, ignored));
}

pub fn with_task<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    ignored: Vec<String>,
    f: &'static (dyn Fn(&[T]) -> Vec<T> + Send + Sync),
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let mut solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    solver.set_nullspace_function(Box::new(move |q| f(q)));
    left(ns, &arm, &solver, target, &flags(px, py, pz, rx, ry, rz, ignored));
}

pub fn plain<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    target: &na::Isometry3<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let solver = JacobianIkSolver::new(distance, angle, multiplier, tries);
    let before = snaps(ns);
    if solver.solve(&arm, target).is_err() {
        unchanged(ns, &before);
    }
}

/// by a solver that has been used before
pub fn failed_again<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    nx: &[Node<T>],
    target: &na::Isometry3<T>,
    other: &na::Isometry3<T>,
    v: Vec<T>,
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    px: bool,
    py: bool,
    pz: bool,
    rx: bool,
    ry: bool,
    rz: bool,
    ignored: Vec<String>,
) {
    let c = flags(px, py, pz, rx, ry, rz, ignored);
    let solver = second_hand(ns, nx, other, &c, &v, distance, angle, multiplier, tries);
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    left(ns, &arm, &solver, target, &c);
}
