//! What the Jacobian solver has to do, written down from its documentation.
use crate::joint::*;
use crate::kcommon::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn flags(px: bool, py: bool, pz: bool, rx: bool, ry: bool, rz: bool, ignored: Vec<String>) -> Constraints {
    Constraints {
        position_x: px,
        position_y: py,
        position_z: pz,
        rotation_x: rx,
        rotation_y: ry,
        rotation_z: rz,
        ignored_joint_names: ignored,
    }
}

/// the constrained coordinates
pub fn used(c: &Constraints) -> Vec<usize> {
    let mut u = vec![];
    if c.position_x {
        u.push(0);
    }
    if c.position_y {
        u.push(1);
    }
    if c.position_z {
        u.push(2);
    }
    if c.rotation_x {
        u.push(3);
    }
    if c.rotation_y {
        u.push(4);
    }
    if c.rotation_z {
        u.push(5);
    }
    u
}

/// movable joints
pub fn movables<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) -> Vec<Node<T>> {
    let mut v = vec![];
    for n in ns {
        if movable(&n.joint().joint_type.clone()) {
            v.push(n.clone());
        }
    }
    v
}

/// all six coordinates of the difference
pub fn difference<T: RealField + SubsetOf<f64>>(target: &na::Isometry3<T>, now: &na::Isometry3<T>) -> [T; 6] {
    let p = target.translation.vector - now.translation.vector;
    let w = now.rotation.rotation_to(&target.rotation).scaled_axis();
    [p[0], p[1], p[2], w[0], w[1], w[2]]
}

/// the constrained part of the difference, split into position and rotation, zero where not constrained
pub fn masked<T: RealField + SubsetOf<f64>>(d: &[T; 6], used: &[usize]) -> (na::Vector3<T>, na::Vector3<T>) {
    let mut m = [T::zero(), T::zero(), T::zero(), T::zero(), T::zero(), T::zero()];
    for i in used {
        m[*i] = d[*i];
    }
    (na::Vector3::new(m[0], m[1], m[2]), na::Vector3::new(m[3], m[4], m[5]))
}

/// the step of the free joints from the present positions
pub fn step<T: RealField + SubsetOf<f64>>(
    arm: &SerialChain<T>,
    target: &na::Isometry3<T>,
    used: &[usize],
    free: &[usize],
    sub: Option<&dyn Fn(&[T]) -> Vec<T>>,
) -> Option<Vec<T>> {
    let q = arm.joint_positions();
    let d = difference(target, &arm.end_transform());
    let full = crate::jacobian(arm);
    let mut e = vec![];
    for r in used {
        e.push(d[*r]);
    }
    let mut m = vec![];
    for c in free {
        for r in used {
            m.push(full[(*r, *c)]);
        }
    }
    let e = na::DVector::from_vec(e);
    let m = na::DMatrix::from_vec(used.len(), free.len(), m);
    let x = if free.len() > used.len() {
        let inv = m.clone().pseudo_inverse(na::convert(0.0001)).unwrap();
        match sub {
            None => inv * e,
            Some(f) => {
                let all = f(&q);
                let mut s = vec![];
                for c in free {
                    s.push(all[*c]);
                }
                let s = na::DVector::from_vec(s);
                inv.clone() * e + (na::DMatrix::identity(free.len(), free.len()) - inv * m) * s
            }
        }
    } else {
        match m.lu().solve(&e) {
            None => return None,
            Some(x) => x,
        }
    };
    let mut out = vec![];
    for i in 0..free.len() {
        out.push(x[i]);
    }
    Some(out)
}

/// the answer of a call and the positions after it
pub fn expected<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    arm: &SerialChain<T>,
    target: &na::Isometry3<T>,
    c: &Constraints,
    ignored: &[usize],
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
    sub: Option<&dyn Fn(&[T]) -> Vec<T>>,
) -> (Result<(), Error>, Vec<T>) {
    let orig = arm.joint_positions();
    let used = used(c);
    let joints = movables(ns);
    let mut free = vec![];
    for i in 0..joints.len() {
        if !ignored.contains(&i) {
            free.push(i);
        }
    }
    if free.len() < used.len() {
        return (Err(Error::PreconditionError { dof: free.len(), necessary_dof: used.len() }), orig);
    }
    if used.len() == 0 {
        return (Ok(()), orig);
    }
    let (mut dp, mut dr) = masked(&difference(target, &arm.end_transform()), &used);
    for _ in 0..tries {
        let q = arm.joint_positions();
        let mut next = q.clone();
        match step(arm, target, &used, &free, sub) {
            None => {
                arm.set_joint_positions_unchecked(&orig);
                return (Err(Error::InverseMatrixError), orig);
            }
            Some(s) => {
                for (i, f) in free.iter().enumerate() {
                    next[*f] = q[*f] + multiplier * s[i];
                }
            }
        }
        for i in 0..joints.len() {
            let l = joints[i].joint().limits.clone();
            proper(&l, next[i]);
            next[i] = nearest(&l, next[i]);
        }
        arm.set_joint_positions_unchecked(&next);
        let (p, r) = masked(&difference(target, &arm.end_transform()), &used);
        if p.norm() < distance && r.norm() < angle {
            return (Ok(()), next);
        }
        dp = p;
        dr = r;
    }
    arm.set_joint_positions_unchecked(&orig);
    (
        Err(Error::NotConvergedError {
            num_tried: tries,
            position_diff: na::try_convert(dp).unwrap_or_default(),
            rotation_diff: na::try_convert(dr).unwrap_or_default(),
        }),
        orig,
    )
}

/// a solver with other settings that has already worked on another arm and on this one, then given its settings
pub fn second_hand<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    nx: &[Node<T>],
    other: &na::Isometry3<T>,
    c: &Constraints,
    v: &[T],
    distance: T,
    angle: T,
    multiplier: T,
    tries: usize,
) -> JacobianIkSolver<T> {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let elsewhere = SerialChain::new_unchecked(Chain::from_nodes(nx.to_vec()));
    let mut solver = JacobianIkSolver::new(v[0], v[1], v[2], 1);
    let _ = solver.solve_with_constraints(&elsewhere, other, &flags(false, true, false, false, false, false, c.ignored_joint_names.clone()));
    let q = arm.joint_positions();
    let _ = solver.solve_with_constraints(&arm, other, c);
    arm.set_joint_positions_unchecked(&q);
    solver.allowable_target_distance = distance;
    solver.allowable_target_angle = angle;
    solver.jacobian_multiplier = multiplier;
    solver.num_max_try = tries;
    solver
}
