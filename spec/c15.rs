//! C15 The Jacobian's columns are the end velocity per joint velocity
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn jacobian<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    columns(&arm, ns);
}

pub fn again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let arm = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    exercised(&arm);
    let _ = crate::jacobian(&arm);
    stirred(ns, x, v, o, &l);
    columns(&arm, ns);
}

fn columns<T: RealField + SubsetOf<f64>>(arm: &SerialChain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got = crate::jacobian(arm);
    let end = arm.end_transform();
    same(&got.nrows(), &6, "six rows");
    same(&got.ncols(), &arm.dof(), "one column per movable joint");
    let mut pose = na::Isometry3::identity();
    let mut c = 0;
    for n in ns {
        pose = pose * n.joint().local_transform();
        let jt = n.joint().joint_type.clone();
        match jt {
            JointType::Fixed => {}
            JointType::Rotational { axis } => {
                let a = pose.rotation * axis.into_inner();
                let v = a.cross(&(end.translation.vector - pose.translation.vector));
                for r in 0..3 {
                    same(&got[(r, c)], &v[r], "rotational joint: axis crossed with the offset to the end");
                    same(&got[(r + 3, c)], &a[r], "rotational joint: axis");
                }
                c += 1;
            }
            JointType::Linear { axis } => {
                let a = pose.rotation * axis.into_inner();
                for r in 0..3 {
                    same(&got[(r, c)], &a[r], "linear joint: axis");
                    same(&got[(r + 3, c)], &T::zero(), "linear joint: no rotation");
                }
                c += 1;
            }
        }
    }
    unchanged(ns, &before);
}
