//! C16 The centre of mass is the mass-weighted mean of link centres
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn center_of_mass<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    mean(&chain, ns);
}

/// a chain that is in use, and a link that came later
pub fn again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    let _ = crate::center_of_mass(&chain);
    stirred(ns, x, v, o, &l);
    mean(&chain, ns);
}

fn mean<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got = crate::center_of_mass(chain);
    let mut total = T::zero();
    let mut sum = na::Vector3::new(T::zero(), T::zero(), T::zero());
    let mut poses: Vec<na::Isometry3<T>> = Vec::new();
    for i in 0..ns.len() {
        let local = ns[i].joint().local_transform();
        let mut pose = local;
        if let Some(p) = ns[i].parent() {
            for j in 0..i {
                if ns[j] == p {
                    pose = poses[j] * local;
                }
            }
        }
        poses.push(pose);
        if let Some(ref l) = *ns[i].link() {
            let m = l.inertial.mass;
            sum = sum + (pose * l.inertial.origin()).translation.vector * m;
            total = total + m;
        }
    }
    same(&got, &(sum / total), "mass-weighted mean");
    for i in 0..ns.len() {
        same(&ns[i].world_transform(), &Some(poses[i]), "poses are recomputed first");
    }
    unchanged(ns, &before);
}
