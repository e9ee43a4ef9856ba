//! C18 World velocities follow rigid-body kinematics
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn update_velocities<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    speeds(&chain, ns);
}

/// a chain that is in use
pub fn again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    speeds(&chain, ns);
}

fn speeds<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got = chain.update_velocities();
    same(&got.len(), &ns.len(), "one velocity per node");
    for (i, n) in ns.iter().enumerate() {
        let zero = na::Vector3::new(T::zero(), T::zero(), T::zero());
        let mut w = zero;
        let mut v = zero;
        let pose = n.world_transform().unwrap();
        if let Some(p) = n.parent() {
            let pv = p.world_velocity().unwrap();
            let pp = p.world_transform().unwrap();
            w = pv.rotation;
            v = pv.translation + pv.rotation.cross(&(pose.translation.vector - pp.translation.vector));
        }
        let jt = n.joint().joint_type.clone();
        let dq = n.joint().joint_velocity();
        match jt {
            JointType::Fixed => {}
            JointType::Rotational { axis } => {
                w = w + (pose.rotation * axis.into_inner()) * dq.unwrap();
            }
            JointType::Linear { axis } => {
                v = v + (pose.rotation * axis.into_inner()) * dq.unwrap();
            }
        }
        let s = n.world_velocity().unwrap();
        same(&got[i].rotation, &w, "angular velocity");
        same(&got[i].translation, &v, "linear velocity");
        same(&s.rotation, &w, "stored angular velocity");
        same(&s.translation, &v, "stored linear velocity");
        let local = n.joint().local_transform();
        let want = match n.parent() {
            None => local,
            Some(p) => p.world_transform().unwrap() * local,
        };
        same(&pose, &want, "poses are current");
    }
    unchanged(ns, &before);
}
