//! C02 Local transform of a joint follows its type, axis, position and origin
use crate::joint::*;
use crate::kcommon::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn local_transform<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let n = &ns[0];
    let before = snaps(ns);
    let pos = n.joint().joint_position();
    let origin = n.origin();
    let jt = n.joint().joint_type.clone();
    let want = match jt {
        JointType::Fixed => origin,
        JointType::Rotational { axis } => {
            origin
                * na::Isometry3::from_parts(
                    na::Translation3::new(T::zero(), T::zero(), T::zero()),
                    na::UnitQuaternion::from_axis_angle(&axis, pos.unwrap()),
                )
        }
        JointType::Linear { axis } => {
            origin
                * na::Isometry3::from_parts(
                    na::Translation3::from(axis.into_inner() * pos.unwrap()),
                    na::UnitQuaternion::identity(),
                )
        }
    };
    let w = n.world_transform();
    let v = n.world_velocity();
    same(&n.joint().local_transform(), &want, "local transform");
    unchanged(ns, &before);
    same(&n.world_transform(), &w, "cached pose kept");
    same(&n.world_velocity(), &v, "cached velocity kept");
}
