//! C22 URDF joints keep name, type, axis, limits and origin
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn joint<T: RealField + SubsetOf<f64>>(j: &urdf_rs::Joint) {
    let lo = j.limit.lower;
    let up = j.limit.upper;
    may_panic(!(lo <= up) && !(up - lo == 0.0));
    let k: Joint<T> = j.into();
    same(&k.name, &j.name, "name");
    let axis: na::Unit<na::Vector3<T>> = na::Unit::new_normalize(na::Vector3::new(
        na::convert(j.axis.xyz[0]),
        na::convert(j.axis.xyz[1]),
        na::convert(j.axis.xyz[2]),
    ));
    let jt = match j.joint_type {
        urdf_rs::JointType::Revolute => JointType::Rotational { axis },
        urdf_rs::JointType::Continuous => JointType::Rotational { axis },
        urdf_rs::JointType::Prismatic => JointType::Linear { axis },
        urdf_rs::JointType::Fixed => JointType::Fixed,
        urdf_rs::JointType::Floating => JointType::Fixed,
        urdf_rs::JointType::Planar => JointType::Fixed,
        urdf_rs::JointType::Spherical => JointType::Fixed,
    };
    same(&k.joint_type, &jt, "type and axis");
    if lo == up {
        same(&k.limits, &None, "no limits when both are equal");
    } else {
        let r = k.limits.clone().unwrap();
        same(&r.min, &na::convert(lo), "lower limit");
        same(&r.max, &na::convert(up), "upper limit");
    }
    let o = k.origin();
    let x: na::Vector3<T> = na::Vector3::new(
        na::convert(j.origin.xyz[0]),
        na::convert(j.origin.xyz[1]),
        na::convert(j.origin.xyz[2]),
    );
    same(&o.translation.vector, &x, "translation of the origin");
    let q: na::UnitQuaternion<T> =
        na::convert(na::UnitQuaternion::from_euler_angles(j.origin.rpy[0], j.origin.rpy[1], j.origin.rpy[2]));
    same(&o.rotation, &q, "rotation of the origin");
    if movable(&jt) {
        same(&k.joint_position(), &Some(T::zero()), "position zero");
        same(&k.joint_velocity(), &Some(T::zero()), "velocity zero");
    }
}

pub fn mimic<T: RealField + SubsetOf<f64>>(m: &urdf_rs::Mimic, x: T) {
    let k: Mimic<T> = m.into();
    let a = match m.multiplier {
        Some(a) => a,
        None => 1.0,
    };
    let b = match m.offset {
        Some(b) => b,
        None => 0.0,
    };
    let a: T = na::convert(a);
    let b: T = na::convert(b);
    same(&k.multiplier, &a, "multiplier, 1 by default");
    same(&k.origin, &b, "offset, 0 by default");
    same(&k.mimic_position(x), &(x * a + b), "followed position");
}

pub fn pose<T: RealField + SubsetOf<f64>>(p: &urdf_rs::Pose) {
    let x: na::Vector3<T> = na::Vector3::new(na::convert(p.xyz[0]), na::convert(p.xyz[1]), na::convert(p.xyz[2]));
    let q: na::UnitQuaternion<T> = na::convert(na::UnitQuaternion::from_euler_angles(p.rpy[0], p.rpy[1], p.rpy[2]));
    let o: na::Isometry3<T> = crate::urdf::isometry_from(p);
    same(&o.translation.vector, &x, "translation");
    same(&o.rotation, &q, "rotation");
    same(&crate::urdf::translation_from::<T>(&p.xyz).vector, &x, "translation alone");
    same(&crate::urdf::quaternion_from::<T>(&p.rpy), &q, "rotation alone");
}
