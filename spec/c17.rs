//! C17 Link parts are placed by their own joint's current pose
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn update_link_transforms<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    parts(&chain, ns);
}

/// a chain that is in use, and a link that came later
pub fn again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, nx: &[Node<T>]) {
    let l = nx[0].link().clone();
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    parts(&chain, ns);
}

fn parts<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    chain.update_link_transforms();
    let mut poses: Vec<na::Isometry3<T>> = Vec::new();
    for i in 0..ns.len() {
        let local = ns[i].joint().local_transform();
        let mut pose = local;
        if let Some(p) = ns[i].parent() {
            for j in 0..i {
                if ns[j] == p {
                    pose = poses[j] * local;
                }
            }
        }
        poses.push(pose);
        same(&ns[i].world_transform(), &Some(pose), "poses are recomputed first");
        let link = ns[i].link().clone();
        same(&link.is_some(), &before[i].link.is_some(), "link kept");
        if let Some(l) = link {
            let b = before[i].link.clone().unwrap();
            same(&l.name, &b.name, "link name kept");
            same(&l.inertial.mass, &b.inertial.mass, "mass kept");
            same(&l.inertial.inertia, &b.inertial.inertia, "inertia kept");
            same(l.inertial.origin(), b.inertial.origin(), "inertial origin kept");
            same(l.inertial.world_transform(), &Some(pose * b.inertial.origin()), "pose of the inertial part");
            same(&l.visuals.len(), &b.visuals.len(), "visuals kept");
            same(&l.collisions.len(), &b.collisions.len(), "collisions kept");
            for j in 0..b.visuals.len() {
                let (x, y) = (&l.visuals[j], &b.visuals[j]);
                same(x.world_transform(), &Some(pose * y.origin()), "pose of a visual");
                same(x.origin(), y.origin(), "visual origin kept");
                same(&x.name, &y.name, "visual name kept");
                same(&x.geometry, &y.geometry, "visual shape kept");
                same(&x.material, &y.material, "visual material kept");
            }
            for j in 0..b.collisions.len() {
                let (x, y) = (&l.collisions[j], &b.collisions[j]);
                same(x.world_transform(), &Some(pose * y.origin()), "pose of a collision");
                same(x.origin(), y.origin(), "collision origin kept");
                same(&x.name, &y.name, "collision name kept");
                same(&x.geometry, &y.geometry, "collision shape kept");
            }
        }
        same_snap_but_link(&snap(&ns[i]), &before[i]);
    }
}
