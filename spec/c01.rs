//! C01 Forward kinematics composes parent pose and local transform
use crate::kcommon::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// the pose of a node after an update
fn pose<T: RealField + SubsetOf<f64>>(n: &Node<T>) -> na::Isometry3<T> {
    let local = n.joint().local_transform();
    match n.parent() {
        None => local,
        Some(p) => p.world_transform().unwrap() * local,
    }
}

pub fn update_transforms<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    poses(&chain, ns);
}

/// a chain that is in use
pub fn used_chain<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    poses(&chain, ns);
}

/// a node that was moved below another one after the chain had been made
pub fn moved_node<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], c: usize, p: usize) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    ns[c].set_parent(&ns[p]);
    poses(&chain, ns);
}

fn poses<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got = chain.update_transforms();
    same(&got.len(), &ns.len(), "one pose per node");
    for (i, n) in ns.iter().enumerate() {
        let want = pose(n);
        same(&got[i], &want, "returned pose");
        same(&n.world_transform(), &Some(want), "stored pose");
    }
    unchanged(ns, &before);
}

pub fn end_transform<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    end_pose(&chain, ns);
}

pub fn used_arm<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let _ = chain.end_transform();
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    end_pose(&chain, ns);
}

fn end_pose<T: RealField + SubsetOf<f64>>(chain: &SerialChain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got = chain.end_transform();
    let mut want = na::Isometry3::identity();
    for n in ns {
        want = want * n.joint().local_transform();
    }
    same(&got, &want, "end transform");
    unchanged(ns, &before);
}
