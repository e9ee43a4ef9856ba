//! C28 A serial chain really is serial
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn same_chain<T: RealField + SubsetOf<f64>>(a: &Chain<T>, b: &Chain<T>) {
    let x: Vec<Node<T>> = a.iter().cloned().collect();
    let y: Vec<Node<T>> = b.iter().cloned().collect();
    same(&x, &y, "the same nodes in the same order");
    same(&a.dof(), &b.dof(), "the same degrees of freedom");
    same(&a.joint_positions(), &b.joint_positions(), "the same joints");
    let x: Vec<String> = a.iter_joints().map(|j| j.name.clone()).collect();
    let y: Vec<String> = b.iter_joints().map(|j| j.name.clone()).collect();
    same(&x, &y, "the same joints in the same order");
}

pub fn try_new<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let before = snaps(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    let plain = Chain::from_nodes(ns.to_vec());
    let mut serial = true;
    for i in 0..ns.len() {
        if i + 1 < ns.len() && before[i].children.len() != 1 {
            serial = false;
        }
    }
    let got = SerialChain::try_new(chain);
    same(&got.is_some(), &serial, "accepted exactly when every node but the last has one child");
    if let Some(s) = got {
        same_chain(&s, &plain);
        same_chain(&s.unwrap(), &plain);
    }
    unchanged(ns, &before);
}

pub fn unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let before = snaps(ns);
    let plain = Chain::from_nodes(ns.to_vec());
    let s = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    same_chain(&s, &plain);
    same_chain(&s.unwrap(), &plain);
    unchanged(ns, &before);
}

pub fn from_end<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize) {
    let before = snaps(ns);
    let s = SerialChain::from_end(&ns[at]);
    let plain = Chain::from_end(&ns[at]);
    same_chain(&s, &plain);
    same_chain(&s.unwrap(), &plain);
    unchanged(ns, &before);
}

pub fn from_end_to_root<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize, to: usize) {
    let before = snaps(ns);
    let s = SerialChain::from_end_to_root(&ns[at], &ns[to]);
    let plain = Chain::from_end_to_root(&ns[at], &ns[to]);
    same_chain(&s, &plain);
    same_chain(&s.unwrap(), &plain);
    unchanged(ns, &before);
}

/// operations through the serial chain act on the wrapped chain
pub fn operations<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T], name: &str) {
    let s = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let plain = Chain::from_nodes(ns.to_vec());
    same(&s.find(name), &plain.find(name), "the same search result");
    s.set_joint_positions_clamped(v);
    same(&s.joint_positions(), &plain.joint_positions(), "the same positions");
    let poses = s.update_transforms();
    for (i, n) in ns.iter().enumerate() {
        same(&Some(poses[i]), &n.world_transform(), "the poses of the wrapped chain's nodes");
    }
    let r = s.set_joint_positions(v);
    same(&r, &plain.set_joint_positions(v), "the same answer");
}
