//! C10 Cloning a chain gives a faithful, independent copy
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn image<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], copy: &[Node<T>], n: &Option<Node<T>>) -> Option<Node<T>> {
    if let Some(n) = n {
        for i in 0..ns.len() {
            if ns[i] == *n {
                return Some(copy[i].clone());
            }
        }
    }
    None
}

/// ns holds the nodes of the chain, extra nodes that do not belong to it
pub fn clone<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], nx: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let before = snaps(ns);
    let xbefore = snaps(nx);
    let copy = chain.clone();
    let cs: Vec<Node<T>> = copy.iter().cloned().collect();
    same(&cs.len(), &ns.len(), "as many nodes");
    same(&copy.dof(), &chain.dof(), "as many degrees of freedom");
    for i in 0..ns.len() {
        let s = snap(&cs[i]);
        let b = &before[i];
        same(&s.name, &b.name, "equal joint: name");
        same(&s.joint_type, &b.joint_type, "equal joint: type");
        same(&s.limits, &b.limits, "equal joint: limits");
        same(&s.origin, &b.origin, "equal joint: origin");
        same(&s.position, &b.position, "equal joint: position");
        same(&s.velocity, &b.velocity, "equal joint: velocity");
        same(&cs[i].world_transform(), &ns[i].world_transform(), "equal joint: cached pose");
        same(&cs[i].world_velocity(), &ns[i].world_velocity(), "equal joint: cached velocity");
        same(&s.link, &b.link, "equal link");
        same(&s.parent, &image(ns, &cs, &b.parent), "parent of the copy");
        same(&s.mimic_parent, &image(ns, &cs, &b.mimic_parent), "mimic parent of the copy");
        let mut want = Vec::new();
        for c in &b.children {
            if let Some(x) = image(ns, &cs, &Some(c.clone())) {
                want.push(x);
            }
        }
        same(&s.children, &want, "children of the copy, in order");
        for j in 0..ns.len() {
            must(cs[i] != ns[j], "no node is shared");
            if i != j {
                must(cs[i] != cs[j], "no node twice");
            }
        }
    }
    unchanged(ns, &before);
    unchanged(nx, &xbefore);
}

/// a copy of a chain that is in use
pub fn used_chain<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    let _ = chain.clone();
    stirred(ns, x, v, o, &l);
    let before = snaps(ns);
    let copy = chain.clone();
    let cs: Vec<Node<T>> = copy.iter().cloned().collect();
    same(&cs.len(), &ns.len(), "as many nodes");
    for i in 0..ns.len() {
        let s = snap(&cs[i]);
        same(&s.name, &before[i].name, "equal joint: name");
        same(&s.origin, &before[i].origin, "equal joint: origin");
        same(&s.position, &before[i].position, "equal joint: position");
        same(&s.velocity, &before[i].velocity, "equal joint: velocity");
        same(&s.link, &before[i].link, "equal link");
        same(&s.parent, &image(ns, &cs, &before[i].parent), "parent of the copy");
        must(cs[i] != ns[i], "no node is shared");
    }
    unchanged(ns, &before);
    copy.update_velocities();
    copy.set_joint_positions_unchecked(&copy.joint_positions());
    unchanged(ns, &before);
}

/// the copy is moved, not the original
pub fn independent<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let before = snaps(ns);
    let copy = chain.clone();
    copy.set_joint_positions_unchecked(v);
    copy.update_transforms();
    copy.set_origin(na::Isometry3::identity());
    unchanged(ns, &before);
    let got = copy.joint_positions();
    for i in 0..v.len() {
        same(&got[i], &v[i], "the copy moves");
    }
}

/// ns[1] follows ns[0]: in the copy, too, with the same parameters
pub fn mimics<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], m: Mimic<T>, x: T) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let chain = Chain::from_nodes(ns.to_vec());
    let before = snaps(ns);
    let copy = chain.clone();
    let cs: Vec<Node<T>> = copy.iter().cloned().collect();
    same(&cs[0].set_joint_position(x), &Ok(()), "the copied master");
    same(&cs[1].joint_position(), &Some(x * m.multiplier + m.origin), "the copied follower follows the copied master");
    unchanged(ns, &before);
}

pub fn empty<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let copy = chain.clone();
    same(&copy.iter().count(), &0, "no nodes");
    same(&copy.dof(), &0, "no degrees of freedom");
}

pub fn serial<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let copy = chain.clone();
    let cs: Vec<Node<T>> = copy.iter().cloned().collect();
    same(&cs.len(), &ns.len(), "as many nodes");
    for i in 0..ns.len() {
        same(&cs[i].joint().name, &ns[i].joint().name, "equal joints in order");
        same(&cs[i].joint_position(), &ns[i].joint_position(), "equal joints in order");
        must(cs[i] != ns[i], "no node is shared");
    }
}
