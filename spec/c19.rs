//! C19: operations that no other contract calls, and mimic relations that are not trees
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn show_node<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'_>) {
    for n in ns.iter() {
        let _ = std::fmt::Display::fmt(n, f);
    }
}

pub fn show_chain<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'_>) {
    let c = Chain::from_nodes(ns.to_vec());
    let _ = std::fmt::Display::fmt(&c, f);
}

pub fn show_serial<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'_>) {
    let c = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let _ = std::fmt::Display::fmt(&c, f);
}

/// every setter on every node, whatever mimics what
pub fn move_all<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, o: Isometry3<T>) {
    for n in ns.iter() {
        let _ = n.set_joint_position(x);
        n.set_joint_position_clamped(x);
        n.set_joint_position_unchecked(x);
        let _ = n.joint_position();
        let _ = n.mimic_parent();
        n.set_origin(o);
    }
}

pub fn move_chain<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let c = Chain::from_nodes(ns.to_vec());
    let _ = c.set_joint_positions(v);
    c.set_joint_positions_clamped(v);
    let _ = c.set_joint_positions_unchecked(v);
    let _ = c.update_transforms();
    let _ = c.update_velocities();
    let _ = c.update_link_transforms();
}

/// relations of a node to itself
pub fn itself<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: crate::joint::Mimic<T>, l: Link<T>) {
    let n = &ns[0];
    n.remove_parent(n);
    n.set_mimic_parent(n, m.clone());
    let _ = n.set_joint_position(x);
    n.set_mimic_parent(n, m);
    n.set_link(Some(l));
    n.set_link(None);
    let _ = n == n;
}

/// relations that change back and forth
pub fn swap_masters<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: crate::joint::Mimic<T>) {
    let (a, b, c) = (&ns[0], &ns[1], &ns[2]);
    a.set_mimic_parent(b, m.clone());
    let _ = b.set_joint_position(x);
    b.set_mimic_parent(a, m.clone());
    let _ = a.set_joint_position(x);
    let _ = b.set_joint_position(x);
    b.set_mimic_parent(c, m.clone());
    let _ = c.set_joint_position(x);
    a.set_mimic_parent(c, m);
    let _ = c.set_joint_position(x);
    let _ = a.set_joint_position(x);
}
