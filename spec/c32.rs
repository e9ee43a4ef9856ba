//! C32: the text of joints, nodes and chains
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

use std::fmt::Write;

/// direction of an axis
fn direction<T: RealField>(a: &na::Unit<na::Vector3<T>>) -> &'static str {
    let x = na::Vector3::<T>::x_axis();
    let y = na::Vector3::<T>::y_axis();
    let z = na::Vector3::<T>::z_axis();
    if *a == x {
        "+X"
    } else if *a == y {
        "+Y"
    } else if *a == z {
        "+Z"
    } else if *a == -x {
        "-X"
    } else if *a == -y {
        "-Y"
    } else if *a == -z {
        "-Z"
    } else {
        ""
    }
}

fn joint_text<T: RealField + SubsetOf<f64>>(name: &str, jt: &JointType<T>, w: &mut std::fmt::Formatter<'_>) {
    let _ = w.write_str(name);
    let _ = w.write_str(" ");
    match jt {
        JointType::Fixed => {
            let _ = w.write_str("[⚓]");
        }
        JointType::Rotational { axis } => {
            let _ = w.write_str("[⚙");
            let _ = w.write_str(direction(axis));
            let _ = w.write_str("]");
        }
        JointType::Linear { axis } => {
            let _ = w.write_str("[↕");
            let _ = w.write_str(direction(axis));
            let _ = w.write_str("]");
        }
    }
}

fn node_text<T: RealField + SubsetOf<f64>>(n: &Node<T>, w: &mut std::fmt::Formatter<'_>) {
    let link = n.link().clone();
    let j = n.joint();
    joint_text(&j.name, &j.joint_type, w);
    match link {
        Some(l) => {
            let _ = w.write_str(" => /");
            let _ = w.write_str(&l.name);
            let _ = w.write_str("/");
        }
        None => {}
    }
}

pub fn joint<'a, T: RealField + SubsetOf<f64>>(name: String, jt: JointType<T>, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let j = Joint::new(&name, jt.clone());
    let r = std::fmt::Display::fmt(&j, f);
    joint_text(&name, &jt, w);
    same(&*f, &*w, "name and kind of a joint");
    must(r.is_ok(), "printing succeeds");
}

pub fn node<'a, T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let before = snaps(ns);
    let r = std::fmt::Display::fmt(&ns[0], f);
    node_text(&ns[0], w);
    same(&*f, &*w, "joint and link of a node");
    must(r.is_ok(), "printing succeeds");
    unchanged(ns, &before);
}

fn tree_text<T: RealField + SubsetOf<f64>>(n: &Node<T>, level: usize, of: &[Node<T>], w: &mut std::fmt::Formatter<'_>) {
    if of.iter().any(|x| x == n) {
        let _ = w.write_str(&"    ".repeat(level));
        node_text(n, w);
        let _ = w.write_str("\n");
    }
    let cs = n.children().clone();
    for c in cs.iter() {
        tree_text(c, level + 1, of, w);
    }
}

/// a line for every joint of the chain, below its parent and indented by its depth
pub fn chain<'a, T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let c = Chain::from_nodes(ns.to_vec());
    let before = snaps(ns);
    let r = std::fmt::Display::fmt(&c, f);
    if ns.len() > 0 {
        tree_text(&ns[0], 0, ns, w);
    }
    same(&*f, &*w, "the tree");
    must(r.is_ok(), "printing succeeds");
    unchanged(ns, &before);
}

pub fn serial<'a, T: RealField + SubsetOf<f64>>(ns: &[Node<T>], f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let c = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let r = std::fmt::Display::fmt(&c, f);
    for i in 0..ns.len() {
        let _ = w.write_str(&"    ".repeat(i));
        node_text(&ns[i], w);
        let _ = w.write_str("\n");
    }
    same(&*f, &*w, "one joint below the other");
    must(r.is_ok(), "printing succeeds");
}
