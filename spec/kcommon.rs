//! Vocabulary of the contract files.  None of this code is ever executed: the contracts are
//! type-checked together with the crate and then read by the abstract interpreter of /verif/engine,
//! which gives `same`, `must`, `assume` and `may_panic` their meaning.
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// obligation: both values are equal whenever this point is reached
#[inline(never)]
pub fn same<A>(_a: &A, _b: &A, _label: &str) {}
/// obligation: the condition holds whenever this point is reached
#[inline(never)]
pub fn must(_c: bool, _label: &str) {}
/// obligation: this point is not reached
#[inline(never)]
pub fn never(_label: &str) {}
/// precondition of everything that follows
#[inline(never)]
pub fn assume(_c: bool) {}
/// from here on a panic is allowed exactly under the condition
#[inline(never)]
pub fn may_panic(_c: bool) {}

/// from here on, when the code is about to take the lock of a node for the k-th time without holding one, a request
/// of another thread comes first
#[inline(never)]
pub fn meanwhile<F: FnMut()>(_k: usize, _request: F) {}
/// has that request come; nothing else comes from here on
#[inline(never)]
pub fn came() -> bool {
    true
}

/// everything a user can read of a node, except the cached results
#[derive(Clone)]
pub struct Snap<T: RealField> {
    pub name: String,
    pub joint_type: JointType<T>,
    pub position: Option<T>,
    pub velocity: Option<T>,
    pub limits: Option<crate::joint::Range<T>>,
    pub origin: na::Isometry3<T>,
    pub parent: Option<Node<T>>,
    pub mimic_parent: Option<Node<T>>,
    pub children: Vec<Node<T>>,
    pub link: Option<Link<T>>,
}

pub fn snap<T: RealField + SubsetOf<f64>>(n: &Node<T>) -> Snap<T> {
    let parent = n.parent();
    let mimic_parent = n.mimic_parent();
    let children = n.children().clone();
    let link = n.link().clone();
    let j = n.joint();
    Snap {
        name: j.name.clone(),
        joint_type: j.joint_type.clone(),
        position: j.joint_position(),
        velocity: j.joint_velocity(),
        limits: j.limits.clone(),
        origin: *j.origin(),
        parent,
        mimic_parent,
        children,
        link,
    }
}

pub fn snaps<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) -> Vec<Snap<T>> {
    ns.iter().map(|n| snap(n)).collect()
}

pub fn same_static<T: RealField>(a: &Snap<T>, b: &Snap<T>) {
    same(&a.name, &b.name, "joint name kept");
    same(&a.joint_type, &b.joint_type, "joint type kept");
    same(&a.limits, &b.limits, "limits kept");
    same(&a.parent, &b.parent, "parent kept");
    same(&a.mimic_parent, &b.mimic_parent, "mimic parent kept");
    same(&a.children, &b.children, "children kept");
}

/// nothing but cached results may differ
pub fn same_snap<T: RealField>(a: &Snap<T>, b: &Snap<T>) {
    same_static(a, b);
    same(&a.origin, &b.origin, "origin kept");
    same(&a.position, &b.position, "position kept");
    same(&a.velocity, &b.velocity, "velocity kept");
    same(&a.link, &b.link, "link kept");
}

/// nothing but link parts and cached results may differ
pub fn same_snap_but_link<T: RealField>(a: &Snap<T>, b: &Snap<T>) {
    same_static(a, b);
    same(&a.origin, &b.origin, "origin kept");
    same(&a.position, &b.position, "position kept");
    same(&a.velocity, &b.velocity, "velocity kept");
}

/// nothing but the position and cached results may differ
pub fn same_snap_but_position<T: RealField>(a: &Snap<T>, b: &Snap<T>) {
    same_static(a, b);
    same(&a.origin, &b.origin, "origin kept");
    same(&a.velocity, &b.velocity, "velocity kept");
    same(&a.link, &b.link, "link kept");
}

pub fn unchanged<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], before: &[Snap<T>]) {
    for (n, b) in ns.iter().zip(before.iter()) {
        same_snap(&snap(n), b);
    }
}

/// what a checked position request has to answer; the limits are ordered, as every range that a
/// constructor makes
pub fn checked<T: RealField + SubsetOf<f64>>(
    name: &str,
    jt: &JointType<T>,
    limits: &Option<crate::joint::Range<T>>,
    x: T,
) -> Result<(), Error> {
    match jt {
        JointType::Fixed => Err(Error::SetToFixedError { joint_name: name.to_string() }),
        _ => match limits {
            None => Ok(()),
            Some(r) => {
                assume(r.min <= r.max);
                if r.min <= x && x <= r.max {
                    Ok(())
                } else {
                    Err(Error::OutOfLimitError {
                        joint_name: name.to_string(),
                        position: na::try_convert(x).unwrap_or_default(),
                        max_limit: na::try_convert(r.max).unwrap_or_default(),
                        min_limit: na::try_convert(r.min).unwrap_or_default(),
                    })
                }
            }
        },
    }
}

/// limits as a constructor makes them, and a position that is a number if there are limits
pub fn proper<T: RealField + SubsetOf<f64>>(limits: &Option<crate::joint::Range<T>>, x: T) {
    if let Some(r) = limits {
        assume(r.min <= r.max);
        assume(x == x);
    }
}

/// what a clamped request has to store
pub fn nearest<T: RealField + SubsetOf<f64>>(limits: &Option<crate::joint::Range<T>>, x: T) -> T {
    match limits {
        None => x,
        Some(r) => {
            if x < r.min {
                r.min
            } else if x > r.max {
                r.max
            } else {
                x
            }
        }
    }
}

pub fn movable<T: RealField>(jt: &JointType<T>) -> bool {
    match jt {
        JointType::Fixed => false,
        _ => true,
    }
}

/// public state of a joint that is not part of a tree
pub fn same_joint_but_motion<T: RealField + SubsetOf<f64>>(a: &Joint<T>, b: &Joint<T>) {
    same(&a.name, &b.name, "joint name kept");
    same(&a.joint_type, &b.joint_type, "joint type kept");
    same(&a.limits, &b.limits, "limits kept");
    same(a.origin(), b.origin(), "origin kept");
}

/// Robots made by the public interface, for crates whose nodes have private state that the analyser
/// does not know: the state is then what the crate itself makes of it.  `mode` is what happened before.
pub fn kbuild<T: RealField + SubsetOf<f64>>(
    names: &[String],
    jts: &[JointType<T>],
    limits: &[Option<crate::joint::Range<T>>],
    o0: &[na::Isometry3<T>],
    o1: &[na::Isometry3<T>],
    p0: &[T],
    p1: &[T],
    v0: &[T],
    v1: &[T],
    links: &[Option<Link<T>>],
    order: &[usize],
    pars: &[usize],
    kids: &[usize],
    masters: &[usize],
    fols: &[usize],
    mimics: &[crate::joint::Mimic<T>],
    mode: usize,
) -> Vec<Node<T>> {
    let before = mode >= 2;
    let mut ns: Vec<Node<T>> = Vec::new();
    for i in 0..names.len() {
        let mut j = Joint::new(&names[i], jts[i].clone());
        j.limits = limits[i].clone();
        j.set_origin(if before { o0[i] } else { o1[i] });
        j.set_joint_position_unchecked(if before { p0[i] } else { p1[i] });
        let _ = j.set_joint_velocity(if before { v0[i] } else { v1[i] });
        let n = Node::new(j);
        n.set_link(links[i].clone());
        ns.push(n);
    }
    for k in 0..kids.len() {
        ns[kids[k]].set_parent(&ns[pars[k]]);
    }
    for k in 0..fols.len() {
        ns[fols[k]].set_mimic_parent(&ns[masters[k]], mimics[k].clone());
    }
    if mode >= 1 {
        let mut all: Vec<Node<T>> = Vec::new();
        for k in 0..order.len() {
            all.push(ns[order[k]].clone());
        }
        let chain = Chain::from_nodes(all);
        let _ = chain.update_velocities();
    }
    for i in 0..ns.len() {
        let turn = mode == 4 && i % 3 == 0;
        if mode == 2 || turn {
            ns[i].set_origin(o1[i]);
        }
        if mode == 3 || mode == 4 && i % 3 == 1 {
            ns[i].set_joint_position_unchecked(p1[i]);
        }
    }
    ns
}

/// the same for a joint that is in no tree
pub fn kjoint<T: RealField + SubsetOf<f64>>(
    name: String,
    jt: JointType<T>,
    limits: Option<crate::joint::Range<T>>,
    o0: na::Isometry3<T>,
    o1: na::Isometry3<T>,
    p0: T,
    p1: T,
    v: T,
    mode: usize,
) -> Joint<T> {
    let before = mode >= 2;
    let mut j = Joint::new(&name, jt);
    j.limits = limits;
    j.set_origin(if before { o0 } else { o1 });
    j.set_joint_position_unchecked(if before { p0 } else { p1 });
    let _ = j.set_joint_velocity(v);
    if mode >= 1 {
        let _ = j.local_transform();
        let n = Node::new(j);
        let _ = Chain::from_nodes(vec![n.clone()]).update_velocities();
        j = n.joint().clone();
    }
    if mode == 2 {
        j.set_origin(o1);
    }
    if mode == 3 {
        j.set_joint_position_unchecked(p1);
    }
    j
}

/// uses a chain in every way that could leave something behind in it
pub fn exercised<T: RealField + SubsetOf<f64>>(chain: &Chain<T>) {
    let _ = chain.dof();
    let _ = chain.joint_positions();
    let _ = chain.iter_joints().count();
    let _ = chain.iter_links().count();
    let _ = chain.find("somebody").is_some();
    let _ = chain.update_velocities();
    chain.update_link_transforms();
    let _ = chain.joint_positions();
}

/// what may happen to the nodes of a chain while it exists
pub fn stirred<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: &Option<Link<T>>) {
    let n = ns.len();
    ns[0].set_joint_position_unchecked(x);
    ns[n / 2].set_origin(o);
    ns[n - 1].set_link(l.clone());
    ns[n - 1].set_joint_position_clamped(v);
}
