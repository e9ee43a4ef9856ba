//! C21 Cached poses and velocities are never stale for their own joint
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// what a read of the caches gives after something that is not an update
pub struct Cached<T: RealField> {
    pub position: Option<T>,
    pub velocity: Option<T>,
    pub origin: na::Isometry3<T>,
    pub pose: Option<na::Isometry3<T>>,
    pub speed: Option<Velocity<T>>,
}

pub fn cached<T: RealField + SubsetOf<f64>>(j: &Joint<T>) -> Cached<T> {
    Cached {
        position: j.joint_position(),
        velocity: j.joint_velocity(),
        origin: *j.origin(),
        pose: j.world_transform(),
        speed: j.world_velocity(),
    }
}

pub fn ncached<T: RealField + SubsetOf<f64>>(n: &Node<T>) -> Cached<T> {
    let j = n.joint();
    cached(&j)
}

pub fn allcached<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) -> Vec<Cached<T>> {
    ns.iter().map(|n| ncached(n)).collect()
}

fn moved<T: RealField>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a < b || a > b || (a == a) != (b == b),
        _ => false,
    }
}

pub fn fresh<T: RealField + SubsetOf<f64>>(now: &Cached<T>, was: &Cached<T>) {
    if moved(now.position, was.position) || now.origin != was.origin {
        must(now.pose.is_none(), "a moved joint has no cached pose");
        must(now.speed.is_none(), "a moved joint has no cached velocity");
    }
    if moved(now.velocity, was.velocity) {
        must(now.speed.is_none(), "a joint with another velocity has no cached velocity");
    }
    if now.pose.is_some() {
        same(&now.pose, &was.pose, "only an update writes a pose");
    }
    if now.speed.is_some() {
        same(&now.speed, &was.speed, "only an update writes a velocity");
    }
}

fn allfresh<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], was: &[Cached<T>]) {
    for (n, w) in ns.iter().zip(was.iter()) {
        fresh(&ncached(n), w);
    }
}

pub fn created<T: RealField + SubsetOf<f64>>(name: &str, jt: JointType<T>, o: na::Isometry3<T>) {
    let j = Joint::new(name, jt.clone());
    same(&j.world_transform(), &None, "a new joint has no pose");
    same(&j.world_velocity().is_none(), &true, "a new joint has no world velocity");
    let j = NodeBuilder::new().name(name).joint_type(jt).origin(o).finalize();
    same(&j.world_transform(), &None, "a built joint has no pose");
    same(&j.world_velocity().is_none(), &true, "a built joint has no world velocity");
    let n = Node::new(j);
    same(&n.world_transform(), &None, "a new node has no pose");
    same(&n.world_velocity().is_none(), &true, "a new node has no world velocity");
}

pub fn position<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let was = cached(&j);
    let _ = j.set_joint_position(x);
    fresh(&cached(&j), &was);
}

pub fn position_clamped<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let was = cached(&j);
    j.set_joint_position_clamped(x);
    fresh(&cached(&j), &was);
}

pub fn position_unchecked<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let was = cached(&j);
    j.set_joint_position_unchecked(x);
    fresh(&cached(&j), &was);
}

pub fn velocity<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, x: T) {
    let was = cached(&j);
    let _ = j.set_joint_velocity(x);
    fresh(&cached(&j), &was);
    same(&j.world_transform(), &was.pose, "the pose does not depend on the velocity");
}

pub fn origin<T: RealField + SubsetOf<f64>>(mut j: Joint<T>, o: na::Isometry3<T>) {
    let was = cached(&j);
    j.set_origin(o);
    same(j.origin(), &o, "origin stored");
    fresh(&cached(&j), &was);
    same(&j.joint_position(), &was.position, "position kept");
    same(&j.joint_velocity(), &was.velocity, "velocity kept");
}

pub fn reading<T: RealField + SubsetOf<f64>>(j: Joint<T>) {
    let was = cached(&j);
    let _ = j.local_transform();
    let _ = j.joint_position();
    let _ = j.is_movable();
    let now = cached(&j);
    same(&now.pose, &was.pose, "reading keeps the pose");
    same(&now.speed, &was.speed, "reading keeps the velocity");
    same(&j.clone().world_transform(), &was.pose, "a copy has the same pose");
    same(&j.clone().world_velocity(), &was.speed, "a copy has the same world velocity");
}

pub fn node<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, o: na::Isometry3<T>) {
    let was = allcached(ns);
    let _ = ns[0].set_joint_position(x);
    allfresh(ns, &was);
    let was = allcached(ns);
    ns[1].set_origin(o);
    allfresh(ns, &was);
}

pub fn node_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, y: T) {
    let was = allcached(ns);
    ns[0].set_joint_position_clamped(x);
    allfresh(ns, &was);
    let was = allcached(ns);
    ns[1].set_joint_position_unchecked(y);
    allfresh(ns, &was);
}

pub fn node_mimic<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    let was = allcached(ns);
    ns[1].set_mimic_parent(&ns[0], m);
    allfresh(ns, &was);
    let was = allcached(ns);
    let _ = ns[0].set_joint_position(x);
    allfresh(ns, &was);
}

pub fn tree_changes<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], l: Option<Link<T>>) {
    let was = allcached(ns);
    ns[0].set_link(l);
    ns[1].set_parent(&ns[0]);
    ns[1].remove_parent(&ns[0]);
    let chain = Chain::from_nodes(ns.to_vec());
    let _ = chain.joint_positions();
    let _ = chain.dof();
    allfresh(ns, &was);
}

pub fn chain_checked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let was = allcached(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    let _ = chain.set_joint_positions(v);
    allfresh(ns, &was);
}

pub fn chain_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let was = allcached(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    chain.set_joint_positions_clamped(v);
    allfresh(ns, &was);
}

pub fn chain_unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let was = allcached(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    chain.set_joint_positions_unchecked(v);
    allfresh(ns, &was);
}

/// an update recomputes what is missing
pub fn update<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let _ = chain.update_transforms();
    for n in ns {
        must(n.world_transform().is_some(), "the update gives every node a pose");
    }
    let _ = chain.update_velocities();
    for n in ns {
        must(n.world_transform().is_some(), "every node keeps its pose");
        must(n.world_velocity().is_some(), "the update gives every node a velocity");
    }
}

/// moving a joint between two updates: the second one gives the new pose
pub fn update_again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let _ = chain.update_transforms();
    let _ = chain.update_velocities();
    chain.set_joint_positions_unchecked(v);
    let _ = chain.update_transforms();
    for n in ns {
        let local = n.joint().local_transform();
        let want = match n.parent() {
            None => local,
            Some(p) => p.world_transform().unwrap() * local,
        };
        same(&n.world_transform(), &Some(want), "the pose of the new position");
    }
}

pub fn inertial<T: RealField + SubsetOf<f64>>(mut p: Inertial<T>, o: na::Isometry3<T>, w: na::Isometry3<T>) {
    let was = p.clone();
    p.set_origin(o);
    same(p.origin(), &o, "origin stored");
    same(p.world_transform(), &None, "no pose after a new origin");
    same(&p.mass, &was.mass, "mass kept");
    same(&p.inertia, &was.inertia, "inertia kept");
    p.set_world_transform(w);
    same(p.world_transform(), &Some(w), "pose stored");
    same(p.origin(), &o, "origin kept");
    p.clear_world_transform();
    same(p.world_transform(), &None, "pose cleared");
    same(p.origin(), &o, "origin kept");
    same(&p.mass, &was.mass, "mass kept");
    same(&p.inertia, &was.inertia, "inertia kept");
}

pub fn visual<T: RealField + SubsetOf<f64>>(mut p: Visual<T>, o: na::Isometry3<T>, w: na::Isometry3<T>) {
    let was = p.clone();
    p.set_origin(o);
    same(p.origin(), &o, "origin stored");
    same(p.world_transform(), &None, "no pose after a new origin");
    p.set_world_transform(w);
    same(p.world_transform(), &Some(w), "pose stored");
    same(p.origin(), &o, "origin kept");
    p.clear_world_transform();
    same(p.world_transform(), &None, "pose cleared");
    same(p.origin(), &o, "origin kept");
    same(&p.name, &was.name, "name kept");
    same(&p.geometry, &was.geometry, "geometry kept");
    same(&p.material, &was.material, "material kept");
}

pub fn collision<T: RealField + SubsetOf<f64>>(mut p: Collision<T>, o: na::Isometry3<T>, w: na::Isometry3<T>) {
    let was = p.clone();
    p.set_origin(o);
    same(p.origin(), &o, "origin stored");
    same(p.world_transform(), &None, "no pose after a new origin");
    p.set_world_transform(w);
    same(p.world_transform(), &Some(w), "pose stored");
    same(p.origin(), &o, "origin kept");
    p.clear_world_transform();
    same(p.world_transform(), &None, "pose cleared");
    same(p.origin(), &o, "origin kept");
    same(&p.name, &was.name, "name kept");
    same(&p.geometry, &was.geometry, "geometry kept");
}

pub fn new_parts<T: RealField + SubsetOf<f64>>(name: String, o: na::Isometry3<T>, m: T, i: na::Matrix3<T>, g: Geometry<T>, mat: Material<T>) {
    same(Inertial::new(o, m, i).world_transform(), &None, "a new inertial has no pose");
    same(Inertial::from_mass(m).world_transform(), &None, "a new inertial has no pose");
    same(Visual::new(name.clone(), o, g.clone(), mat).world_transform(), &None, "a new visual has no pose");
    same(Collision::new(name, o, g).world_transform(), &None, "a new collision has no pose");
}
